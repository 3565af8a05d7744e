// Order abstraction for functions of two scalars: the pairs of argument values are split into finitely many cells by the constants the
// code and its types mention and by the order of the two arguments; within a cell every instruction has one abstract value (an argument
// plus an offset, a constant, or unknown), so that comparisons are decided by the cell. A cell in which the outcome stays unknown is
// reported as undecided.
#include <gmpxx.h>

#include <optional>

#include "common.h"
#include "llvm/Analysis/ConstantFolding.h"

namespace vp {
namespace {

struct Kind {
  bool flt = false, sgn = false;
  unsigned bits = 0;
};

std::optional<Kind> ParseKind(StringRef s) {
  Kind k;
  const char c = s[0];
  std::string digits;
  for (char d : s.drop_front()) {
    if (!isdigit(d)) break;
    digits += d;
  }
  k.bits = std::stoi(digits);
  k.flt = c == 'f';
  k.sgn = c == 's';
  return k;
}

mpz_class Pow2(unsigned n) {
  mpz_class r = 1;
  r <<= n;
  return r;
}

mpz_class FromApInt(const APInt& v, bool sgn) {
  SmallString<40> s;
  v.toString(s, 10, sgn);
  return mpz_class(std::string(s.str()));
}

unsigned Precision(const Type* t) {
  if (t->isFloatTy()) return 24;
  if (t->isDoubleTy()) return 53;
  if (t->isX86_FP80Ty()) return 64;
  return 0;
}

// The nearest value with `prec` significant bits, ties to even.
mpz_class Round(const mpz_class& v, unsigned prec) {
  mpz_class a = abs(v);
  const size_t n = mpz_sizeinbase(a.get_mpz_t(), 2);
  if (n <= prec) return v;
  const unsigned sh = n - prec;
  mpz_class q = a >> sh, r = a - (q << sh), half = Pow2(sh - 1);
  if (r > half || (r == half && mpz_odd_p(q.get_mpz_t()))) ++q;
  q <<= sh;
  return v < 0 ? mpz_class(-q) : q;
}

// Cut points: integers and the two infinities. A position is a cut point (even) or the open gap after it (odd).
struct Bound {
  int inf = 0;  // -1, 0, +1
  mpz_class v;
  bool operator<(const Bound& o) const { return inf != o.inf ? inf < o.inf : inf == 0 && v < o.v; }
  bool operator==(const Bound& o) const { return inf == o.inf && (inf != 0 || v == o.v); }
};

struct Val {
  enum K { kUnknown, kInt, kNum, kNan, kArg, kPtr } k = kUnknown;
  // kInt: an integer of the instruction's width, canonical in [0, 2^w). kNum: an exact floating value, a Bound.
  // kArg: argument `arg` plus `off`, as a mathematical value; for integers reduced so that it lies in [0, 2^w).
  // kPtr: the address of a constant.
  mpz_class v;
  Bound b;
  int arg = -1;
  mpz_class off;
  Constant* ptr = nullptr;
};

struct Cell {
  int pos[2];   // position of each argument, -1: not a number
  int rel;      // a<b: -1, 0, +1; 2: not applicable (a NaN)
};

class Eval {
 public:
  Eval(Function& f, const std::vector<Bound>& cuts, Kind ka, Kind kb) : f_(f), cuts_(cuts), kind_{ka, kb} {}

  // Inclusive mathematical bounds of argument i's value in the cell; integers in gaps exclude the end points.
  void Range(int i, Bound& lo, Bound& hi, bool& open) const {
    const int p = cell_.pos[i];
    lo = cuts_[p / 2];
    hi = p % 2 ? cuts_[p / 2 + 1] : lo;
    open = p % 2;
    if (open && !kind_[i].flt) {
      if (!lo.inf) lo.v += 1;
      if (!hi.inf) hi.v -= 1;
      open = false;
    }
  }
  std::string Witness() const {
    std::string s;
    for (int i = 0; i < 2; ++i) {
      s += i ? ", b = " : "a = ";
      if (cell_.pos[i] < 0) {
        s += "NaN";
        continue;
      }
      Bound lo, hi;
      bool open;
      Range(i, lo, hi, open);
      auto str = [](const Bound& b) { return b.inf ? std::string(b.inf < 0 ? "-inf" : "+inf") : b.v.get_str(); };
      s += lo == hi ? str(lo) : (open ? "in (" : "in [") + str(lo) + ", " + str(hi) + (open ? ")" : "]");
    }
    if (cell_.rel == -1) s += ", a < b";
    if (cell_.rel == 0) s += ", a == b";
    if (cell_.rel == 1) s += ", a > b";
    return s;
  }

  std::optional<mpz_class> Run(const Cell& c, std::string* why) {
    cell_ = c;
    vals_.clear();
    for (int i = 0; i < 2; ++i) vals_[f_.getArg(i)] = ArgVal(i);
    BasicBlock* bb = &f_.getEntryBlock();
    BasicBlock* prev = nullptr;
    for (int steps = 0; steps < 200; ++steps) {
      std::map<const Value*, Val> phis;
      for (PHINode& p : bb->phis()) phis[&p] = Get(p.getIncomingValueForBlock(prev));
      for (auto& [k, v] : phis) vals_[k] = v;
      for (Instruction& in : *bb) {
        if (isa<PHINode>(in) || isa<DbgInfoIntrinsic>(in)) continue;
        if (in.isTerminator()) break;
        vals_[&in] = Step(in);
      }
      Instruction* t = bb->getTerminator();
      prev = bb;
      if (auto* r = dyn_cast<ReturnInst>(t)) {
        Val v = Get(r->getReturnValue());
        if (v.k == Val::kInt) return Signed(v.v, r->getReturnValue()->getType()->getIntegerBitWidth());
        *why = "the result is not decided by the cell";
        return std::nullopt;
      }
      if (auto* b = dyn_cast<BranchInst>(t)) {
        if (!b->isConditional()) {
          bb = b->getSuccessor(0);
          continue;
        }
        Val v = Get(b->getCondition());
        if (v.k != Val::kInt) {
          *why = "branch at " + Loc(*t) + " is not decided by the cell";
          return std::nullopt;
        }
        bb = b->getSuccessor(v.v != 0 ? 0 : 1);
        continue;
      }
      if (auto* sw = dyn_cast<SwitchInst>(t)) {
        Val v = Get(sw->getCondition());
        if (v.k != Val::kInt) {
          *why = "switch at " + Loc(*t) + " is not decided by the cell";
          return std::nullopt;
        }
        BasicBlock* to = sw->getDefaultDest();
        for (auto& cs : sw->cases())
          if (FromApInt(cs.getCaseValue()->getValue(), false) == v.v) to = cs.getCaseSuccessor();
        bb = to;
        continue;
      }
      *why = "unsupported control flow at " + Loc(*t);
      return std::nullopt;
    }
    *why = "a loop without a bound";
    return std::nullopt;
  }

 private:
  static mpz_class Signed(const mpz_class& v, unsigned w) { return v >= Pow2(w - 1) ? mpz_class(v - Pow2(w)) : v; }
  static Val Int(const mpz_class& v, unsigned w) {
    Val r;
    r.k = Val::kInt;
    mpz_class m;
    mpz_fdiv_r_2exp(m.get_mpz_t(), v.get_mpz_t(), w);
    r.v = m;
    return r;
  }
  static Val Bool(bool b) { return Int(b ? 1 : 0, 1); }
  static Val Num(const Bound& b) {
    Val r;
    r.k = Val::kNum;
    r.b = b;
    return r;
  }
  // The mathematical value of an integer kArg: canonical range in [0, 2^w), or unknown.
  Val CanonArg(int i, mpz_class off, unsigned w) const {
    Bound lo, hi;
    bool open;
    Range(i, lo, hi, open);
    if (lo.inf || hi.inf || open) return {};
    if (lo == hi) return Int(lo.v + off, w);
    mpz_class l = lo.v + off, h = hi.v + off, ql, qh;
    mpz_fdiv_q_2exp(ql.get_mpz_t(), l.get_mpz_t(), w);
    mpz_fdiv_q_2exp(qh.get_mpz_t(), h.get_mpz_t(), w);
    if (ql != qh) return {};
    Val r;
    r.k = Val::kArg;
    r.arg = i;
    r.off = off - (ql << w);
    return r;
  }
  Val ArgVal(int i) const {
    if (cell_.pos[i] < 0) {
      Val r;
      r.k = Val::kNan;
      return r;
    }
    if (!kind_[i].flt) return CanonArg(i, 0, f_.getArg(i)->getType()->getIntegerBitWidth());
    Bound lo, hi;
    bool open;
    Range(i, lo, hi, open);
    if (!open && lo == hi) return Num(lo);
    Val r;
    r.k = Val::kArg;
    r.arg = i;
    return r;
  }
  Val Get(Value* v) {
    auto it = vals_.find(v);
    if (it != vals_.end()) return it->second;
    if (auto* c = dyn_cast<ConstantInt>(v)) return Int(FromApInt(c->getValue(), false), c->getType()->getIntegerBitWidth());
    if (v->getType()->isPointerTy() && isa<Constant>(v)) {
      Val r;
      r.k = Val::kPtr;
      r.ptr = cast<Constant>(v);
      return r;
    }
    if (auto* c = dyn_cast<ConstantFP>(v)) {
      const APFloat& a = c->getValueAPF();
      if (a.isNaN()) {
        Val r;
        r.k = Val::kNan;
        return r;
      }
      Bound b;
      if (a.isInfinity()) {
        b.inf = a.isNegative() ? -1 : 1;
        return Num(b);
      }
      APSInt i(20000, false);
      bool exact = false;
      if (a.isInteger() && ilogb(a) < 16000 && a.convertToInteger(i, APFloat::rmTowardZero, &exact) == APFloat::opOK && exact) {
        b.v = FromApInt(i, true);
        return Num(b);
      }
    }
    return {};
  }
  // Sign of (x - y) for two mathematical values; nullopt: not decided.
  struct Mv {
    int arg = -1;
    mpz_class off;
    Bound lo, hi;
    bool open = false;
  };
  std::optional<Mv> Math(const Val& v, bool sgn, unsigned w) const {
    Mv m;
    if (v.k == Val::kInt) {
      m.lo.v = sgn ? Signed(v.v, w) : v.v;
      m.hi = m.lo;
      return m;
    }
    if (v.k == Val::kNum) {
      m.lo = m.hi = v.b;
      return m;
    }
    if (v.k == Val::kArg) {
      m.arg = v.arg;
      m.off = v.off;
      Range(v.arg, m.lo, m.hi, m.open);
      if (w) {  // integer
        m.lo.v += m.off;
        m.hi.v += m.off;
        if (sgn) {
          const mpz_class half = Pow2(w - 1);
          if (m.lo.v >= half) {
            m.off -= Pow2(w), m.lo.v -= Pow2(w), m.hi.v -= Pow2(w);
          } else if (m.hi.v >= half) {
            return std::nullopt;
          }
        }
      }
      return m;
    }
    return std::nullopt;
  }
  std::optional<int> Cmp(const std::optional<Mv>& x, const std::optional<Mv>& y) const {
    if (!x || !y) return std::nullopt;
    if (x->arg >= 0 && x->arg == y->arg) return sgn(mpz_class(x->off - y->off));
    if (x->arg >= 0 && y->arg >= 0 && x->off == y->off && cell_.rel != 2) return x->arg == 0 ? cell_.rel : -cell_.rel;
    if (x->hi < y->lo || (x->hi == y->lo && (x->open || y->open))) return -1;
    if (y->hi < x->lo || (y->hi == x->lo && (x->open || y->open))) return 1;
    if (x->lo == x->hi && y->lo == y->hi && x->lo == y->lo && !x->open && !y->open) return 0;
    return std::nullopt;
  }
  Val ICmp(CmpInst::Predicate p, const Val& x, const Val& y, unsigned w) const {
    const bool sg = CmpInst::isSigned(p);
    auto c = Cmp(Math(x, sg, w), Math(y, sg, w));
    if (!c && CmpInst::isEquality(p)) c = Cmp(Math(x, true, w), Math(y, true, w));
    if (!c) return {};
    switch (p) {
      case CmpInst::ICMP_EQ: return Bool(*c == 0);
      case CmpInst::ICMP_NE: return Bool(*c != 0);
      case CmpInst::ICMP_ULT:
      case CmpInst::ICMP_SLT: return Bool(*c < 0);
      case CmpInst::ICMP_ULE:
      case CmpInst::ICMP_SLE: return Bool(*c <= 0);
      case CmpInst::ICMP_UGT:
      case CmpInst::ICMP_SGT: return Bool(*c > 0);
      case CmpInst::ICMP_UGE:
      case CmpInst::ICMP_SGE: return Bool(*c >= 0);
      default: return {};
    }
  }
  Val ToFloat(const Val& x, bool sg, unsigned w, const Type* to) const {
    auto m = Math(x, sg, w);
    const unsigned prec = Precision(to);
    if (!m || !prec) return {};
    if (m->lo == m->hi) {
      Bound b;
      b.v = Round(m->lo.v, prec);
      return Num(b);
    }
    if (m->arg >= 0 && m->off == 0 && abs(m->lo.v) <= Pow2(prec) && abs(m->hi.v) <= Pow2(prec)) {
      Val r;
      r.k = Val::kArg;
      r.arg = m->arg;
      return r;
    }
    return {};
  }
  Val Step(Instruction& in) {
    const unsigned w = in.getType()->isIntegerTy() ? in.getType()->getIntegerBitWidth() : 0;
    auto width = [](Value* v) { return v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 0u; };
    if (auto* c = dyn_cast<ICmpInst>(&in)) {
      if (!width(c->getOperand(0))) return {};
      return ICmp(c->getPredicate(), Get(c->getOperand(0)), Get(c->getOperand(1)), width(c->getOperand(0)));
    }
    if (auto* c = dyn_cast<FCmpInst>(&in)) {
      const auto p = c->getPredicate();
      if (p == CmpInst::FCMP_TRUE) return Bool(true);
      if (p == CmpInst::FCMP_FALSE) return Bool(false);
      Val x = Get(c->getOperand(0)), y = Get(c->getOperand(1));
      if (x.k == Val::kNan || y.k == Val::kNan) return Bool(CmpInst::isUnordered(p));
      if (x.k == Val::kUnknown || y.k == Val::kUnknown) return {};
      if (p == CmpInst::FCMP_ORD) return Bool(true);
      if (p == CmpInst::FCMP_UNO) return Bool(false);
      auto s = Cmp(Math(x, true, 0), Math(y, true, 0));
      if (!s) return {};
      bool r = false;
      switch (p) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = *s == 0; break;
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = *s != 0; break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = *s < 0; break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = *s <= 0; break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = *s > 0; break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = *s >= 0; break;
        default: return {};
      }
      return Bool(r);
    }
    if (auto* s = dyn_cast<SelectInst>(&in)) {
      Val c = Get(s->getCondition());
      if (c.k == Val::kInt) return Get(c.v != 0 ? s->getTrueValue() : s->getFalseValue());
      Val x = Get(s->getTrueValue()), y = Get(s->getFalseValue());
      if (x.k == Val::kInt && y.k == Val::kInt && x.v == y.v) return x;
      return {};
    }
    if (isa<FreezeInst>(&in)) return Get(in.getOperand(0));
    if (auto* c = dyn_cast<CastInst>(&in)) {
      Val x = Get(c->getOperand(0));
      const unsigned sw = width(c->getOperand(0));
      switch (c->getOpcode()) {
        case Instruction::ZExt:
        case Instruction::SExt:
        case Instruction::Trunc: {
          auto m = Math(x, c->getOpcode() == Instruction::SExt, sw);
          if (!m) return {};
          return m->arg >= 0 ? CanonArg(m->arg, m->off, w) : Int(m->lo.v, w);
        }
        case Instruction::SIToFP: return ToFloat(x, true, sw, c->getType());
        case Instruction::UIToFP: return ToFloat(x, false, sw, c->getType());
        case Instruction::FPExt: return x;
        case Instruction::FPTrunc: {
          if (x.k == Val::kNan) return x;
          const unsigned prec = Precision(c->getType());
          if (x.k == Val::kNum && prec) {
            if (x.b.inf || mpz_sizeinbase(x.b.v.get_mpz_t(), 2) > 127) return x.b.inf ? x : Val{};
            Bound b;
            b.v = Round(x.b.v, prec);
            return Num(b);
          }
          if (x.k == Val::kArg && !kind_[x.arg].flt) {
            auto m = Math(x, true, 0);
            if (m && abs(m->lo.v) <= Pow2(prec) && abs(m->hi.v) <= Pow2(prec)) return x;
          }
          if (x.k == Val::kArg && kind_[x.arg].flt && Precision(f_.getArg(x.arg)->getType()) <= prec) return x;
          return {};
        }
        case Instruction::FPToSI:
        case Instruction::FPToUI: {
          const bool sg = c->getOpcode() == Instruction::FPToSI;
          const mpz_class lo = sg ? mpz_class(-Pow2(w - 1)) : mpz_class(0), hi = (sg ? Pow2(w - 1) : Pow2(w)) - 1;
          auto fits = [&](const mpz_class& v) { return v >= lo && v <= hi; };
          if (x.k == Val::kNum && !x.b.inf && fits(x.b.v)) return Int(x.b.v, w);
          if (x.k == Val::kArg) {
            auto m = Math(x, true, 0);
            if (m && m->open && !m->lo.inf && !m->hi.inf && m->hi.v - m->lo.v == 1) {  // between two neighbouring integers
              const mpz_class t = m->lo.v >= 0 ? m->lo.v : m->hi.v;
              if (fits(t)) return Int(t, w);
            }
            if (m && !m->open && !kind_[x.arg].flt && fits(m->lo.v) && fits(m->hi.v)) return CanonArg(x.arg, 0, w);
          }
          return {};
        }
        default: return {};
      }
    }
    if (auto* b = dyn_cast<BinaryOperator>(&in)) {
      Val x = Get(b->getOperand(0)), y = Get(b->getOperand(1));
      if (!w) return {};
      const bool ci = x.k == Val::kInt, cj = y.k == Val::kInt;
      if (ci && cj) {
        const mpz_class &p = x.v, &q = y.v;
        switch (b->getOpcode()) {
          case Instruction::Add: return Int(p + q, w);
          case Instruction::Sub: return Int(p - q, w);
          case Instruction::Mul: return Int(p * q, w);
          case Instruction::And: return Int(p & q, w);
          case Instruction::Or: return Int(p | q, w);
          case Instruction::Xor: return Int(p ^ q, w);
          case Instruction::Shl: return q < w ? Int(p << q.get_ui(), w) : Val{};
          case Instruction::LShr: return q < w ? Int(p >> q.get_ui(), w) : Val{};
          case Instruction::AShr: {
            if (q >= w) return {};
            mpz_class s = Signed(p, w), r;
            mpz_fdiv_q_2exp(r.get_mpz_t(), s.get_mpz_t(), q.get_ui());
            return Int(r, w);
          }
          default: return {};
        }
      }
      if (b->getOpcode() == Instruction::And && ((ci && x.v == 0) || (cj && y.v == 0))) return Int(0, w);
      if (b->getOpcode() == Instruction::Or && w == 1 && ((ci && x.v == 1) || (cj && y.v == 1))) return Bool(true);
      if (b->getOpcode() == Instruction::Add && x.k == Val::kArg && cj) return CanonArg(x.arg, x.off + y.v, w);
      if (b->getOpcode() == Instruction::Add && y.k == Val::kArg && ci) return CanonArg(y.arg, y.off + x.v, w);
      if (b->getOpcode() == Instruction::Sub && x.k == Val::kArg && cj) return CanonArg(x.arg, x.off - y.v, w);
      if (b->getOpcode() == Instruction::Sub && x.k == Val::kArg && y.k == Val::kArg && x.arg == y.arg) return Int(x.off - y.off, w);
      if (b->getOpcode() == Instruction::Xor && x.k == Val::kArg && cj && y.v == Pow2(w - 1)) return CanonArg(x.arg, x.off + y.v, w);
      if (b->getOpcode() == Instruction::AShr && x.k == Val::kArg && cj && y.v == w - 1) {  // the sign
        auto m = Math(x, true, w);
        if (m) return Int(m->hi.v < 0 ? -1 : 0, w);
      }
      if (b->getOpcode() == Instruction::LShr && x.k == Val::kArg && cj && y.v == w - 1) {
        auto m = Math(x, true, w);
        if (m) return Int(m->hi.v < 0 ? 1 : 0, w);
      }
      return {};
    }
    if (auto* ld = dyn_cast<LoadInst>(&in)) {
      if (Val x = Get(ld->getPointerOperand()); x.k == Val::kPtr) {
        if (Constant* r = ConstantFoldLoadFromConstPtr(x.ptr, ld->getType(), f_.getParent()->getDataLayout())) return Get(r);
      }
      return {};
    }
    if (auto* ca = dyn_cast<IntrinsicInst>(&in)) {
      auto arg = [&](unsigned i) { return Get(ca->getArgOperand(i)); };
      switch (ca->getIntrinsicID()) {
        case Intrinsic::is_fpclass: {
          const uint64_t mask = cast<ConstantInt>(ca->getArgOperand(1))->getZExtValue();
          Val x = arg(0);
          if (x.k == Val::kNan) return (mask & 3) == 3 ? Bool(true) : ((mask & 3) == 0 ? Bool(false) : Val{});
          if (x.k == Val::kUnknown) return {};
          if ((mask & ~3ULL) == 0) return Bool(false);
          if (x.k == Val::kNum && x.b.inf && (mask & 0x204) == 0x204) return Bool(true);
          if ((mask & ~3ULL) == 0x204) return Bool(x.k == Val::kNum && x.b.inf);
          return {};
        }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
          const auto id = ca->getIntrinsicID();
          const bool sg = id == Intrinsic::smin || id == Intrinsic::smax, mn = id == Intrinsic::smin || id == Intrinsic::umin;
          Val x = arg(0), y = arg(1);
          auto c = Cmp(Math(x, sg, w), Math(y, sg, w));
          if (!c) return {};
          return (*c <= 0) == mn ? x : y;
        }
        case Intrinsic::expect: return arg(0);
        default: return {};
      }
    }
    return {};
  }

  Function& f_;
  const std::vector<Bound>& cuts_;
  Kind kind_[2];
  Cell cell_{};
  std::map<const Value*, Val> vals_;
};

void CutsOf(Function& f, std::set<mpz_class>& cuts) {
  for (Instruction& in : instructions(f))
    for (Use& u : in.operands()) {
      if (auto* c = dyn_cast<ConstantInt>(u.get())) {
        if (c->getBitWidth() == 1) continue;
        for (bool s : {false, true}) {
          const mpz_class v = FromApInt(c->getValue(), s);
          for (int d : {-1, 0, 1}) cuts.insert(v + d);
        }
      } else if (auto* c = dyn_cast<ConstantFP>(u.get())) {
        if (!c->getValueAPF().isFinite()) continue;
        APSInt i(20000, false);
        bool exact = false;
        APFloat a = c->getValueAPF();
        if (ilogb(a) < 16000) {
          a.convertToInteger(i, APFloat::rmTowardNegative, &exact);
          const mpz_class v = FromApInt(i, true);
          for (int d : {-1, 0, 1, 2}) cuts.insert(v + d);
        }
      }
    }
}

}  // namespace

int Cells(const std::vector<std::string>& args) {
  LLVMContext ctx;
  auto m = Load(ctx, args[0]);
  ForceInline(*m, [](const Function& f) { return f.getName().starts_with("cmp__"); });
  StripDebugInfo(*m);
  RunPasses(*m, "always-inline,globaldce,function(sroa,early-cse,simplifycfg<no-switch-to-lookup>,dce)");
  Report rep;
  int64_t fns = 0, cells = 0, undec = 0, skipped = 0;
  json::Array names;
  for (Function& f : *m) {
    if (f.isDeclaration() || !f.getName().starts_with("cmp__")) continue;
    SmallVector<StringRef, 8> parts;
    f.getName().split(parts, "__");
    const std::string rule = parts[1].str(), entry = parts[4].str();
    const Kind ka = *ParseKind(parts[2]), kb = *ParseKind(parts[3]);
    const Kind kinds[2] = {ka, kb};
    {  // the entry point does not take this pair of types
      auto* r = dyn_cast<ReturnInst>(f.getEntryBlock().getTerminator());
      auto* c = r ? dyn_cast<ConstantInt>(r->getReturnValue()) : nullptr;
      if (c && c->getSExtValue() == 99) {
        ++skipped;
        continue;
      }
    }
    if (rule != "total" && ka.flt != kb.flt) continue;  // the language's own mixed comparison rounds
    std::set<mpz_class> ints;
    CutsOf(f, ints);
    for (int v : {-2, -1, 0, 1, 2}) ints.insert(v);
    for (unsigned b : {7u, 8u, 15u, 16u, 24u, 31u, 32u, 53u, 63u, 64u})
      for (int d : {-1, 0, 1}) {
        ints.insert(Pow2(b) + d);
        ints.insert(-Pow2(b) + d);
      }
    std::vector<Bound> cuts;
    cuts.push_back({-1, 0});
    for (auto& v : ints) cuts.push_back({0, v});
    cuts.push_back({1, 0});
    Eval ev(f, cuts, ka, kb);
    auto positions = [&](const Kind& k) {
      std::vector<int> out;
      if (k.flt) out.push_back(-1);
      const int n = cuts.size() * 2 - 1;
      const unsigned prec = k.bits == 32 ? 24 : (k.bits == 64 ? 53 : 64);
      const mpz_class lo = k.sgn ? mpz_class(-Pow2(k.bits - 1)) : mpz_class(0), hi = (k.sgn ? Pow2(k.bits - 1) : Pow2(k.bits)) - 1;
      for (int p = 0; p < n; ++p) {
        const Bound& c = cuts[p / 2];
        if (k.flt) {
          if (p % 2 == 0 && !c.inf && Round(c.v, prec) != c.v) continue;  // not a value of the type
          if (p % 2) {
            const Bound& d = cuts[p / 2 + 1];
            // a gap between neighbouring integers beyond the type's precision holds no value of the type
            if (!c.inf && !d.inf && d.v - c.v == 1 && abs(c.v) >= Pow2(prec - 1) && abs(d.v) >= Pow2(prec - 1)) continue;
          }
          out.push_back(p);
          continue;
        }
        if (p % 2 == 0) {
          if (!c.inf && c.v >= lo && c.v <= hi) out.push_back(p);
        } else {
          const Bound& d = cuts[p / 2 + 1];
          if (c.inf || d.inf) continue;
          if (d.v - c.v > 1 && c.v + 1 >= lo && d.v - 1 <= hi) out.push_back(p);
        }
      }
      return out;
    };
    ++fns;
    int64_t here = 0, open = 0;
    std::string why, first_undecided;
    const bool truth = rule == "total" && !ka.flt && !kb.flt && (ka.bits == 1) != (kb.bits == 1);
    for (int pa : positions(ka)) {
      for (int pb : positions(kb)) {
        std::vector<int> rels;
        if (pa < 0 || pb < 0) {
          if (rule != "total") continue;
          rels = {2};
        } else if (pa != pb) {
          rels = {pa < pb ? -1 : 1};
        } else if (pa % 2 == 0) {
          rels = {0};
        } else {
          rels = {-1, 0, 1};
          const Bound &c = cuts[pa / 2], &d = cuts[pa / 2 + 1];
          if ((!ka.flt || !kb.flt) && !c.inf && !d.inf) {
            if (d.v - c.v == 1) continue;  // no integer here (not reached: integers have no such gap)
            if (d.v - c.v == 2 && !ka.flt && !kb.flt) rels = {0};
          }
        }
        for (int rel : rels) {
          Cell c{{pa, pb}, rel};
          int want = rel;
          if (rel == 2) want = pa < 0 && pb < 0 ? 0 : (pa < 0 ? 1 : -1);
          if (truth) {
            auto t = [&](int p) { return !(p % 2 == 0 && cuts[p / 2] == Bound{0, 0}); };
            want = int(t(pa)) - int(t(pb));
          }
          if (rule == "less") want = want < 0 ? 1 : 0;
          ++here;
          auto got = ev.Run(c, &why);
          if (!got) {
            ++open;
            if (first_undecided.empty()) first_undecided = why + " (" + ev.Witness() + ")";
            continue;
          }
          if (*got != want) {
            json::Object o;
            o["rule"] = "order";
            o["entry"] = entry;
            o["function"] = "mbo::types::" + entry + " (" + parts[2].str() + ", " + parts[3].str() + ")";
            o["where"] = "mbo/types/compare.h";
            o["what"] = "for " + ev.Witness() + " the result is " + got->get_str() + ", the order of the values is " + std::to_string(want);
            rep.Viol(std::move(o));
            goto next;
          }
        }
      }
    }
  next:
    cells += here;
    undec += open;
    if (open) {
      json::Object o;
      o["function"] = f.getName().str();
      o["cells"] = open;
      o["what"] = first_undecided;
      rep.Undec(std::move(o));
    }
  }
  rep.stats["functions"] = fns;
  rep.stats["cells"] = cells;
  rep.stats["cells_undecided"] = undec;
  rep.stats["pairs_without_the_entry"] = skipped;
  rep.Print();
  return 0;
}

}  // namespace vp
