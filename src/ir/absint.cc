#include "absint.h"

#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/CFG.h"

namespace vp {

static mpz_class Pow2(unsigned w) { return mpz_class(1) << w; }
static mpz_class FromAP(const APInt& a) {
  SmallString<64> s;
  a.toStringUnsigned(s, 10);
  return mpz_class(std::string(s));
}
static bool IsInt(const Q& q) { return q.get_den() == 1; }

std::string NodeTab::Str(int id, int depth) const {
  const Node& n = *nodes[id];
  std::string s;
  static const char* names[] = {"const", "num", "byte", "fold", "opaque", "stale", "inst", "extract", "concat", "kernel", "kout", "range", "relfold", "relbyte", "relnum", "arg"};
  s = names[n.op];
  if (!n.k.empty()) s += ":" + n.k;
  if (n.sub) s += "#" + std::to_string(n.sub);
  if (n.op == NNum || n.op == NByte || n.op == NFold) s += "[" + n.lin.Str() + "]";
  if (depth > 0 && (!n.kids.empty() || !n.pieces.empty())) {
    s += "(";
    int c = 0;
    for (int k : n.kids) {
      if (c++) s += ",";
      if (c > 8) { s += "..."; break; }
      s += Str(k, depth - 1);
    }
    for (auto& p : n.pieces) {
      if (c++) s += ",";
      s += "[" + p.lo.Str() + "," + p.hi.Str() + ")";
      s += p.k == Piece::kStale ? "stale" : p.k == Piece::kMsg ? "M+" + p.off.Str() : p.k == Piece::kFill ? "fill " + Str(p.node, 0) : Str(p.node, depth - 1);
      if (c > 12) { s += "..."; break; }
    }
    s += ")";
  }
  return s;
}

std::string Interp::Where(const Instruction& i) const {
  const DILocation* d = i.getDebugLoc().get();
  // the innermost location inside the library's own sources
  for (; d; d = d->getInlinedAt()) {
    std::string f = ShortPath(d->getFilename());
    if (f.rfind("mbo/", 0) == 0 && d->getLine()) return f + ":" + std::to_string(d->getLine());
  }
  return Loc(i);
}

void Interp::Fail(St& st, const Instruction* at, const std::string& rule, const std::string& what) {
  if (!recording) return;
  Obligation o{rule, at ? Where(*at) : "?", what, entry, st.exact};
  std::string key = rule + "|" + o.where;
  auto [it, fresh] = failed.emplace(key, o);
  if (!fresh && st.exact && !it->second.exact) it->second = o;
  if (getenv("VP_TRACE")) {
    errs() << "FAIL " << rule << " " << o.where << " " << what << " exact=" << st.exact << "\n  " << st.p.Str() << "\n";
  }
}

bool Interp::Decide(St& st, const Lin& e) {
  if (st.p.bottom) return true;
  if (st.p.EntailsGe(e)) return true;
  Lin neg = Lin(-1) - e;
  if (st.p.EntailsGe(neg)) return false;
  ++forks;
  St other = st;
  other.p.AddGe(neg);
  pending_->push_back(std::move(other));
  st.p.AddGe(e);
  return true;
}

bool Interp::DecideEq(St& st, const Lin& e) {
  if (st.p.bottom) return true;
  if (st.p.EntailsEq(e)) return true;
  if (st.p.EntailsNe(e)) return false;
  if (!Decide(st, e)) return false;       // e < 0
  if (!Decide(st, e.Times(-1))) return false;
  return true;
}

int Interp::ConstNode(const mpz_class& v, unsigned w) {
  Node n;
  n.op = NConst;
  n.width = w;
  n.k = v.get_str();
  return nodes.Get(n);
}

Val Interp::NodeVal(int n) {
  Val v;
  const Node& x = nodes[n];
  v.w = x.width;
  if (x.op == NConst) {
    v.k = Val::kNum;
    v.l = Lin::Const(Q(mpz_class(x.k)));
    return v;
  }
  v.k = Val::kNode;
  v.node = n;
  return v;
}

int Interp::AsNode(St& st, const Val& v) {
  if (v.k == Val::kNode) return v.node;
  if (v.k == Val::kNum) {
    Lin l = st.p.Reduce(v.l);
    if (l.IsConst()) return ConstNode(l.c.get_num(), v.w);
    Node n;
    n.op = NNum;
    n.width = v.w;
    n.lin = l;
    if (v.node >= 0) n.kids = {v.node};
    return nodes.Get(n);
  }
  Node n;
  n.op = v.k == Val::kUndef ? NStale : NOpaque;
  n.width = v.w;
  n.sub = ++opaque_;
  if (v.k == Val::kPtr) n.k = "ptr";
  if (v.k == Val::kUndef) n.k = "undef";
  return nodes.Get(n);
}

// The bytes of a word, lowest first; false when the word has no byte structure worth exposing.
// The bytes [sub, sub + width/8) of a word.
int Interp::Extract(int id, unsigned sub, unsigned width) {
  const Node n = nodes[id];
  if (sub == 0 && width == n.width) return id;
  if (n.op == NConst) return ConstNode((mpz_class(n.k) >> (8 * sub)) & (Pow2(width) - 1), width);
  if (n.op == NConcat && n.kids.size() * 8 == n.width) return FromBytes(std::vector<int>(n.kids.begin() + sub, n.kids.begin() + sub + width / 8));
  if (n.op == NExtract) return Extract(n.kids[0], n.sub + sub, width);
  Node e;
  e.op = NExtract;
  e.sub = sub;
  e.width = width;
  e.kids = {id};
  return nodes.Get(e);
}

bool Interp::Bytes(int id, std::vector<int>* out) {
  const Node n = nodes[id];
  if (n.width % 8 || n.width == 0) return false;
  unsigned w = n.width / 8;
  out->clear();
  if (n.op == NConst) {
    mpz_class v(n.k);
    for (unsigned i = 0; i < w; ++i) out->push_back(ConstNode((v >> (8 * i)) & 255, 8));
    return true;
  }
  if (w == 1) { out->push_back(id); return true; }
  if (n.op == NConcat && n.kids.size() == w) { *out = n.kids; return true; }
  // A constant exclusive-or moves from the word to its bytes.
  int base = id;
  mpz_class c = 0;
  if (xor_limit > 12 && n.op == NInst && n.sub == Instruction::Xor && n.kids.size() > 1) {
    std::vector<int> rest;
    for (int k : n.kids)
      if (nodes[k].op == NConst) c ^= mpz_class(nodes[k].k);
      else rest.push_back(k);
    if (c != 0) base = rest.size() == 1 ? rest[0] : MkInst(Instruction::Xor, n.width, rest);
  }
  for (unsigned i = 0; i < w; ++i) {
    int b = Extract(base, i, 8);
    mpz_class x = (c >> (8 * i)) & 255;
    out->push_back(x == 0 ? b : MkInst(Instruction::Xor, 8, {b, ConstNode(x, 8)}));
  }
  return true;
}

int Interp::FromBytes(const std::vector<int>& b) {
  if (b.size() == 1) return b[0];
  bool all = true;
  mpz_class v = 0;
  for (size_t i = 0; i < b.size(); ++i) {
    if (nodes[b[i]].op == NConst) v |= mpz_class(nodes[b[i]].k) << (8 * i);
    else all = false;
  }
  if (all) return ConstNode(v, 8 * b.size());
  int base = -1;
  bool whole = true;
  for (size_t k = 0; k < b.size() && whole; ++k) {
    const Node& e = nodes[b[k]];
    if (e.op != NExtract || e.sub != (int)k || e.width != 8 || (base >= 0 && e.kids[0] != base)) whole = false;
    else base = e.kids[0];
  }
  if (whole && nodes[base].width == 8 * b.size()) return base;
  // A part of a wider exclusive-or is the exclusive-or of the parts.
  {
    int from = -1;
    unsigned sub = 0;
    bool part = b.size() > 1;
    for (size_t k = 0; k < b.size() && part; ++k) {
      const Node& e = nodes[b[k]];
      if (e.op != NExtract || e.width != 8 || (from >= 0 && (e.kids[0] != from || e.sub != (int)(sub + k)))) part = false;
      else if (from < 0) from = e.kids[0], sub = e.sub;
    }
    if (part && nodes[from].op == NInst && nodes[from].sub == Instruction::Xor && nodes[from].width > b.size() * 8 && b.size() >= 4) {
      std::vector<int> kids;
      const Node n = nodes[from];
      for (int k : n.kids) {
        std::vector<int> x;
        if (!Bytes(k, &x)) { kids.clear(); break; }
        kids.push_back(FromBytes(std::vector<int>(x.begin() + sub, x.begin() + sub + b.size())));
      }
      if (kids.size() > 1) return MkInst(Instruction::Xor, 8 * b.size(), kids);
    }
  }
  // The bytes of one word, some of them changed by a constant.
  mpz_class x = 0;
  base = -1;
  whole = true;
  for (size_t k = 0; k < b.size() && whole; ++k) {
    int id = b[k];
    const Node n = nodes[id];
    if (n.op == NInst && n.sub == Instruction::Xor && n.kids.size() == 2) {
      int e = nodes[n.kids[0]].op == NExtract ? 0 : 1;
      if (nodes[n.kids[1 - e]].op == NConst) x |= mpz_class(nodes[n.kids[1 - e]].k) << (8 * k), id = n.kids[e];
    }
    const Node& e = nodes[id];
    if (e.op != NExtract || e.sub != (int)k || e.width != 8 || (base >= 0 && e.kids[0] != base)) whole = false;
    else base = e.kids[0];
  }
  if (xor_limit > 12 && whole && x != 0 && nodes[base].width == 8 * b.size()) return MkInst(Instruction::Xor, 8 * b.size(), {base, ConstNode(x, 8 * b.size())});
  Node c;
  c.op = NConcat;
  c.width = 8 * b.size();
  c.kids = b;
  return nodes.Get(c);
}

int Interp::MkInst(int op, unsigned w, std::vector<int> kids) {
  auto is_const = [&](int k) { return nodes[k].op == NConst; };
  auto val = [&](int k) { return mpz_class(nodes[k].k); };
  mpz_class M = Pow2(w);
  auto wrap = [&](mpz_class v) {
    mpz_fdiv_r(v.get_mpz_t(), v.get_mpz_t(), M.get_mpz_t());
    return ConstNode(v, w);
  };
  auto zero = [&](int k) { return is_const(k) && nodes[k].k == "0"; };
  if (op < 1000 && kids.size() == 2 && is_const(kids[0]) && is_const(kids[1])) {
    mpz_class a = val(kids[0]), b = val(kids[1]);
    switch (op) {
      case Instruction::Add: return wrap(a + b);
      case Instruction::Sub: return wrap(a - b);
      case Instruction::Mul: return wrap(a * b);
      case Instruction::And: return wrap(a & b);
      case Instruction::Or: return wrap(a | b);
      case Instruction::Xor: return wrap(a ^ b);
      case Instruction::Shl: if (b < w) return wrap(a << b.get_ui()); break;
      case Instruction::LShr: if (b < w) return wrap(a >> b.get_ui()); break;
      case Instruction::UDiv: if (b != 0) return wrap(a / b); break;
      case Instruction::URem: if (b != 0) return wrap(a % b); break;
      default: break;
    }
  }
  if ((op == 1000 + (int)Intrinsic::fshl || op == 1000 + (int)Intrinsic::fshr) && is_const(kids[0]) && is_const(kids[1]) && is_const(kids[2])) {
    unsigned long k = mpz_class(val(kids[2]) % w).get_ui();
    mpz_class x = (val(kids[0]) << w) | val(kids[1]);
    return op == 1000 + (int)Intrinsic::fshl ? wrap((x << k) >> w) : wrap(x >> k);
  }
  if (op == Instruction::Or || op == Instruction::Xor || op == Instruction::Add) {
    if (zero(kids[0])) return kids[1];
    if (zero(kids[1])) return kids[0];
  }
  if ((op == Instruction::Shl || op == Instruction::LShr || op == Instruction::Sub) && zero(kids[1])) return kids[0];
  if (op == 1000 + (int)Intrinsic::fshl && zero(kids[2])) return kids[0];
  std::vector<int> a, b, r;
  const int z = ConstNode(0, 8);
  // Words other than counters are split into bytes where an operation only moves bytes.
  auto lanes_of = [&](int k, std::vector<int>* o) { return !nodes[k].numeric && Bytes(k, o); };
  auto byte_mask = [&](int k) {
    std::vector<int> m;
    if (!Bytes(k, &m)) return false;
    for (int x : m)
      if (nodes[x].k != "0" && nodes[x].k != "255" && nodes[kids[0]].op != NConcat) return false;
    return true;
  };
  if (w % 8 == 0) {
    unsigned n = w / 8;
    switch (op) {
      case Instruction::ZExt:
        if (lanes_of(kids[0], &a)) {
          a.resize(n, z);
          return FromBytes(a);
        }
        break;
      case Instruction::Trunc:
        if (lanes_of(kids[0], &a)) {
          a.resize(n);
          return FromBytes(a);
        }
        break;
      case Instruction::Shl:
      case Instruction::LShr:
        if (is_const(kids[1]) && val(kids[1]) < w && mpz_class(val(kids[1]) % 8) == 0 && lanes_of(kids[0], &a)) {
          long s = val(kids[1]).get_ui() / 8;
          for (long i = 0; i < (long)n; ++i) {
            long j = op == Instruction::Shl ? i - s : i + s;
            r.push_back(j < 0 || j >= (long)n ? z : a[j]);
          }
          return FromBytes(r);
        }
        break;
      case Instruction::Or:
      case Instruction::Xor:
      case Instruction::Add: {
        bool ca = nodes[kids[0]].op == NConcat || is_const(kids[0]), cb = nodes[kids[1]].op == NConcat || is_const(kids[1]);
        if (ca && cb && Bytes(kids[0], &a) && Bytes(kids[1], &b)) {
          for (unsigned i = 0; i < n; ++i) {
            if (zero(a[i])) r.push_back(b[i]);
            else if (zero(b[i])) r.push_back(a[i]);
            else if (op == Instruction::Or && a[i] == b[i]) r.push_back(a[i]);
            else break;
          }
          if (r.size() == n) return FromBytes(r);
          r.clear();
        }
        break;
      }
      case Instruction::And:
        if (is_const(kids[0])) std::swap(kids[0], kids[1]);
        if (is_const(kids[1]) && byte_mask(kids[1]) && lanes_of(kids[0], &a) && Bytes(kids[1], &b)) {
          for (unsigned i = 0; i < n; ++i) {
            if (zero(b[i])) r.push_back(z);
            else if (nodes[b[i]].k == "255") r.push_back(a[i]);
            else if (is_const(a[i])) r.push_back(ConstNode(val(a[i]) & val(b[i]), 8));
            else break;
          }
          if (r.size() == n) return FromBytes(r);
        }
        break;
      default:
        if (op == 1000 + (int)Intrinsic::bswap && lanes_of(kids[0], &a)) {
          std::reverse(a.begin(), a.end());
          return FromBytes(a);
        }
        break;
    }
  }
  if (op == Instruction::ZExt && is_const(kids[0])) return ConstNode(val(kids[0]), w);
  if (op == Instruction::Trunc && is_const(kids[0])) return wrap(val(kids[0]));
  Node n;
  n.op = NInst;
  n.sub = op;
  n.width = w;
  n.kids = kids;
  bool comm = op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor;
  if (comm) {
    // One flat operand list, constants merged.
    std::vector<int> flat;
    for (int k : kids) {
      const Node& x = nodes[k];
      if (x.op == NInst && x.sub == op && x.width == w) {
        // A list too long to merge keeps only its other operands; its constant belongs to the outer list.
        std::vector<int> others, consts;
        for (int y : x.kids) (is_const(y) ? consts : others).push_back(y);
        flat.insert(flat.end(), consts.begin(), consts.end());
        if (others.size() <= (op == Instruction::Xor ? xor_limit : 12u)) flat.insert(flat.end(), others.begin(), others.end());
        else flat.push_back(consts.empty() ? k : MkInst(op, w, others));
        continue;
      }
      flat.push_back(k);
    }
    if (op == Instruction::Xor && w % 8 == 0 && w > 8) {
      // Operands given byte by byte are combined byte by byte.
      std::vector<int> lanes, keep;
      int merged = 0;
      for (int k : flat) {
        std::vector<int> x;
        if ((nodes[k].op == NConcat || is_const(k)) && Bytes(k, &x)) {
          bool free = true;
          for (size_t i = 0; i < lanes.size(); ++i) free &= zero(lanes[i]) || zero(x[i]) || (is_const(lanes[i]) && is_const(x[i]));
          if (!free) { keep.push_back(k); continue; }
          ++merged;
          if (lanes.empty()) lanes = x;
          else
            for (size_t i = 0; i < x.size(); ++i) lanes[i] = MkInst(Instruction::Xor, 8, {lanes[i], x[i]});
        } else {
          keep.push_back(k);
        }
      }
      if (merged > 1) {
        int m = FromBytes(lanes);
        if (nodes[m].op == NInst && nodes[m].sub == op && nodes[m].width == w) {
          for (int k : nodes[m].kids) keep.push_back(k);
          m = ConstNode(0, w);
        }
        if (keep.empty()) return m;
        if (!zero(m)) keep.push_back(m);
        if (keep.size() == 1) return keep[0];
        flat = keep;
      }
    }
    mpz_class c = 0;
    if (op == Instruction::Mul) c = 1;
    if (op == Instruction::And) c = M - 1;
    const mpz_class unit = c;
    std::vector<int> rest;
    for (int k : flat) {
      if (!is_const(k)) { rest.push_back(k); continue; }
      mpz_class v = val(k);
      switch (op) {
        case Instruction::Add: c += v; break;
        case Instruction::Mul: c *= v; break;
        case Instruction::And: c &= v; break;
        case Instruction::Or: c |= v; break;
        default: c ^= v; break;
      }
    }
    mpz_fdiv_r(c.get_mpz_t(), c.get_mpz_t(), M.get_mpz_t());
    if ((op == Instruction::Mul || op == Instruction::And) && c == 0) return ConstNode(0, w);
    if (c != unit) rest.push_back(ConstNode(c, w));
    if (op == Instruction::Xor) {
      std::sort(rest.begin(), rest.end());
      for (size_t i = 0; i + 1 < rest.size();)
        if (rest[i] == rest[i + 1]) rest.erase(rest.begin() + i, rest.begin() + i + 2);
        else ++i;
    }
    if (rest.empty()) return ConstNode(unit, w);
    if (rest.size() == 1) return rest[0];
    std::sort(rest.begin(), rest.end());
    n.kids = rest;
  }
  return nodes.Get(n);
}

// The value of a numeric expression as a linear form (introducing quotients and remainders as needed).
Lin Interp::ForceNode(St& st, int id) {
  auto it = st.node_dim.find(id);
  if (it != st.node_dim.end()) return Lin::Dim(it->second);
  const Node n = nodes[id];
  if (n.op == NNum) return st.p.Reduce(n.lin);
  if (n.op == NConst) return Lin::Const(Q(mpz_class(n.k)));
  auto save = [&](const Lin& l) {
    int d = NewDim();
    st.p.AddEq(Lin::Dim(d) - l);
    st.node_dim[id] = d;
    return Lin::Dim(d);
  };
  if (n.op == NInst && n.numeric) {
    Lin q, r;
    switch (n.sub) {
      case Instruction::LShr: {
        const Node c = nodes[n.kids[1]];
        if (c.op != NConst || mpz_class(c.k) >= n.width) break;
        DivMod(st, ForceNode(st, n.kids[0]), Pow2(mpz_class(c.k).get_ui()), &q, &r);
        return save(q);
      }
      case Instruction::Trunc:
        DivMod(st, ForceNode(st, n.kids[0]), Pow2(n.width), &q, &r);
        return save(r);
      case Instruction::ZExt:
        return ForceNode(st, n.kids[0]);
      default: break;
    }
  }
  st.exact = false, st.loose = true;  // an operation on lengths that is not modelled
  int d = NewDim();
  st.node_dim[id] = d;
  st.p.AddGe(Lin::Dim(d));
  st.p.AddGe(Lin::Const(Q(Pow2(n.width) - 1)) - Lin::Dim(d));
  return Lin::Dim(d);
}

Val Interp::Force(St& st, const Val& v) {
  if (v.k != Val::kNode || !nodes[v.node].numeric) return v;
  Val r = NumVal(ForceNode(st, v.node), v.w);
  r.node = v.node;
  return r;
}

Lin Interp::AsNum(St& st, const Val& v) {
  if (v.k == Val::kNum) return v.l;
  if (v.k == Val::kPtr) return v.l;
  int n = v.k == Val::kNode ? v.node : AsNode(st, v);
  if (nodes[n].numeric) return ForceNode(st, n);
  auto it = st.node_dim.find(n);
  if (it != st.node_dim.end()) return Lin::Dim(it->second);
  bool free = nodes[n].op == NByte || nodes[n].op == NArg;
  std::set<int> used;
  for (auto& [c, v] : st.assumed) FreeCondition(c, &used);
  if (!free || used.count(n)) st.exact = false;
  int d = NewDim();
  st.node_dim[n] = d;
  st.p.AddGe(Lin::Dim(d));
  st.p.AddGe(Lin::Const(Q(Pow2(v.w) - 1)) - Lin::Dim(d));
  return Lin::Dim(d);
}

int Interp::AddObj(St& st, const std::string& name, const Lin& size, Type* ty, Seg::K fill, bool readonly) {
  Obj o;
  o.name = name;
  o.size = size;
  o.ty = ty;
  o.readonly = readonly;
  Seg s;
  s.lo = 0;
  s.hi = size;
  s.k = fill;
  o.segs.push_back(s);
  st.objs.push_back(std::move(o));
  return st.objs.size() - 1;
}

void Interp::InitSegs(Obj& o, const Constant* c, uint64_t off) {
  uint64_t n = dl_.getTypeAllocSize(c->getType());
  auto push = [&](Seg s, uint64_t a, uint64_t b) {
    if (a == b) return;
    s.lo = Lin((long)a);
    s.hi = Lin((long)b);
    o.segs.push_back(s);
  };
  if (isa<UndefValue>(c)) { push(Seg{}, off, off + n); return; }
  Type* t = c->getType();
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = dl_.getTypeAllocSize(at->getElementType());
    if (at->getElementType()->isIntegerTy(8) && c->isNullValue()) {
      Seg s;
      s.k = Seg::kFill;
      s.v = NumVal(0, 8);
      push(s, off, off + n);
      return;
    }
    for (uint64_t i = 0; i < at->getNumElements(); ++i) InitSegs(o, c->getAggregateElement(i), off + i * es);
    return;
  }
  if (auto* stt = dyn_cast<StructType>(t)) {
    const StructLayout* sl = dl_.getStructLayout(stt);
    uint64_t at = off;
    for (unsigned i = 0; i < stt->getNumElements(); ++i) {
      uint64_t eo = off + sl->getElementOffset(i);
      push(Seg{}, at, eo);
      InitSegs(o, c->getAggregateElement(i), eo);
      at = eo + dl_.getTypeAllocSize(stt->getElementType(i));
    }
    push(Seg{}, at, off + n);
    return;
  }
  Seg s;
  s.k = Seg::kCell;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    s.v = NumVal(Lin::Const(Q(FromAP(ci->getValue()))), ci->getBitWidth());
    uint64_t sz = dl_.getTypeStoreSize(t);
    push(s, off, off + sz);
    push(Seg{}, off + sz, off + n);
    return;
  }
  if (isa<ConstantPointerNull>(c)) {
    s.v = PtrVal(-1, 0);
    push(s, off, off + n);
    return;
  }
  Node nn;
  nn.op = NOpaque;
  nn.sub = ++opaque_;
  nn.width = 8 * n;
  s.v = NodeVal(nodes.Get(nn));
  push(s, off, off + n);
}

int Interp::GlobalObj(St& st, const GlobalVariable* g) {
  for (size_t i = 0; i < st.objs.size(); ++i)
    if (st.objs[i].name == "@" + g->getName().str()) return i;
  int id = AddObj(st, "@" + g->getName().str(), Lin((long)dl_.getTypeAllocSize(g->getValueType())), g->getValueType(), Seg::kStale, g->isConstant());
  if (g->hasInitializer() && g->isConstant()) {
    st.objs[id].segs.clear();
    InitSegs(st.objs[id], g->getInitializer(), 0);
  } else {
    Node n;
    n.op = NOpaque;
    n.sub = ++opaque_;
    n.width = 8;
  }
  return id;
}

Val Interp::EvalConst(St& st, const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return NumVal(Lin::Const(Q(FromAP(ci->getValue()))), ci->getBitWidth());
  if (isa<ConstantPointerNull>(c)) return PtrVal(-1, 0);
  if (auto* g = dyn_cast<GlobalVariable>(c)) return PtrVal(GlobalObj(st, g), 0);
  if (isa<UndefValue>(c)) {
    Val v;
    v.w = c->getType()->isIntegerTy() ? c->getType()->getIntegerBitWidth() : 64;
    if (c->getType()->isAggregateType()) {
      v.k = Val::kAgg;
      for (unsigned i = 0; i < c->getType()->getNumContainedTypes(); ++i) v.agg.push_back(EvalConst(st, UndefValue::get(c->getType()->getContainedType(i))));
    }
    return v;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (g->accumulateConstantOffset(dl_, off)) {
        Val b = EvalConst(st, cast<Constant>(g->getPointerOperand()));
        b.l = b.l + Lin((long)off.getSExtValue());
        return b;
      }
    }
  }
  if (c->getType()->isAggregateType()) {
    Val v;
    v.k = Val::kAgg;
    unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) v.agg.push_back(EvalConst(st, c->getAggregateElement(i)));
    return v;
  }
  throw Unsupported{"constant"};
}

Val Interp::Eval(St& st, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return EvalConst(st, c);
  auto it = st.env.find(v);
  if (it == st.env.end()) throw Unsupported{"value without definition"};
  return it->second;
}

void Interp::DivMod(St& st, const Lin& x0, const mpz_class& c, Lin* q, Lin* r) {
  Lin x = st.p.Reduce(x0);
  Q C(c);
  if (x.IsConst()) {
    mpz_class k = x.c.get_num();
    mpz_class qq = FloorQ(Q(k) / C);
    *q = Lin::Const(Q(qq));
    *r = Lin::Const(Q(k - qq * c));
    return;
  }
  if (st.p.EntailsGe(x) && st.p.EntailsGe(Lin::Const(C - 1) - x)) {
    *q = 0;
    *r = x;
    return;
  }
  auto divisible = [&](const Lin& l, Lin* out) {
    Lin d = l.Times(1 / C);
    for (auto& [k, v] : d.t)
      if (!IsInt(v)) return false;
    if (!IsInt(d.c)) return false;
    *out = d;
    return true;
  };
  auto try_r = [&](const Lin& cand) {
    Lin out;
    Lin red = st.p.Reduce(cand);
    if (!divisible(st.p.Reduce(x - red), &out)) return false;
    if (!st.p.EntailsGe(red) || !st.p.EntailsGe(Lin::Const(C - 1) - red)) return false;
    *q = out;
    *r = red;
    return true;
  };
  Lin rest;
  for (auto& [d, k] : x.t)
    if (!IsInt(k / C)) rest.t.push_back({d, k});
  mpz_class cc = FloorQ(x.c / C);
  rest.c = x.c - Q(cc) * C;
  if (try_r(rest)) return;
  for (int d : st.p.Dims())
    if (try_r(Lin::Dim(d))) return;
  if (!(rest == x)) {
    Lin part;
    DivMod(st, rest, c, &part, r);
    divisible(x - rest, &rest);
    *q = part + rest;
    return;
  }
  if (alarm && splits && st.p.EntailsGe(x) && st.p.EntailsGe(Lin::Const(C * 8 - 1) - x)) {
    long k = 0;
    while (k < 7 && Decide(st, x - Lin::Const(C * (k + 1)))) ++k;
    *q = Lin(k);
    *r = x - Lin::Const(C * k);
    return;
  }
  int qd = NewDim(), rd = NewDim();
  st.p.AddGe(Lin::Dim(rd));
  st.p.AddGe(Lin::Const(C - 1) - Lin::Dim(rd));
  st.p.AddGe(Lin::Dim(qd));
  st.p.AddEq(Lin::Dim(qd).Times(C) + Lin::Dim(rd) - x);
  *q = st.p.Reduce(Lin::Dim(qd));
  *r = st.p.Reduce(Lin::Dim(rd));
}

Val Interp::Bin(St& st, const BinaryOperator& b) {
  Val x = Eval(st, b.getOperand(0)), y = Eval(st, b.getOperand(1));
  unsigned w = b.getType()->isIntegerTy() ? b.getType()->getIntegerBitWidth() : 0;
  if (!w) throw Unsupported{"vector arithmetic"};
  auto generic = [&]() { return NodeVal(MkInst(b.getOpcode(), w, {AsNode(st, x), AsNode(st, y)})); };
  auto with_node = [&](Lin l) {
    Val v = NumVal(l, w);
    if (!st.p.Reduce(l).IsConst()) {
      Val g = generic();
      if (g.k == Val::kNode) v.node = g.node;
    }
    return v;
  };
  {
    // Extracting a byte of a length stays an expression until its number is needed.
    bool lazy = b.getOpcode() == Instruction::LShr && x.k == Val::kNum && isa<ConstantInt>(b.getOperand(1)) &&
                cast<ConstantInt>(b.getOperand(1))->getZExtValue() % 8 == 0 && !st.p.Reduce(x.l).IsConst();
    if (lazy) return generic();
    bool again = b.getOpcode() == Instruction::LShr && x.k == Val::kNode && nodes[x.node].numeric && isa<ConstantInt>(b.getOperand(1)) &&
                 cast<ConstantInt>(b.getOperand(1))->getZExtValue() % 8 == 0;
    if (again) return generic();
  }
  x = Force(st, x);
  y = Force(st, y);
  if (x.k == Val::kPtr && y.k == Val::kPtr && b.getOpcode() == Instruction::Sub) {
    if (x.obj != y.obj) throw Unsupported{"difference of unrelated pointers"};
    Lin d = x.l - y.l;
    if (Decide(st, d)) return NumVal(d, w);
    return NumVal(d + Lin::Const(Q(Pow2(w))), w);
  }
  Lin yc = y.k == Val::kNum ? st.p.Reduce(y.l) : Lin(0);
  bool yk = y.k == Val::kNum && yc.IsConst();
  Lin xc = x.k == Val::kNum ? st.p.Reduce(x.l) : Lin(0);
  bool xk = x.k == Val::kNum && xc.IsConst();
  if (x.k == Val::kPtr || y.k == Val::kPtr) {
    // Numeric use of an address (alignment tests and the like).
    throw Unsupported{"address used as a number"};
  }
  mpz_class M = Pow2(w);
  if (x.k != Val::kNum || y.k != Val::kNum) {
    // Masking a data word bounds it.
    if (w <= 64 && b.getOpcode() == Instruction::And && (yk || xk)) return generic();
    return generic();
  }
  if (w == 1) {
    // Booleans are decided already or constant.
    if (!xk) { bool t = DecideEq(st, xc - Lin(1)); xc = Lin(t ? 1 : 0); }
    if (!yk) { bool t = DecideEq(st, yc - Lin(1)); yc = Lin(t ? 1 : 0); }
    bool p = xc.c != 0, q = yc.c != 0, r = false;
    switch (b.getOpcode()) {
      case Instruction::And: r = p && q; break;
      case Instruction::Or: r = p || q; break;
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: r = p != q; break;
      default: throw Unsupported{"boolean operation"};
    }
    return NumVal(r ? 1 : 0, 1);
  }
  if (w > 64) {
    if (xk && yk) {
      mpz_class p = xc.c.get_num(), q = yc.c.get_num(), r;
      switch (b.getOpcode()) {
        case Instruction::Mul: r = p * q % M; return NumVal(Lin::Const(Q(r)), w);
        default: break;
      }
    }
    return generic();
  }
  switch (b.getOpcode()) {
    case Instruction::Add: {
      Lin s = xc + yc;
      if (yk && yc.c > Q(M / 2)) {  // subtraction of a constant
        Lin d = xc + Lin::Const(yc.c - Q(M));
        if (Decide(st, d)) return NumVal(d, w);
        return NumVal(s, w);
      }
      if (st.p.EntailsGe(Lin::Const(Q(M - 1)) - s)) return NumVal(s, w);
      if (Decide(st, Lin::Const(Q(M - 1)) - s)) return NumVal(s, w);
      return NumVal(s - Lin::Const(Q(M)), w);
    }
    case Instruction::Sub: {
      Lin d = xc - yc;
      if (Decide(st, d)) return NumVal(d, w);
      return NumVal(d + Lin::Const(Q(M)), w);
    }
    case Instruction::Mul:
    case Instruction::Shl: {
      Lin base;
      mpz_class f;
      if (b.getOpcode() == Instruction::Shl) {
        if (!yk || yc.c >= w) return generic();
        f = Pow2(yc.c.get_num().get_ui());
        base = xc;
      } else if (yk) {
        f = yc.c.get_num(), base = xc;
      } else if (xk) {
        f = xc.c.get_num(), base = yc;
      } else {
        return generic();
      }
      if (base.IsConst()) {
        mpz_class r = base.c.get_num() * f;
        mpz_fdiv_r(r.get_mpz_t(), r.get_mpz_t(), M.get_mpz_t());
        return NumVal(Lin::Const(Q(r)), w);
      }
      Lin p = base.Times(Q(f));
      if (st.p.EntailsGe(Lin::Const(Q(M - 1)) - p)) return with_node(p);
      if (w < 64 && b.getOpcode() == Instruction::Shl && st.p.EntailsGe(base)) {
        // The upper bits are lost.
        Lin q, r;
        DivMod(st, base, Pow2(w - yc.c.get_num().get_ui()), &q, &r);
        return with_node(r.Times(Q(f)));
      }
      return generic();
    }
    case Instruction::UDiv:
    case Instruction::LShr:
    case Instruction::URem: {
      if (!yk) return generic();
      mpz_class c = yc.c.get_num();
      if (b.getOpcode() == Instruction::LShr) {
        if (c >= w) return generic();
        c = Pow2(c.get_ui());
      }
      if (c == 0) return generic();
      Lin q, r;
      DivMod(st, xc, c, &q, &r);
      return with_node(b.getOpcode() == Instruction::URem ? r : q);
    }
    case Instruction::AShr:
    case Instruction::SDiv:
    case Instruction::SRem: {
      if (!yk || yc.c >= Q(M / 2)) return generic();
      if (!Decide(st, Lin::Const(Q(M / 2 - 1)) - xc)) return generic();  // non-negative
      mpz_class c = yc.c.get_num();
      if (b.getOpcode() == Instruction::AShr) {
        if (c >= w) return generic();
        c = Pow2(c.get_ui());
      }
      if (c == 0) return generic();
      Lin q, r;
      DivMod(st, xc, c, &q, &r);
      return with_node(b.getOpcode() == Instruction::SRem ? r : q);
    }
    case Instruction::And: {
      if (xk && !yk) std::swap(xc, yc), std::swap(xk, yk);
      if (!yk) return generic();
      mpz_class mask = yc.c.get_num();
      if (xk) {
        mpz_class r = mask & xc.c.get_num();
        return NumVal(Lin::Const(Q(r)), w);
      }
      if (mask == 0) return NumVal(0, w);
      unsigned lo = mpz_scan1(mask.get_mpz_t(), 0);
      mpz_class run = (mask >> lo) + 1;
      if (mpz_popcount(run.get_mpz_t()) != 1) return generic();  // not contiguous
      unsigned hi = lo + mpz_scan1(run.get_mpz_t(), 0);
      Lin q, r = xc;
      if (hi < w) DivMod(st, xc, Pow2(hi), &q, &r);
      Lin low = 0;
      if (lo > 0) DivMod(st, r, Pow2(lo), &q, &low);
      return with_node(r - low);
    }
    case Instruction::Or: {
      if (xk && yk) {
        mpz_class r = xc.c.get_num() | yc.c.get_num();
        return NumVal(Lin::Const(Q(r)), w);
      }
      if (auto* d = dyn_cast<PossiblyDisjointInst>(&b); d && d->isDisjoint()) return with_node(xc + yc);
      if (yk && yc.c == 0) return x;
      // Bits that cannot overlap.
      for (auto [hi, lo] : {std::pair<Lin, Lin>{xc, yc}, std::pair<Lin, Lin>{yc, xc}}) {
        mpz_class g = hi.c.get_num();
        bool whole = hi.c.get_den() == 1;
        for (auto& [d, k] : hi.t) {
          if (k.get_den() != 1) whole = false;
          g = gcd(g, mpz_class(k.get_num()));
        }
        if (!whole || g == 0) continue;
        const mpz_class unit = Pow2(mpz_scan1(g.get_mpz_t(), 0));
        if (unit > 1 && st.p.EntailsGe(lo) && st.p.EntailsGe(hi) && st.p.EntailsGe(Lin::Const(Q(unit - 1)) - lo)) return with_node(xc + yc);
      }
      return generic();
    }
    case Instruction::Xor: {
      if (xk && yk) {
        mpz_class r = xc.c.get_num() ^ yc.c.get_num();
        return NumVal(Lin::Const(Q(r)), w);
      }
      if (yk && yc.c == Q(M - 1)) return with_node(Lin::Const(Q(M - 1)) - xc);
      if (yk && yc.c != 0) {
        // 2^k - 1 - x for a value below 2^k
        mpz_class k = yc.c.get_num() + 1;
        if (mpz_popcount(k.get_mpz_t()) == 1 && st.p.EntailsGe(yc - xc)) return with_node(yc - xc);
      }
      return generic();
    }
    default:
      return generic();
  }
}

// ---- memory

void Interp::Canon(St& st, Obj& o) {
  std::vector<Seg> out;
  for (auto& s : o.segs) {
    s.lo = st.p.Reduce(s.lo);
    s.hi = st.p.Reduce(s.hi);
    if (s.lo == s.hi) continue;
    if (!out.empty()) {
      Seg& b = out.back();
      if (b.k == s.k) {
        if (s.k == Seg::kStale) { b.hi = s.hi; continue; }
        if (s.k == Seg::kMsg && b.msg == s.msg && st.p.EntailsEq(b.off - s.off)) { b.hi = s.hi; continue; }
        if (s.k == Seg::kFill && AsNode(st, b.v) == AsNode(st, s.v)) { b.hi = s.hi; continue; }
      }
    }
    out.push_back(s);
  }
  o.segs = std::move(out);
}

bool Interp::CheckAccess(St& st, const Instruction& at, const Val& p, const Lin& len, bool write) {
  if (p.k != Val::kPtr) throw Unsupported{"access through a non-pointer"};
  if (p.obj < 0) {
    if (st.p.Reduce(len) == Lin(0)) return false;
    throw Unsupported{"access through an unknown or null pointer"};
  }
  Obj& o = st.objs[p.obj];
  obligations += recording;
  Lin end = p.l + len;
  bool ok = st.p.EntailsGe(p.l) && st.p.EntailsGe(o.size - end);
  if (!ok) {
    Poly bad1 = st.p, bad2 = st.p;
    bad1.AddGe(Lin(-1) - p.l);
    bad2.AddGe(end - o.size - Lin(1));
    if (bad1.IntegerFeasible() || bad2.IntegerFeasible()) {
      const bool keep = st.exact;
      st.exact = keep && (bad1.HasIntegerPoint() || bad2.HasIntegerPoint());
      Fail(st, &at, write ? "write-out-of-bounds" : "read-out-of-bounds",
           std::string(write ? "write" : "read") + " of " + st.p.Reduce(len).Str() + " bytes at offset " + st.p.Reduce(p.l).Str() + " of '" +
               o.name + "' (" + st.p.Reduce(o.size).Str() + " bytes) is not inside it when " + st.p.Str());
      st.exact = keep;
    }
    st.p.AddGe(p.l);
    st.p.AddGe(o.size - end);
    if (st.p.bottom) return false;
  } else if (o.ty && !st.p.Reduce(p.l).IsConst()) {
    // The access must stay inside one array member.
    obligations += recording;
    bool inside = false;
    std::function<void(Type*, uint64_t)> rec = [&](Type* t, uint64_t off) {
      if (inside) return;
      uint64_t n = dl_.getTypeAllocSize(t);
      if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = dl_.getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) rec(s->getElementType(i), off + sl->getElementOffset(i));
        return;
      }
      if (st.p.EntailsGe(p.l - Lin((long)off)) && st.p.EntailsGe(Lin((long)(off + n)) - end)) inside = true;
    };
    rec(o.ty, 0);
    if (!inside) {
      const bool keep = st.exact;
      st.exact = false;  // not an error by itself
      Fail(st, &at, write ? "write-outside-member" : "read-outside-member",
             std::string(write ? "write" : "read") + " of " + st.p.Reduce(len).Str() + " bytes at offset " + st.p.Reduce(p.l).Str() + " of '" +
                 o.name + "' is not proved to stay inside one array member");
      st.exact = keep;
    }
  }
  if (write && o.readonly) Fail(st, &at, "write-to-input", "write to read-only object '" + o.name + "'");
  return true;
}

std::vector<Piece> Interp::ReadRange(St& st, const Val& p, const Lin& len) {
  std::vector<Piece> out;
  Obj& o = st.objs[p.obj];
  Lin a = st.p.Reduce(p.l), end = st.p.Reduce(p.l + len);
  size_t i = 0;
  Lin pos = a;
  if (!Decide(st, len - Lin(1))) return out;
  while (i < o.segs.size() && !Decide(st, o.segs[i].hi - a - Lin(1))) ++i;
  for (; i < o.segs.size() && !st.p.bottom; ++i) {
    const Seg s = o.segs[i];
    bool last = Decide(st, s.hi - end);
    Lin hi = last ? end : s.hi;
    Piece q;
    q.lo = st.p.Reduce(pos - a);
    q.hi = st.p.Reduce(hi - a);
    switch (s.k) {
      case Seg::kStale: q.k = Piece::kStale; break;
      case Seg::kMsg:
        q.k = Piece::kMsg;
        q.msg = s.msg;
        q.off = st.p.Reduce(s.off + a);
        break;
      case Seg::kFill:
        q.k = Piece::kFill;
        q.node = AsNode(st, s.v);
        break;
      case Seg::kCell: {
        q.k = Piece::kNode;
        bool whole = st.p.EntailsEq(pos - s.lo) && st.p.EntailsEq(hi - s.hi);
        int n = AsNode(st, s.v);
        if (!whole) {
          Lin d = st.p.Reduce(pos - s.lo), l = st.p.Reduce(hi - pos);
          if (!d.IsConst() || !l.IsConst()) {
            // split on the byte position inside the cell
            Lin sz = st.p.Reduce(s.hi - s.lo);
            if (!sz.IsConst()) throw Unsupported{"cell of unknown size"};
            long cnt = sz.c.get_num().get_si();
            for (long k = 0; k < cnt; ++k)
              if (DecideEq(st, pos - s.lo - Lin(k))) { d = Lin(k); break; }
            l = st.p.Reduce(hi - pos);
            if (!d.IsConst() || !l.IsConst()) throw Unsupported{"partial read of a word at a variable offset"};
          }
          n = Extract(n, d.c.get_num().get_ui(), 8 * l.c.get_num().get_ui());
        }
        q.node = n;
        break;
      }
    }
    out.push_back(q);
    pos = hi;
    if (last) break;
  }
  return out;
}

Val Interp::FromPieces(St& st, const std::vector<Piece>& ps, unsigned bytes) {
  unsigned w = bytes * 8;
  if (ps.size() == 1 && ps[0].k == Piece::kNode && nodes[ps[0].node].width == w) return NodeVal(ps[0].node);
  Node c;
  c.op = NConcat;
  c.width = w;
  bool allconst = true, bad = false;
  mpz_class cv = 0;
  for (auto& p : ps) {
    Lin l = st.p.Reduce(p.hi - p.lo), lo = st.p.Reduce(p.lo);
    if (!l.IsConst() || !lo.IsConst()) { bad = true; break; }
    long n = l.c.get_num().get_si(), at = lo.c.get_num().get_si();
    for (long k = 0; k < n; ++k) {
      int id;
      if (p.k == Piece::kMsg) {
        Node b;
        b.op = NByte;
        b.sub = p.msg;
        b.width = 8;
        b.lin = st.p.Reduce(p.off + Lin(at + k));
        id = nodes.Get(b);
      } else if (p.k == Piece::kFill) {
        id = p.node;
      } else if (p.k == Piece::kStale) {
        Node s;
        s.op = NStale;
        s.sub = ++opaque_;
        s.width = 8;
        id = nodes.Get(s);
      } else if (n == 1) {
        id = p.node;
      } else {
        id = Extract(p.node, k, 8);
      }
      c.kids.push_back(id);
      if (nodes[id].op == NConst) cv |= mpz_class(nodes[id].k) << (8 * (c.kids.size() - 1));
      else allconst = false;
    }
  }
  if (bad) {
    bool stale = false, msg = false;
    for (auto& p : ps) {
      stale |= p.k == Piece::kStale || (p.node >= 0 && nodes[p.node].stale);
      msg |= p.k == Piece::kMsg;
    }
    Node n;
    n.op = stale ? NStale : NOpaque;
    n.sub = ++opaque_;
    n.width = w;
    (void)msg;
    return NodeVal(nodes.Get(n));
  }
  if (allconst) return NumVal(Lin::Const(Q(cv)), w);
  if (c.kids.size() == 1) return NodeVal(c.kids[0]);
  // Whole word split into its bytes and reassembled.
  if (c.kids.size() == bytes) {
    int base = -1;
    bool whole = true;
    for (unsigned k = 0; k < bytes && whole; ++k) {
      const Node& e = nodes[c.kids[k]];
      if (e.op != NExtract || e.sub != (int)k || e.width != 8 || (base >= 0 && e.kids[0] != base)) whole = false;
      else base = e.kids[0];
    }
    if (whole && nodes[base].width == w) return NodeVal(base);
  }
  return NodeVal(nodes.Get(c));
}

Val Interp::LoadVal(St& st, const Instruction& at, const Val& p, Type* t) {
  uint64_t n = dl_.getTypeStoreSize(t);
  if (!CheckAccess(st, at, p, Lin((long)n), false)) {
    Val v;
    v.w = 8 * n;
    return v;
  }
  // A cell that matches exactly keeps its kind (numbers and pointers).
  Obj& o = st.objs[p.obj];
  Lin a = st.p.Reduce(p.l);
  for (auto& s : o.segs)
    if (s.k == Seg::kCell && st.p.Reduce(s.lo) == a && st.p.Reduce(s.hi) == a + Lin((long)n)) {
      if (t->isPointerTy() ? s.v.k == Val::kPtr : t->isIntegerTy() && s.v.w == t->getIntegerBitWidth()) return s.v;
    }
  if (t->isPointerTy()) throw Unsupported{"pointer loaded from unknown memory"};
  if (!t->isIntegerTy()) throw Unsupported{"load of a non-integer"};
  if (o.readonly && o.name[0] == '@' && !a.IsConst()) {
    // table lookup at a variable index
    Node nn;
    nn.op = NOpaque;
    nn.sub = ++opaque_;
    nn.width = t->getIntegerBitWidth();
    return NodeVal(nodes.Get(nn));
  }
  auto ps = ReadRange(st, p, Lin((long)n));
  if (st.p.bottom) return Val{};
  Val v = FromPieces(st, ps, n);
  unsigned w = t->getIntegerBitWidth();
  if (v.w != w) {
    if (w < v.w) {
      if (v.k == Val::kNum) return NumVal(v.l, w);
      return NodeVal(MkInst(Instruction::Trunc, w, {AsNode(st, v)}));
    }
    throw Unsupported{"load width"};
  }
  return v;
}

void Interp::WriteSegs(St& st, int obj, const Lin& a0, const Lin& len, std::vector<Seg> mid) {
  if (!Decide(st, len - Lin(1))) return;
  Lin a = st.p.Reduce(a0), end = st.p.Reduce(a0 + len);
  std::vector<Seg> before, after;
  for (auto s : st.objs[obj].segs) {
    if (Decide(st, a - s.hi)) { before.push_back(s); continue; }
    if (Decide(st, s.lo - end)) { after.push_back(s); continue; }
    auto rest = [&](const Lin& lo, const Lin& hi) {
      Seg r = s;
      r.lo = lo;
      r.hi = hi;
      if (s.k == Seg::kCell) {
        Lin d = st.p.Reduce(lo - s.lo), l = st.p.Reduce(hi - lo);
        if (d.IsConst() && l.IsConst()) {
          r.v = NodeVal(Extract(AsNode(st, s.v), d.c.get_num().get_ui(), 8 * l.c.get_num().get_ui()));
        } else {
          r.k = Seg::kStale;
        }
      }
      return r;
    };
    if (Decide(st, a - s.lo - Lin(1))) before.push_back(rest(s.lo, a));
    if (Decide(st, s.hi - end - Lin(1))) after.push_back(rest(end, s.hi));
    if (st.p.bottom) return;
  }
  std::vector<Seg> all = before;
  for (auto& m : mid) all.push_back(m);
  for (auto& s : after) all.push_back(s);
  st.objs[obj].segs = std::move(all);
  Canon(st, st.objs[obj]);
}

void Interp::StoreVal(St& st, const Instruction& at, const Val& p, const Val& v, Type* t) {
  uint64_t n = dl_.getTypeStoreSize(t);
  if (!CheckAccess(st, at, p, Lin((long)n), true)) return;
  Seg s;
  s.lo = st.p.Reduce(p.l);
  s.hi = st.p.Reduce(p.l + Lin((long)n));
  s.k = Seg::kCell;
  s.v = v;
  if (v.k == Val::kUndef) s.k = Seg::kStale;
  if (v.k == Val::kNode) {
    const Node& nd = nodes[v.node];
    if (nd.op == NByte) {
      s.k = Seg::kMsg;
      s.msg = nd.sub;
      s.off = nd.lin - s.lo;
    } else if (nd.op == NConcat && nd.kids.size() == n) {
      bool run = true;
      for (size_t i = 0; i < nd.kids.size() && run; ++i) {
        const Node& b = nodes[nd.kids[i]];
        const Node& b0 = nodes[nd.kids[0]];
        if (b.op != NByte || b.sub != b0.sub || !(st.p.Reduce(b.lin - b0.lin) == Lin((long)i))) run = false;
      }
      if (run) {
        s.k = Seg::kMsg;
        s.msg = nodes[nd.kids[0]].sub;
        s.off = nodes[nd.kids[0]].lin - s.lo;
      }
    }
  }
  if (v.k == Val::kNum && v.w == 8) {
    Lin l = st.p.Reduce(v.l);
    if (l.IsConst()) s.k = Seg::kFill, s.v = NumVal(l, 8);
  }
  WriteSegs(st, p.obj, s.lo, Lin((long)n), {s});
}

// ---- kernels and folding

int Interp::Relativise(St& st, int node, const Lin& q, int block, std::map<int, int>& memo, bool* ok, std::set<int>* bytes, bool learn) {
  if (!*ok) return -1;
  auto it = memo.find(node);
  if (it != memo.end()) return it->second;
  const Node n = nodes[node];
  Node r;
  int id = -1;
  auto rel_byte = [&](const Lin& off) -> long {
    Lin d = st.p.Reduce(off - q.Times(block));
    if (!d.IsConst()) { *ok = false; return 0; }
    return d.c.get_num().get_si();
  };
  switch (n.op) {
    case NFold: {
      if (!st.p.EntailsEq(n.lin - q)) { *ok = false; return -1; }
      r.op = NRelFold;
      r.sub = n.sub;
      r.width = n.width;
      id = nodes.Get(r);
      break;
    }
    case NByte: {
      r.op = NRelByte;
      r.width = 8;
      r.sub = rel_byte(n.lin);
      if (n.sub != fold.msg) *ok = false;
      if (*ok) id = nodes.Get(r), bytes->insert(r.sub);
      break;
    }
    case NNum: case NStale: case NOpaque:
      *ok = false;
      return -1;
    case NRange: {
      r.op = NRange;
      for (auto p : n.pieces) {
        if (p.k == Piece::kStale) { *ok = false; return -1; }
        if (p.k == Piece::kMsg) {
          Lin lo = st.p.Reduce(p.lo), hi = st.p.Reduce(p.hi);
          if (!lo.IsConst() || !hi.IsConst() || p.msg != fold.msg) { *ok = false; return -1; }
          long base = rel_byte(p.off);
          if (!*ok) return -1;
          for (long k = lo.c.get_num().get_si(); k < hi.c.get_num().get_si(); ++k) {
            Node b;
            b.op = NRelByte;
            b.width = 8;
            b.sub = base + k;
            bytes->insert(b.sub);
            r.kids.push_back(nodes.Get(b));
          }
          continue;
        }
        if (p.node < 0) { *ok = false; return -1; }
        const Node& pn = nodes[p.node];
        if (p.k == Piece::kNode && pn.op == NConcat) {
          for (int k : pn.kids) r.kids.push_back(Relativise(st, k, q, block, memo, ok, bytes, learn));
        } else {
          int x = Relativise(st, p.node, q, block, memo, ok, bytes, learn);
          if (!*ok) return -1;
          if (p.k == Piece::kFill) {
            Lin l = st.p.Reduce(p.hi - p.lo);
            if (!l.IsConst()) { *ok = false; return -1; }
            for (long k = 0; k < l.c.get_num().get_si(); ++k) r.kids.push_back(x);
          } else {
            r.kids.push_back(x);
          }
        }
        if (!*ok) return -1;
      }
      id = nodes.Get(r);
      break;
    }
    default: {
      r = n;
      r.pieces.clear();
      r.kids.clear();
      r.stale = r.msg = r.fold = r.lins = false;
      for (int k : n.kids) {
        r.kids.push_back(Relativise(st, k, q, block, memo, ok, bytes, learn));
        if (!*ok) return -1;
      }
      id = nodes.Get(r);
    }
  }
  memo[node] = id;
  return id;
}

static bool FindFold(NodeTab& t, int node, Lin* q, std::set<int>& seen) {
  if (!t[node].fold || !seen.insert(node).second) return false;
  if (t[node].op == NFold) { *q = t[node].lin; return true; }
  for (int k : t[node].kids)
    if (FindFold(t, k, q, seen)) return true;
  for (auto& p : t[node].pieces)
    if (p.node >= 0 && FindFold(t, p.node, q, seen)) return true;
  return false;
}

static void CollectMsg(NodeTab& t, int node, std::set<Lin>& lins, long* width, std::set<int>& seen, Poly& p) {
  if (!t[node].msg || !seen.insert(node).second) return;
  if (t[node].op == NByte) lins.insert(p.Reduce(t[node].lin));
  for (int k : t[node].kids) CollectMsg(t, k, lins, width, seen, p);
  for (auto& x : t[node].pieces) {
    if (x.node >= 0) CollectMsg(t, x.node, lins, width, seen, p);
    if (x.k == Piece::kMsg) {
      Lin l = p.Reduce(x.hi - x.lo);
      if (l.IsConst()) {
        Lin lo = p.Reduce(x.lo);
        for (long k = 0; k < l.c.get_num().get_si(); ++k) lins.insert(p.Reduce(x.off + lo + Lin(k)));
      }
    }
  }
}

// Tries to see the given new chaining words as one more step of the fold. Returns q+1 in *next.
static bool MatchStep(Interp& in, St& st, const std::vector<int>& words, Lin* next) {
  auto& f = in.fold;
  Lin q;
  bool have = false;
  for (int w : words) {
    std::set<int> seen;
    if (FindFold(in.nodes, w, &q, seen)) { have = true; break; }
  }
  if (!have) return false;
  if (f.block == 0) {
    std::set<Lin> lins;
    long width = 0;
    for (int w : words) {
      std::set<int> seen;
      CollectMsg(in.nodes, w, lins, &width, seen, st.p);
    }
    if (lins.empty()) return false;
    f.block = lins.size();
  }
  std::map<int, int> memo;
  std::set<int> bytes;
  bool ok = true;
  std::vector<int> rel;
  for (int w : words) {
    rel.push_back(in.Relativise(st, w, q, f.block, memo, &ok, &bytes, f.tmpl.empty()));
    if (!ok) break;
  }
  bool learned = f.tmpl.empty();
  if (ok) {
    // every byte of the block, once
    if ((int)bytes.size() != f.block || *bytes.begin() != 0 || *bytes.rbegin() != f.block - 1) ok = false;
  }
  if (ok && learned) f.tmpl = rel;
  if (ok && rel != f.tmpl) ok = false;
  if (!ok) {
    if (getenv("VP_FOLD")) {
      errs() << "NOFOLD q=" << q.Str() << " block " << f.block << " bytes " << bytes.size() << " given " << st.p.Str() << "\n";
      for (int w : words) { errs() << "    " << in.nodes.Str(w, 4) << "\n"; break; }
    }
    if (f.tmpl.empty()) f.block = 0;
    return false;
  }
  *next = st.p.Reduce(q + Lin(1));
  return true;
}

bool Interp::TryFoldCells(St& st) {
  if (!use_fold || fold.obj < 0 || fold.cells.empty()) return false;
  Obj& o = st.objs[fold.obj];
  std::vector<int> words;
  std::vector<Seg*> segs;
  for (auto& [off, w] : fold.cells) {
    Seg* hit = nullptr;
    for (auto& s : o.segs)
      if (s.k == Seg::kCell && s.lo == Lin(off) && s.hi == Lin((long)(off + w / 8))) hit = &s;
    if (!hit || hit->v.k != Val::kNode) return false;
    if (nodes[hit->v.node].op == NFold) return false;
    words.push_back(hit->v.node);
    segs.push_back(hit);
  }
  Lin next;
  if (!MatchStep(*this, st, words, &next)) return false;
  for (size_t j = 0; j < segs.size(); ++j) {
    Node n;
    n.op = NFold;
    n.sub = j;
    n.width = fold.cells[j].second;
    n.lin = next;
    segs[j]->v = NodeVal(nodes.Get(n));
  }
  return true;
}

void Interp::Kernel(St& st, const CallInst& c, const KernelSig& k) {
  Node kn;
  kn.op = NKernel;
  kn.sub = 0;
  kn.k = k.name;
  auto arg = [&](int i) { return Eval(st, c.getArgOperand(i)); };
  for (auto& r : k.reads) {
    Val p = arg(r.arg);
    if (p.k != Val::kPtr) throw Unsupported{"kernel argument"};
    p.l = p.l + Lin((long)r.off);
    if (!CheckAccess(st, c, p, Lin((long)r.size), false)) return;
    auto ps = ReadRange(st, p, Lin((long)r.size));
    if (st.p.bottom) return;
    // Chaining words that still hold their initial constants.
    if (use_fold && !fold.init.empty()) {
      size_t m = fold.init.size();
      if (ps.size() == m) {
        bool all = true;
        for (size_t j = 0; j < m && all; ++j) all = ps[j].k == Piece::kNode && ps[j].node == fold.init[j];
        if (all)
          for (size_t j = 0; j < m; ++j) {
            Node n;
            n.op = NFold;
            n.sub = j;
            n.width = nodes[fold.init[j]].width;
            n.lin = 0;
            ps[j].node = nodes.Get(n);
          }
      }
    }
    Node rn;
    rn.op = NRange;
    rn.pieces = ps;
    kn.kids.push_back(nodes.Get(rn));
  }
  for (int i : k.ints) kn.kids.push_back(AsNode(st, arg(i)));
  int kid = nodes.Get(kn);
  if (on_kernel) on_kernel(st, &c, kid);
  auto out = [&](int idx, unsigned w) {
    Node n;
    n.op = NKOut;
    n.sub = idx;
    n.width = w;
    n.kids = {kid};
    return nodes.Get(n);
  };
  // Is it a step of the fold?
  std::vector<int> words;
  for (size_t i = 0; i < k.writes.size(); ++i) words.push_back(out(i, 8 * k.writes[i].size));
  std::vector<int> result = words;
  if (use_fold) {
    Lin next;
    if (words.size() == fold.init.size() && MatchStep(*this, st, words, &next)) {
      for (size_t j = 0; j < words.size(); ++j) {
        Node n;
        n.op = NFold;
        n.sub = j;
        n.width = nodes[words[j]].width;
        n.lin = next;
        result[j] = nodes.Get(n);
      }
    }
  }
  for (size_t i = 0; i < k.writes.size(); ++i) {
    Val p = arg(k.writes[i].arg);
    p.l = p.l + Lin((long)k.writes[i].off);
    if (!CheckAccess(st, c, p, Lin((long)k.writes[i].size), true)) return;
    Seg s;
    s.k = Seg::kCell;
    s.lo = st.p.Reduce(p.l);
    s.hi = st.p.Reduce(p.l + Lin((long)k.writes[i].size));
    s.v = NodeVal(result[i]);
    if (p.obj == fold.obj && use_fold) {
      Lin o = st.p.Reduce(p.l);
      if (o.IsConst()) became_data.insert({o.c.get_num().get_si(), 8 * (unsigned)k.writes[i].size});
    }
    WriteSegs(st, p.obj, p.l, Lin((long)k.writes[i].size), {s});
  }
  if (k.ret) st.env[&c] = NodeVal(out(-1, k.ret));
}

// ---- instructions

void Interp::ExecCall(St& st, const CallInst& c) {
  const Function* g = c.getCalledFunction();
  if (!g) throw Unsupported{"indirect call"};
  if (isa<DbgInfoIntrinsic>(c)) return;
  if (auto it = kernels_.find(g->getName().str()); it != kernels_.end()) { Kernel(st, c, it->second); return; }
  if (auto* mt = dyn_cast<MemTransferInst>(&c)) {
    Val d = Eval(st, mt->getRawDest()), s = Eval(st, mt->getRawSource());
    Lin n = st.p.Reduce(AsNum(st, Eval(st, mt->getLength())));
    if (!Decide(st, n - Lin(1))) return;
    if (!CheckAccess(st, c, s, n, false) || !CheckAccess(st, c, d, n, true)) return;
    auto ps = ReadRange(st, s, n);
    if (st.p.bottom) return;
    std::vector<Seg> mid;
    for (auto& p : ps) {
      Seg x;
      x.lo = st.p.Reduce(d.l + p.lo);
      x.hi = st.p.Reduce(d.l + p.hi);
      switch (p.k) {
        case Piece::kStale: x.k = Seg::kStale; break;
        case Piece::kMsg:
          x.k = Seg::kMsg;
          x.msg = p.msg;
          x.off = st.p.Reduce(p.off - d.l);
          break;
        case Piece::kFill:
          x.k = Seg::kFill;
          x.v = NodeVal(p.node);
          break;
        case Piece::kNode:
          x.k = Seg::kCell;
          x.v = NodeVal(p.node);
          // keep numbers and pointers as they are
          for (auto& sg : st.objs[s.obj].segs)
            if (sg.k == Seg::kCell && st.p.Reduce(sg.lo - s.l - p.lo) == Lin(0) && st.p.Reduce(sg.hi - s.l - p.hi) == Lin(0)) x.v = sg.v;
          break;
      }
      mid.push_back(x);
    }
    WriteSegs(st, d.obj, d.l, n, mid);
    return;
  }
  if (auto* ms = dyn_cast<MemSetInst>(&c)) {
    Val d = Eval(st, ms->getRawDest()), v = Eval(st, ms->getValue());
    Lin n = st.p.Reduce(AsNum(st, Eval(st, ms->getLength())));
    if (!Decide(st, n - Lin(1))) return;
    if (!CheckAccess(st, c, d, n, true)) return;
    // Zeroing typed words keeps them as words.
    Seg x;
    x.k = Seg::kFill;
    x.v = v;
    x.lo = st.p.Reduce(d.l);
    x.hi = st.p.Reduce(d.l + n);
    WriteSegs(st, d.obj, d.l, n, {x});
    return;
  }
  if (auto* ii = dyn_cast<IntrinsicInst>(&c)) {
    switch (ii->getIntrinsicID()) {
      case Intrinsic::lifetime_start: {
        return;
      }
      case Intrinsic::lifetime_end:
      case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::donothing:
        return;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        Val x = Force(st, Eval(st, c.getArgOperand(0))), y = Force(st, Eval(st, c.getArgOperand(1)));
        if (x.k == Val::kNum && y.k == Val::kNum) {
          bool mn = ii->getIntrinsicID() == Intrinsic::umin || ii->getIntrinsicID() == Intrinsic::smin;
          if (ii->getIntrinsicID() == Intrinsic::smin || ii->getIntrinsicID() == Intrinsic::smax) {
            Q half(Pow2(x.w - 1));
            if (!st.p.EntailsGe(Lin::Const(half - 1) - x.l) || !st.p.EntailsGe(Lin::Const(half - 1) - y.l)) throw Unsupported{"signed min/max"};
          }
          bool le = Decide(st, y.l - x.l);
          st.env[&c] = (le == mn) ? x : y;
          return;
        }
        break;
      }
      case Intrinsic::usub_sat: {
        Val x = Force(st, Eval(st, c.getArgOperand(0))), y = Force(st, Eval(st, c.getArgOperand(1)));
        if (x.k == Val::kNum && y.k == Val::kNum) {
          st.env[&c] = Decide(st, x.l - y.l) ? NumVal(x.l - y.l, x.w) : NumVal(0, x.w);
          return;
        }
        break;
      }
      default:
        break;
    }
    if (c.getType()->isIntegerTy() && c.doesNotAccessMemory()) {
      std::vector<int> kids;
      for (const Use& u : c.args()) kids.push_back(AsNode(st, Eval(st, u.get())));
      st.env[&c] = NodeVal(MkInst(1000 + ii->getIntrinsicID(), c.getType()->getIntegerBitWidth(), kids));
      return;
    }
  }
  throw Unsupported{"call to " + FnName(*g)};
}

void Interp::Exec(St& st, const Instruction& i) {
  ++steps;
  if (steps > max_steps) throw Unsupported{"step limit"};
  if (!(steps & 63)) Tick();
  if (auto* b = dyn_cast<BinaryOperator>(&i)) { st.env[&i] = Bin(st, *b); return; }
  if (auto* c = dyn_cast<CallInst>(&i)) { ExecCall(st, *c); return; }
  if (auto* l = dyn_cast<LoadInst>(&i)) { st.env[&i] = LoadVal(st, i, Eval(st, l->getPointerOperand()), l->getType()); return; }
  if (auto* s = dyn_cast<StoreInst>(&i)) {
    Val p = Eval(st, s->getPointerOperand()), v = Eval(st, s->getValueOperand());
    if (use_fold && p.k == Val::kPtr && p.obj == fold.obj && v.k == Val::kNode && !s->getValueOperand()->getType()->isIntegerTy(8)) {
      Lin o = st.p.Reduce(p.l);
      if (o.IsConst()) became_data.insert({o.c.get_num().get_si(), (unsigned)(8 * dl_.getTypeStoreSize(s->getValueOperand()->getType()))});
    }
    StoreVal(st, i, p, v, s->getValueOperand()->getType());
    return;
  }
  if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
    Val p = Eval(st, g->getPointerOperand());
    if (p.k != Val::kPtr) throw Unsupported{"address arithmetic on a non-pointer"};
    MapVector<Value*, APInt> vars;
    APInt off(64, 0);
    if (!cast<GEPOperator>(g)->collectOffset(dl_, 64, vars, off)) throw Unsupported{"address arithmetic"};
    Lin l = p.l + Lin((long)off.getSExtValue());
    for (auto& [v, k] : vars) {
      Val x = Eval(st, v);
      Lin n = AsNum(st, x);
      // negative index
      if (x.k == Val::kNum && x.w == 64) {
        Lin rn = st.p.Reduce(n);
        if (!Decide(st, Lin::Const(Q(Pow2(63) - 1)) - rn)) n = n - Lin::Const(Q(Pow2(64)));
      } else if (x.w < 64) {
        if (!Decide(st, Lin::Const(Q(Pow2(x.w - 1) - 1)) - n)) n = n - Lin::Const(Q(Pow2(x.w)));
      }
      l = l.Plus(n, Q(k.getSExtValue()));
    }
    st.env[&i] = PtrVal(p.obj, st.p.Reduce(l));
    return;
  }
  if (auto* a = dyn_cast<AllocaInst>(&i)) {
    auto n = a->getAllocationSize(dl_);
    if (!n) throw Unsupported{"variable-size local"};
    // Reuse the object in loops.
    std::string nm = "local " + std::to_string((uintptr_t)a);
    for (size_t k = 0; k < st.objs.size(); ++k)
      if (st.objs[k].name == nm) { st.env[&i] = PtrVal(k, 0); return; }
    int o = AddObj(st, nm, Lin((long)n->getFixedValue()), a->getAllocatedType(), Seg::kStale, false);
    st.objs[o].local = true;
    st.env[&i] = PtrVal(o, 0);
    return;
  }
  if (auto* c = dyn_cast<ICmpInst>(&i)) {
    Val x = Force(st, Eval(st, c->getOperand(0))), y = Force(st, Eval(st, c->getOperand(1)));
    auto pred = c->getPredicate();
    auto result = [&](bool v) { st.env[&i] = NumVal(v ? 1 : 0, 1); };
    if (x.k == Val::kPtr && y.k == Val::kPtr) {
      if (x.obj != y.obj) {
        if (!c->isEquality()) throw Unsupported{"order of unrelated pointers"};
        result(pred == CmpInst::ICMP_NE);
        return;
      }
      Lin d = x.l - y.l;
      switch (CmpInst::isSigned(pred) ? ICmpInst::getUnsignedPredicate(pred) : pred) {
        case CmpInst::ICMP_EQ: result(DecideEq(st, d)); return;
        case CmpInst::ICMP_NE: result(!DecideEq(st, d)); return;
        case CmpInst::ICMP_UGT: result(Decide(st, d - Lin(1))); return;
        case CmpInst::ICMP_UGE: result(Decide(st, d)); return;
        case CmpInst::ICMP_ULT: result(Decide(st, Lin(-1) - d)); return;
        case CmpInst::ICMP_ULE: result(Decide(st, Lin(0) - d)); return;
        default: break;
      }
    }
    if (x.k == Val::kNum && y.k == Val::kNum) {
      Lin a = x.l, b = y.l;
      if (CmpInst::isSigned(pred)) {
        Q half(Pow2(x.w - 1)), M(Pow2(x.w));
        if (!Decide(st, Lin::Const(half - 1) - a)) a = a - Lin::Const(M);
        if (!Decide(st, Lin::Const(half - 1) - b)) b = b - Lin::Const(M);
        pred = ICmpInst::getUnsignedPredicate(pred);
      }
      Lin d = a - b;
      switch (pred) {
        case CmpInst::ICMP_EQ: result(DecideEq(st, d)); return;
        case CmpInst::ICMP_NE: result(!DecideEq(st, d)); return;
        case CmpInst::ICMP_UGT: result(Decide(st, d - Lin(1))); return;
        case CmpInst::ICMP_UGE: result(Decide(st, d)); return;
        case CmpInst::ICMP_ULT: result(Decide(st, Lin(-1) - d)); return;
        case CmpInst::ICMP_ULE: result(Decide(st, Lin(0) - d)); return;
        default: break;
      }
    }
    Node n;
    n.op = NInst;
    n.sub = 2000 + pred;
    n.width = 1;
    n.kids = {AsNode(st, x), AsNode(st, y)};
    st.env[&i] = NodeVal(nodes.Get(n));
    return;
  }
  if (auto* s = dyn_cast<SelectInst>(&i)) {
    Val c = Force(st, Eval(st, s->getCondition()));
    if (c.k == Val::kNum) {
      bool t = DecideEq(st, c.l - Lin(1));
      st.env[&i] = Eval(st, t ? s->getTrueValue() : s->getFalseValue());
      return;
    }
    Val a = Eval(st, s->getTrueValue()), b = Eval(st, s->getFalseValue());
    if (a.k == Val::kPtr || b.k == Val::kPtr) throw Unsupported{"data-dependent pointer"};
    Node n;
    n.op = NInst;
    n.sub = Instruction::Select;
    n.width = a.w;
    n.kids = {AsNode(st, c), AsNode(st, a), AsNode(st, b)};
    st.env[&i] = NodeVal(nodes.Get(n));
    return;
  }
  if (auto* c = dyn_cast<CastInst>(&i)) {
    Val x = Eval(st, c->getOperand(0));
    if (isa<PtrToIntInst>(c) || isa<IntToPtrInst>(c) || isa<BitCastInst>(c)) {
      if (x.k == Val::kPtr || isa<BitCastInst>(c)) { st.env[&i] = x; return; }
      throw Unsupported{"integer to pointer"};
    }
    if (!c->getType()->isIntegerTy()) throw Unsupported{"non-integer cast"};
    unsigned w = c->getType()->getIntegerBitWidth();
    auto generic = [&]() { return MkInst(c->getOpcode(), w, {AsNode(st, x)}); };
    if (x.k == Val::kNum) {
      Lin l = st.p.Reduce(x.l);
      if (isa<ZExtInst>(c)) {
        Val v = NumVal(l, w);
        if (!l.IsConst() && x.node >= 0) { int g = generic(); if (nodes[g].op != NConst) v.node = g; }
        st.env[&i] = v;
        return;
      }
      if (isa<SExtInst>(c)) {
        if (Decide(st, Lin::Const(Q(Pow2(x.w - 1) - 1)) - l)) st.env[&i] = NumVal(l, w);
        else st.env[&i] = NumVal(l + Lin::Const(Q(Pow2(w) - Pow2(x.w))), w);
        return;
      }
      if (isa<TruncInst>(c)) {
        if (l.IsConst()) {
          mpz_class r = l.c.get_num() % Pow2(w);
          st.env[&i] = NumVal(Lin::Const(Q(r)), w);
          return;
        }
        int node = generic();
        if (st.p.EntailsGe(Lin::Const(Q(Pow2(w) - 1)) - l)) {
          Val v = NumVal(l, w);
          v.node = node;
          st.env[&i] = v;
          return;
        }
        st.env[&i] = NodeVal(node);  // numeric, evaluated on demand
        return;
      }
    }
    st.env[&i] = NodeVal(generic());
    return;
  }
  if (auto* f = dyn_cast<FreezeInst>(&i)) { st.env[&i] = Eval(st, f->getOperand(0)); return; }
  if (auto* e = dyn_cast<ExtractValueInst>(&i)) {
    Val v = Eval(st, e->getAggregateOperand());
    for (unsigned k : e->indices()) {
      if (v.k != Val::kAgg || k >= v.agg.size()) throw Unsupported{"aggregate"};
      Val t = v.agg[k];
      v = t;
    }
    st.env[&i] = v;
    return;
  }
  if (auto* e = dyn_cast<InsertValueInst>(&i)) {
    Val v = Eval(st, e->getAggregateOperand());
    if (v.k == Val::kUndef) v = EvalConst(st, UndefValue::get(e->getType()));
    Val* t = &v;
    for (unsigned k : e->indices()) {
      if (t->k != Val::kAgg || k >= t->agg.size()) throw Unsupported{"aggregate"};
      t = &t->agg[k];
    }
    *t = Eval(st, e->getInsertedValueOperand());
    st.env[&i] = v;
    return;
  }
  std::string s;
  raw_string_ostream os(s);
  i.print(os);
  throw Unsupported{"instruction " + s};
}

// ---- joins

static void CollectLins(Val& v, std::vector<Lin*>& out) {
  if (v.k == Val::kNum || v.k == Val::kPtr) out.push_back(&v.l);
  for (auto& a : v.agg) CollectLins(a, out);
}

std::vector<Lin*> Interp::Positions(St& st) {
  std::vector<Lin*> out;
  for (auto& [k, v] : st.env) CollectLins(v, out);
  for (auto& o : st.objs) {
    out.push_back(&o.size);
    for (auto& s : o.segs) {
      out.push_back(&s.lo);
      out.push_back(&s.hi);
      if (s.k == Seg::kMsg) out.push_back(&s.off);
      if (s.k == Seg::kCell || s.k == Seg::kFill) CollectLins(s.v, out);
    }
  }
  return out;
}

static void ValSig(NodeTab& t, const Val& v, bool with, std::string& s) {
  switch (v.k) {
    case Val::kUndef: s += "u"; break;
    case Val::kNum: s += "n" + std::to_string(v.w); break;
    case Val::kPtr: s += "p" + std::to_string(v.obj); break;
    case Val::kNode:
      s += "d" + std::to_string(v.w);
      if (t[v.node].op == NFold) s += "F" + std::to_string(t[v.node].sub);
      else if (with) s += "#" + std::to_string(v.node);
      break;
    case Val::kAgg:
      s += "(";
      for (auto& a : v.agg) ValSig(t, a, with, s);
      s += ")";
      break;
  }
}

std::string Interp::Signature(const St& st, bool with) const {
  std::string s;
  auto& t = const_cast<NodeTab&>(nodes);
  for (auto& [k, v] : st.env) {
    s += std::to_string((uintptr_t)k % 100000007) + ":";
    ValSig(t, v, with, s);
    s += ";";
  }
  for (auto& o : st.objs) {
    s += "|" + o.name;
    for (auto& g : o.segs) {
      s += g.k == Seg::kCell ? "c" : g.k == Seg::kMsg ? "m" + std::to_string(g.msg) : g.k == Seg::kFill ? "f" : "s";
      if (g.k == Seg::kCell || g.k == Seg::kFill) ValSig(t, g.v, with, s);
    }
  }
  return s;
}

void Interp::Gc(St& st, const std::set<const Value*>* live) {
  if (live)
    for (auto it = st.env.begin(); it != st.env.end();)
      if (!live->count(it->first)) it = st.env.erase(it);
      else ++it;
  if (st.p.bottom) return;
  std::set<int> keep = globals;
  for (auto& o : st.objs)
    for (auto& s : o.segs) {
      s.lo = st.p.Reduce(s.lo);
      s.hi = st.p.Reduce(s.hi);
      if (s.k == Seg::kMsg) s.off = st.p.Reduce(s.off);
    }
  for (Lin* l : Positions(st)) {
    *l = st.p.Reduce(*l);
    for (auto& x : l->t) keep.insert(x.first);
  }
  // dimensions inside data words
  std::function<void(int, std::set<int>&)> dims = [&](int n, std::set<int>& seen) {
    const Node& x = nodes[n];
    if (!x.lins || !seen.insert(n).second) return;
    for (auto& t : x.lin.t) keep.insert(t.first);
    for (int k : x.kids) dims(k, seen);
    for (auto& p : x.pieces) {
      for (auto* l : {&p.lo, &p.hi, &p.off})
        for (auto& t : l->t) keep.insert(t.first);
      if (p.node >= 0) dims(p.node, seen);
    }
  };
  std::set<int> seen;
  std::function<void(const Val&)> vd = [&](const Val& v) {
    if (v.node >= 0) dims(v.node, seen);
    for (auto& a : v.agg) vd(a);
  };
  for (auto& [k, v] : st.env) vd(v);
  for (auto& [c, v] : st.assumed) dims(c, seen);
  for (auto& o : st.objs)
    for (auto& s : o.segs)
      if (s.k == Seg::kCell || s.k == Seg::kFill) vd(s.v);
  for (auto it = st.node_dim.begin(); it != st.node_dim.end();)
    if (!keep.count(it->second)) it = st.node_dim.erase(it);
    else ++it;
  st.p.Forget(keep);
}

// Joins b into a. Both have the same signature without node ids. *same: b was already included in a.
St Interp::JoinPair(const St& a0, const St& b0, bool widen, bool* same) {
  St a = a0, b = b0;
  *same = true;
  // Data words that differ become unknown; Fold words and numbers are positions.
  std::map<std::pair<int, int>, int> pair_node;
  struct FoldPos { Val* v; Lin qa, qb; };
  std::vector<FoldPos> folds;
  std::function<void(Val&, Val&)> unify = [&](Val& x, Val& y) {
    if (x.k == Val::kNum && x.node != y.node) x.node = y.node = -1;
    if (x.k == Val::kNode && y.k == Val::kNode) {
      const Node &nx = nodes[x.node], &ny = nodes[y.node];
      if (nx.op == NFold && ny.op == NFold && nx.sub == ny.sub) {
        folds.push_back({&x, nx.lin, ny.lin});
        return;
      }
      if (x.node == y.node) return;
      auto it = pair_node.find({x.node, y.node});
      if (it != pair_node.end()) { x.node = it->second; return; }
      int from = x.node;
      bool stale = nx.stale || ny.stale;
      if ((nx.op == NOpaque || nx.op == NStale) && nx.k == "join" && (nx.op == NStale || !stale)) {
        pair_node[{from, y.node}] = from;
        return;
      }
      *same = false;
      Node o;
      o.op = stale ? NStale : NOpaque;
      o.k = "join";
      o.sub = ++opaque_;
      o.width = x.w;
      x.node = nodes.Get(o);
      pair_node[{from, y.node}] = x.node;
    }
    for (size_t i = 0; i < x.agg.size(); ++i) unify(x.agg[i], y.agg[i]);
  };
  for (auto& [k, v] : a.env) unify(v, b.env[k]);
  for (size_t i = 0; i < a.objs.size(); ++i)
    for (size_t j = 0; j < a.objs[i].segs.size(); ++j) {
      Seg &x = a.objs[i].segs[j], &y = b.objs[i].segs[j];
      if (x.k == Seg::kCell || x.k == Seg::kFill) {
        if (x.v.k == Val::kNode || x.v.k == Val::kAgg || x.v.k == Val::kNum) unify(x.v, y.v);
      }
    }
  std::set<int> keep = globals;
  std::map<std::pair<Lin, Lin>, int> dimof;
  std::vector<std::pair<Lin, Lin>> fresh_a, fresh_b;  // (dim, value)
  auto position = [&](const Lin& la, const Lin& lb) -> Lin {
    Lin ra = a.p.Reduce(la), rb = b.p.Reduce(lb);
    if (ra.IsConst() && ra == rb) return ra;
    if (la == lb && !la.IsConst()) {
      for (auto& t : la.t) keep.insert(t.first);
      return la;
    }
    auto key = std::make_pair(ra, rb);
    auto it = dimof.find(key);
    if (it != dimof.end()) return Lin::Dim(it->second);
    int d = NewDim();
    dimof[key] = d;
    fresh_a.push_back({Lin::Dim(d), ra});
    fresh_b.push_back({Lin::Dim(d), rb});
    keep.insert(d);
    return Lin::Dim(d);
  };
  auto pa = Positions(a), pb = Positions(b);
  for (size_t i = 0; i < pa.size(); ++i) *pa[i] = position(*pa[i], *pb[i]);
  for (auto& f : folds) {
    Lin q = position(f.qa, f.qb);
    Node n = nodes[f.v->node];
    n.lin = q;
    f.v->node = nodes.Get(n);
  }
  Poly qa = a.p, qb = b.p;
  for (auto& [d, v] : fresh_a) qa.AddEq(d - v);
  for (auto& [d, v] : fresh_b) qb.AddEq(d - v);
  // dimensions inside data words stay
  St tmp = a;
  tmp.p = qa;
  std::set<int> nodedims;
  {
    std::function<void(int, std::set<int>&)> dims = [&](int n, std::set<int>& seen) {
      const Node& x = nodes[n];
      if (!x.lins || !seen.insert(n).second) return;
      for (auto& t : x.lin.t) keep.insert(t.first);
      for (int k : x.kids) dims(k, seen);
      for (auto& p : x.pieces) {
        for (auto* l : {&p.lo, &p.hi, &p.off})
          for (auto& t : l->t) keep.insert(t.first);
        if (p.node >= 0) dims(p.node, seen);
      }
    };
    std::set<int> seen;
    std::function<void(const Val&)> vd = [&](const Val& v) {
      if (v.node >= 0) dims(v.node, seen);
      for (auto& g : v.agg) vd(g);
    };
    for (auto& [k, v] : a.env) vd(v);
    for (auto& o : a.objs)
      for (auto& s : o.segs)
        if (s.k == Seg::kCell || s.k == Seg::kFill) vd(s.v);
  }
  qa.Forget(keep);
  qb.Forget(keep);
  if (*same && qa.Includes(qb)) return a0;
  *same = false;
  if (getenv("VP_JOIN")) errs() << "JOIN widen " << widen << "\n   a: " << qa.Str() << "\n   b: " << qb.Str() << "\n";
  a.p = widen ? Poly::Widen(qa, Poly::Join(qa, qb), {}) : Poly::Join(qa, qb);
  if (getenv("VP_JOIN")) errs() << "   r: " << a.p.Str() << "\n";
  a.exact = false, a.loose = true;
  a.node_dim.clear();
  return a;
}

std::vector<St> Interp::JoinAll(std::vector<St> in, bool) {
  std::vector<St> out;
  for (auto& s : in) {
    if (s.p.bottom) continue;
    bool done = false;
    std::string sig = Signature(s, false);
    for (auto& o : out)
      if (Signature(o, false) == sig) {
        bool same;
        o = JoinPair(o, s, false, &same);
        done = true;
        break;
      }
    if (!done) out.push_back(std::move(s));
  }
  return out;
}

bool Interp::Fixpoint(std::vector<St>& cur, const std::vector<St>& add, int iter) {
  bool grew = false;
  for (auto& s : add) {
    if (s.p.bottom) continue;
    std::string sig = Signature(s, false);
    bool done = false;
    for (auto& o : cur)
      if (Signature(o, false) == sig) {
        bool same;
        St j = JoinPair(o, s, iter >= 3, &same);
        if (!same) grew = true, o = std::move(j);
        done = true;
        break;
      }
    if (!done) {
      cur.push_back(s);
      grew = true;
      if (cur.size() > 40) throw Unsupported{"too many memory shapes at a loop"};
    }
  }
  return grew;
}

// ---- control flow

void Interp::Prepare(Function& f) {
  if (lis_.count(&f)) return;
  auto& dt = dts_[&f];
  dt = std::make_unique<DominatorTree>(f);
  lis_[&f] = std::make_unique<LoopInfo>(*dt);
  int k = 0;
  ReversePostOrderTraversal<Function*> rpo(&f);
  for (BasicBlock* b : rpo) rpo_[&f][b] = k++;
  // live-in values
  auto& live = live_[&f];
  bool changed = true;
  while (changed) {
    changed = false;
    for (BasicBlock& b : f) {
      std::set<const Value*> out;
      for (BasicBlock* s : successors(&b)) {
        for (auto* v : live[s]) out.insert(v);
        for (PHINode& p : s->phis()) out.erase(&p);
        for (PHINode& p : s->phis()) {
          Value* v = p.getIncomingValueForBlock(&b);
          if (isa<Instruction>(v) || isa<Argument>(v)) out.insert(v);
        }
      }
      for (auto it = b.rbegin(); it != b.rend(); ++it) {
        if (isa<PHINode>(*it)) continue;
        out.erase(&*it);
        if (isa<DbgInfoIntrinsic>(*it)) continue;
        for (Use& u : it->operands())
          if (isa<Instruction>(u.get()) || isa<Argument>(u.get())) out.insert(u.get());
      }
      // phis of b itself are live on entry (they are bound on the edge)
      for (PHINode& p : b.phis())
        if (!p.use_empty()) out.insert(&p);
      if (out != live[&b]) live[&b] = out, changed = true;
    }
  }
}

void Interp::EnterBlock(St& st, const BasicBlock* from, const BasicBlock* to) {
  std::vector<std::pair<const Value*, Val>> vals;
  for (const PHINode& p : to->phis()) vals.push_back({&p, Eval(st, p.getIncomingValueForBlock(from))});
  for (auto& [k, v] : vals) st.env[k] = v;
  if (use_fold) TryFoldCells(st);
  Gc(st, &live_[to->getParent()][to]);
}

void Interp::RunBlock(const BasicBlock* b, St st, Out& out, std::vector<St>& rets) {
  std::vector<std::pair<St, BasicBlock::const_iterator>> work;
  work.push_back({std::move(st), b->getFirstNonPHI()->getIterator()});
  while (!work.empty()) {
    St s = std::move(work.back().first);
    auto it = work.back().second;
    work.pop_back();
    ++states;
    if (states > 400000) throw Unsupported{"state limit"};
    if (!s.p.Feasible()) continue;
    for (;; ++it) {
      std::vector<St> forked;
      auto* saved = pending_;
      pending_ = &forked;
      const Instruction& i = *it;
      auto push_forks = [&]() {
        for (auto& f : forked) work.push_back({std::move(f), it});
        forked.clear();
        pending_ = saved;
      };
      if (i.isTerminator()) {
        auto go = [&](St x, const BasicBlock* to) {
          if (x.p.bottom) return;
          EnterBlock(x, b, to);
          if (!x.p.bottom) out[to].push_back(std::move(x));
        };
        if (auto* br = dyn_cast<BranchInst>(&i)) {
          if (br->isUnconditional()) {
            go(std::move(s), br->getSuccessor(0));
          } else {
            Val c = Force(s, Eval(s, br->getCondition()));
            if (c.k == Val::kNum) {
              bool t = DecideEq(s, c.l - Lin(1));
              go(std::move(s), br->getSuccessor(t ? 0 : 1));
            } else {
              if (c.k == Val::kUndef || (c.k == Val::kNode && nodes[c.node].stale))
                Fail(s, &i, "uninitialised-decision", "the control flow depends on bytes that were never written");
              const int n = AsNode(s, c);
              St t = s;
              if (Assume(t, n, true)) go(std::move(t), br->getSuccessor(0));
              if (Assume(s, n, false)) go(std::move(s), br->getSuccessor(1));
            }
          }
        } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
          Val c = Force(s, Eval(s, sw->getCondition()));
          if (c.k != Val::kNum) {
            const int n = AsNode(s, c);
            St rest = s;
            bool open = true;
            for (auto& cs : sw->cases()) {
              const int eq = nodes.Get([&] {
                Node e;
                e.op = NInst;
                e.sub = 2000 + CmpInst::ICMP_EQ;
                e.width = 1;
                e.kids = {n, ConstNode(FromAP(cs.getCaseValue()->getValue()), nodes[n].width)};
                return e;
              }());
              St t = rest;
              if (Assume(t, eq, true)) go(std::move(t), cs.getCaseSuccessor());
              if (!Assume(rest, eq, false)) { open = false; break; }
            }
            if (open) go(std::move(rest), sw->getDefaultDest());
          } else {
            const BasicBlock* to = sw->getDefaultDest();
            for (auto& cs : sw->cases())
              if (DecideEq(s, c.l - Lin::Const(Q(FromAP(cs.getCaseValue()->getValue()))))) { to = cs.getCaseSuccessor(); break; }
            go(std::move(s), to);
          }
        } else if (auto* r = dyn_cast<ReturnInst>(&i)) {
          s.ret = r->getReturnValue() ? Eval(s, r->getReturnValue()) : Val{};
          if (use_fold) TryFoldCells(s);
          rets.push_back(std::move(s));
        } else if (isa<UnreachableInst>(i)) {
          // dead
        } else {
          pending_ = saved;
          throw Unsupported{"terminator"};
        }
        push_forks();
        break;
      }
      Exec(s, i);
      push_forks();
      if (s.p.bottom) break;
    }
  }
}

// A comparison of message bytes or scalar arguments with a constant: both outcomes are possible.
bool Interp::FreeCondition(int cond, std::set<int>* bytes) {
  const Node& n = nodes[cond];
  if (n.op != NInst || n.sub < 2000 || n.kids.size() != 2) return false;
  const Node &a = nodes[n.kids[0]], &b = nodes[n.kids[1]];
  if (b.op != NConst && a.op != NConst) return false;
  const int x = b.op == NConst ? n.kids[0] : n.kids[1];
  std::vector<int> parts{x};
  if (nodes[x].op == NInst && nodes[x].sub == Instruction::ZExt) parts = nodes[x].kids;
  else if (nodes[x].op == NConcat) parts = nodes[x].kids;
  bool any = false;
  for (int k : parts) {
    if (nodes[k].op == NConst) continue;
    if (nodes[k].op != NByte && nodes[k].op != NArg) return false;
    if (!bytes->insert(k).second) return false;
    any = true;
  }
  return any;
}

// Takes a data-dependent branch; false if the path already decided it the other way.
bool Interp::Assume(St& st, int cond, bool truth) {
  const Node& n = nodes[cond];
  if (n.op == NInst && n.sub == 2000 + CmpInst::ICMP_NE) {
    Node e = n;
    e.sub = 2000 + CmpInst::ICMP_EQ;
    cond = nodes.Get(e);
    truth = !truth;
  }
  auto it = st.assumed.find(cond);
  if (it != st.assumed.end()) return it->second == truth;
  std::set<int> mine, theirs;
  bool free = FreeCondition(cond, &mine);
  for (auto& [c, v] : st.assumed) {
    theirs.clear();
    if (!FreeCondition(c, &theirs)) free = false;
    for (int b : theirs)
      if (mine.count(b)) free = false;
  }
  if (!free) st.tied = true, st.exact = false;
  st.assumed[cond] = truth;
  return true;
}

Interp::Out Interp::RunLoop(const Loop* l, std::vector<St> entry, std::vector<St>& rets) {
  const Function& f = *l->getHeader()->getParent();
  Out result;
  if (alarm) {
    std::vector<St> cur = std::move(entry);
    for (int k = 0; k <= peel && !cur.empty(); ++k) {
      std::vector<St> back;
      RunRegion(f, l, l->getHeader(), std::move(cur), result, back, rets);
      cur = std::move(back);
      if (cur.size() > 2000) throw Unsupported{"too many partitions"};
    }
    if (!cur.empty()) ++truncated;
    return result;
  }
  bool rec = recording;
  recording = false;
  std::vector<St> cur;
  Fixpoint(cur, entry, 0);
  std::vector<St> back;
  for (int iter = 0;; ++iter) {
    if (iter > 40) throw Unsupported{"no fixpoint"};
    Out ignore;
    std::vector<St> r2;
    back.clear();
    RunRegion(f, l, l->getHeader(), cur, ignore, back, r2);
    if (!Fixpoint(cur, back, iter)) break;
  }
  // One descending step.
  {
    std::vector<St> narrow;
    Fixpoint(narrow, entry, 0);
    Fixpoint(narrow, back, 0);
    if (narrow.size() <= cur.size()) cur = std::move(narrow);
    // The narrowed set must still be closed; otherwise widen it again.
    std::vector<St> check = cur;
    Out ignore;
    std::vector<St> r2, b2;
    RunRegion(f, l, l->getHeader(), cur, ignore, b2, r2);
    if (Fixpoint(check, b2, 0)) {
      // Joins are not exact; use the larger set until closed.
      for (int iter = 0;; ++iter) {
        if (iter > 40) throw Unsupported{"no fixpoint after narrowing"};
        cur = check;
        b2.clear();
        Out ig;
        RunRegion(f, l, l->getHeader(), cur, ig, b2, r2);
        check = cur;
        if (!Fixpoint(check, b2, iter + 1)) break;
      }
    }
  }
  if (trace_level > 0) {
    errs() << "loop " << l->getHeader()->getName() << " states " << cur.size() << "\n";
    for (auto& s : cur) {
      errs() << "   " << s.p.Str() << "\n";
      for (auto& [k, v] : s.env) {
        errs() << "      ";
        k->printAsOperand(errs(), false);
        errs() << " = k" << v.k << " " << v.l.Str() << (v.node >= 0 ? nodes.Str(v.node, 2) : "") << "\n";
      }
    }
  }
  recording = rec;
  back.clear();
  RunRegion(f, l, l->getHeader(), cur, result, back, rets);
  return result;
}

void Interp::RunRegion(const Function& f, const Loop* l, const BasicBlock* start, std::vector<St> entry, Out& exits, std::vector<St>& back,
                       std::vector<St>& rets) {
  auto& rpo = rpo_[&f];
  LoopInfo& li = *lis_[&f];
  std::map<int, std::pair<const BasicBlock*, std::vector<St>>> pend;
  pend[rpo[start]] = {start, std::move(entry)};
  bool first = true;
  auto dispatch = [&](Out& o) {
    for (auto& [to, sts] : o) {
      if (l && to == l->getHeader()) {
        for (auto& s : sts) back.push_back(std::move(s));
      } else if (l && !l->contains(to)) {
        auto& e = exits[to];
        for (auto& s : sts) e.push_back(std::move(s));
      } else {
        auto& e = pend[rpo[to]];
        e.first = to;
        for (auto& s : sts) e.second.push_back(std::move(s));
      }
    }
  };
  while (!pend.empty()) {
    auto [b, sts] = std::move(pend.begin()->second);
    pend.erase(pend.begin());
    const Loop* inner = li.getLoopFor(b);
    if (!alarm && sts.size() > 10) sts = JoinAll(std::move(sts), false);
    if (inner && inner != l && inner->getHeader() == b && !(first && l == inner)) {
      Out o = RunLoop(inner, std::move(sts), rets);
      dispatch(o);
    } else {
      Out o;
      for (auto& s : sts) RunBlock(b, std::move(s), o, rets);
      dispatch(o);
    }
    first = false;
  }
}

std::vector<St> Interp::Run(Function& f, const std::vector<Val>& args, St st) {
  Prepare(f);
  st.env.clear();
  for (size_t i = 0; i < args.size(); ++i) st.env[f.getArg(i)] = args[i];
  std::vector<St> rets, back, entry;
  Out exits;
  entry.push_back(std::move(st));
  RunRegion(f, nullptr, &f.getEntryBlock(), std::move(entry), exits, back, rets);
  for (auto& r : rets) {
    r.env.clear();
    r.objs.erase(std::remove_if(r.objs.begin(), r.objs.end(), [](const Obj& o) { return o.local; }), r.objs.end());
  }
  return rets;
}

}  // namespace vp
