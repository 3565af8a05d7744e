#include <chrono>
// Streaming properties decided with the abstract interpreter: bounds, chunking invariance, padding.
#include "absint.h"

namespace vp {

enum Cmp { kSame, kDiffer, kUnknown };

class Session {
 public:
  Session(Module& src, const std::string& name, const std::string& kind, const std::vector<std::string>& extra = {}) : name_(name), kind_(kind) {
    const std::string b = "vp_" + kind + "_";
    init_ = b + "init_" + name;
    update_ = b + "update_" + name;
    final_ = b + "final_" + name;
    if (src.getFunction(b + "oneshot_" + name)) oneshot_ = b + "oneshot_" + name;
    else if (src.getFunction("vp_h64_" + name)) oneshot_ = "vp_h64_" + name;
    if (src.getFunction(b + "sfinal_" + name)) sfinal_ = b + "sfinal_" + name;
    if (src.getFunction(b + "supdate_" + name)) supdate_ = b + "supdate_" + name;
    std::vector<std::string> es = {init_, update_, final_};
    for (auto& e : {oneshot_, sfinal_, supdate_})
      if (!e.empty()) es.push_back(e);
    for (auto& e : extra)
      if (src.getFunction(e)) es.push_back(e);
    prep_ = PrepareEntries(src, es);
    if (!prep_.err.empty()) return;
    auto* g = src.getGlobalVariable("vp_layout_" + kind + "_" + name, true);
    if (g) {
      state_ty_ = g->getValueType();
      state_size_ = src.getDataLayout().getTypeAllocSize(state_ty_);
    }
    if (auto* s = src.getGlobalVariable("vp_size_" + kind + "_" + name, true))
      digest_ = cast<ConstantInt>(s->getInitializer())->getZExtValue();
    if (auto* s = src.getGlobalVariable("vp_block_" + kind + "_" + name, true))
      block_ = cast<ConstantInt>(s->getInitializer())->getZExtValue();
  }
  // The one-shot digest beside its specification, block functions included.
  Session(Module& src, const char* name, const char* spec) : name_(name), kind_("dig") {
    oneshot_ = "vp_dig_oneshot_" + std::string(name);
    prep_ = PrepareEntries(src, {oneshot_, spec}, false);
    digest_ = cast<ConstantInt>(src.getGlobalVariable("vp_size_dig_" + std::string(name), true)->getInitializer())->getZExtValue();
    block_ = cast<ConstantInt>(src.getGlobalVariable("vp_block_dig_" + std::string(name), true)->getInitializer())->getZExtValue();
    state_size_ = 8;
  }
  // A set of plain functions.
  Session(Module& src, const std::vector<std::string>& entries) {
    prep_ = PrepareEntries(src, entries);
    state_size_ = 8;
  }
  std::string Err() const { return prep_.err; }

  Prepared prep_;
  std::string name_, kind_, init_, update_, final_, oneshot_, sfinal_, supdate_;
  uint64_t block_ = 0;
  Type* state_ty_ = nullptr;
  uint64_t state_size_ = 0, digest_ = 8;

  static constexpr int kState = 0, kGhost = 1;

  St Fresh(Interp& in) {
    St st;
    in.AddObj(st, "state", Lin((long)state_size_), state_ty_, Seg::kStale, false);
    in.AddObj(st, "ghost", Lin(8), nullptr, Seg::kStale, false);
    st.objs[kGhost].segs = {};
    Seg s;
    s.lo = 0, s.hi = 8, s.k = Seg::kCell;
    s.v = in.NumVal(0, 64);
    st.objs[kGhost].segs.push_back(s);
    return st;
  }
  Lin H(St& st) { return st.objs[kGhost].segs[0].v.l; }
  void SetH(St& st, const Lin& l) { st.objs[kGhost].segs[0].v.l = l; }
  void Drop(St& st) {
    // Only the state, the ghost and the output survive a call.
    std::vector<Obj> keep;
    for (auto& o : st.objs)
      if (o.name == "state" || o.name == "ghost" || o.name == "out") keep.push_back(std::move(o));
    st.objs = std::move(keep);
  }

  // A data object of n bytes whose byte x is message byte x + off.
  int Data(Interp& in, St& st, const Lin& n, const Lin& off, int msg) {
    int d = in.AddObj(st, "data", n, nullptr, Seg::kMsg, true);
    st.objs[d].segs[0].msg = msg;
    st.objs[d].segs[0].off = off;
    return d;
  }
  void Bound(St& st, const Lin& n) {
    st.p.AddGe(n);
    st.p.AddGe(Lin::Const(Q((mpz_class(1) << 61) - 1)) - n);
  }

  std::vector<St> Init(Interp& in) {
    in.entry = init_;
    St st = Fresh(in);
    std::vector<Val> a = {in.PtrVal(kState, 0)};
    if (kind_ == "hs") a.push_back(Seed(in));
    auto r = in.Run(*prep_.m->getFunction(init_), a, st);
    for (auto& s : r) Drop(s);
    return r;
  }
  Val Seed(Interp& in) {
    Node n;
    n.op = NArg;
    n.width = 64;
    n.k = "seed";
    return in.NodeVal(in.nodes.Get(n));
  }
  std::vector<St> Update(Interp& in, St st, const Lin& n, const std::string& fn = "") {
    in.entry = fn.empty() ? update_ : fn;
    Lin h = H(st);
    int d = Data(in, st, n, h, 0);
    SetH(st, h + n);
    auto r = in.Run(*prep_.m->getFunction(in.entry), {in.PtrVal(kState, 0), in.PtrVal(d, 0), in.NumVal(n, 64)}, st);
    for (auto& s : r) Drop(s), in.Gc(s, nullptr);
    return r;
  }
  std::vector<St> Final(Interp& in, St st, const std::string& fn = "") {
    in.entry = fn.empty() ? final_ : fn;
    std::vector<Val> a = {in.PtrVal(kState, 0)};
    if (kind_ == "dig") {
      int o = in.AddObj(st, "out", Lin((long)digest_), nullptr, Seg::kStale, false);
      a.push_back(in.PtrVal(o, 0));
    }
    auto r = in.Run(*prep_.m->getFunction(in.entry), a, st);
    for (auto& s : r) Drop(s);
    return r;
  }
  std::vector<St> OneShot(Interp& in, const Lin& n, St st) {
    in.entry = oneshot_;
    int d = Data(in, st, n, 0, 0);
    SetH(st, n);
    std::vector<Val> a = {in.PtrVal(d, 0), in.NumVal(n, 64)};
    if (kind_ == "dig") {
      int o = in.AddObj(st, "out", Lin((long)digest_), nullptr, Seg::kStale, false);
      a.push_back(in.PtrVal(o, 0));
    } else {
      a.push_back(Seed(in));
    }
    auto r = in.Run(*prep_.m->getFunction(oneshot_), a, st);
    for (auto& s : r) Drop(s);
    return r;
  }
  std::vector<Piece> Output(Interp& in, St& st) {
    std::vector<Piece> out;
    if (kind_ == "dig") {
      for (auto& o : st.objs)
        if (o.name == "out")
          for (auto& s : o.segs) {
            Piece p;
            p.lo = s.lo, p.hi = s.hi;
            p.k = s.k == Seg::kCell ? Piece::kNode : s.k == Seg::kMsg ? Piece::kMsg : s.k == Seg::kFill ? Piece::kFill : Piece::kStale;
            if (s.k == Seg::kCell || s.k == Seg::kFill) p.node = in.AsNode(st, s.v);
            p.msg = s.msg;
            p.off = s.off;
            out.push_back(p);
          }
    } else {
      Piece p;
      p.lo = 0, p.hi = 8, p.k = Piece::kNode;
      p.node = in.AsNode(st, st.ret);
      out.push_back(p);
    }
    return out;
  }
};


// Compares expressions under the joint constraints of two states.
class Eq {
 public:
  Eq(Interp& in, Poly& p) : in_(in), p_(p) {}
  std::string why;
  Cmp Lins(const Lin& a, const Lin& b) {
    Lin d = p_.Reduce(a - b);
    if (d.IsConst()) return d.c == 0 ? kSame : kDiffer;
    if (p_.EntailsEq(d)) return kSame;
    Poly lo = p_, hi = p_;
    lo.AddGe(d - Lin(1));
    hi.AddGe(Lin(-1) - d);
    if (lo.HasIntegerPoint() || hi.HasIntegerPoint()) return kDiffer;
    return lo.IntegerFeasible() || hi.IntegerFeasible() ? kUnknown : kSame;
  }
  // Byte k of a piece list as (kind, node or message offset).
  Cmp Pieces(const std::vector<Piece>& a, const std::vector<Piece>& b) {
    Cmp r = kSame;
    for (auto& x : a)
      for (auto& y : b) {
        Lin xl = p_.Reduce(x.lo), xh = p_.Reduce(x.hi), yl = p_.Reduce(y.lo), yh = p_.Reduce(y.hi);
        if (xl.IsConst() && xh.IsConst() && yl.IsConst() && yh.IsConst()) {
          if (xh.c <= yl.c || yh.c <= xl.c) continue;
          if ((xl == yl && xh == yh && x.k == Piece::kNode && y.k == Piece::kNode) || (x.k == Piece::kMsg && y.k == Piece::kMsg) ||
              (x.k == Piece::kFill && y.k == Piece::kFill) || (xh.c - xl.c == 1 && yh.c - yl.c == 1)) {
            Cmp c = Byte(x, y, xl.c > yl.c ? xl : yl);
            if (c == kDiffer) return kDiffer;
            if (c == kUnknown) r = kUnknown;
            continue;
          }
        }
        Poly q = p_;
        int d = in_.NewDim();
        Lin k = Lin::Dim(d);
        q.AddGe(k - x.lo);
        q.AddGe(x.hi - Lin(1) - k);
        q.AddGe(k - y.lo);
        q.AddGe(y.hi - Lin(1) - k);
        if (!q.IntegerFeasible()) continue;
        Eq e(in_, q);
        e.known_ = known_;
        Cmp c = e.Byte(x, y, k);
        if (c == kDiffer && q.HasIntegerPoint()) { why = e.why; return kDiffer; }
        if (c != kSame) r = kUnknown, why = e.why;
      }
    return r;
  }
  // Adds the data conditions of both paths; false if they contradict. *tied: they are not plainly satisfiable together.
  bool Conditions(const St& a, const St& b, bool* tied) {
    std::map<int, bool> all;
    for (auto* s : {&a, &b})
      for (auto& [c, v] : s->assumed) {
        const int x = Simplify(c);
        const Node& n = in_.nodes[x];
        if (n.op == NConst) {
          if ((n.k != "0") != v) return false;
          continue;
        }
        auto it = all.emplace(x, v).first;
        if (it->second != v) return false;
      }
    std::set<int> bytes;
    for (auto& [c, v] : all) {
      if (!in_.FreeCondition(c, &bytes)) { *tied = true; continue; }
      const Node& n = in_.nodes[c];
      if (n.sub != 2000 + CmpInst::ICMP_EQ) { *tied = true; continue; }
      if (!v) continue;
      // Equal to a constant: the bytes are known.
      const bool left = in_.nodes[n.kids[0]].op == NConst;
      mpz_class k(in_.nodes[n.kids[left ? 0 : 1]].k);
      const int x = n.kids[left ? 1 : 0];
      const Node w = in_.nodes[x];
      std::vector<int> parts{x};
      if (w.op == NInst || w.op == NConcat) parts = w.kids;
      for (size_t i = 0; i < parts.size(); ++i)
        known_[parts[i]] = in_.ConstNode(parts.size() == 1 ? k : mpz_class((k >> (8 * i)) & 255), in_.nodes[parts[i]].width);
    }
    simp_.clear();
    memo_.clear();
    return true;
  }
  // The expression under the joint constraints: lengths that became known are folded.
  int Simplify(int id) {
    const Node n = in_.nodes[id];
    if ((n.op == NByte || n.op == NArg) && known_.size()) {
      Node m = n;
      if (n.op == NByte) m.lin = p_.Reduce(n.lin);
      auto k = known_.find(in_.nodes.Get(m));
      if (k != known_.end()) return k->second;
      k = known_.find(id);
      if (k != known_.end()) return k->second;
    }
    if (!n.lins && known_.empty()) return id;
    auto it = simp_.find(id);
    if (it != simp_.end()) return it->second;
    int r = id;
    if (n.op == NNum) {
      Lin l = p_.Reduce(n.lin);
      if (l.IsConst()) r = in_.ConstNode(l.c.get_num(), n.width);
      else if (n.kids.size()) r = Simplify(n.kids[0]), r = in_.nodes[r].op == NConst ? r : id;
    } else if (n.op == NByte) {
      Node m = n;
      m.lin = p_.Reduce(n.lin);
      r = in_.nodes.Get(m);
    } else if (n.op == NInst && n.kids.size() && n.sub >= 2000) {
      Node m = n;
      for (int& c : m.kids) c = Simplify(c);
      r = in_.nodes.Get(m);
    } else if (n.op == NInst && n.kids.size()) {
      std::vector<int> k;
      for (int c : n.kids) k.push_back(Simplify(c));
      if (k != n.kids) {
        bool comm = n.sub == Instruction::Add || n.sub == Instruction::Mul || n.sub == Instruction::And || n.sub == Instruction::Or ||
                    n.sub == Instruction::Xor;
        if (comm) {
          r = k[0];
          for (size_t i = 1; i < k.size(); ++i) r = in_.MkInst(n.sub, n.width, {r, k[i]});
        } else {
          r = in_.MkInst(n.sub, n.width, k);
        }
      }
    } else if (n.op == NExtract) {
      const int k = Simplify(n.kids[0]);
      if (k != n.kids[0]) r = in_.Extract(k, n.sub, n.width);
    } else if (n.op == NConcat) {
      std::vector<int> k;
      for (int c : n.kids) k.push_back(Simplify(c));
      if (k != n.kids && k.size() * 8 == n.width) r = in_.FromBytes(k);
    }
    return simp_[id] = r;
  }
  Cmp Nodes(int a, int b) {
    a = Simplify(a);
    b = Simplify(b);
    if (a == b) return kSame;
    auto key = std::make_pair(a, b);
    auto it = memo_.find(key);
    if (it != memo_.end()) return it->second;
    ++depth_;
    Cmp r = Nodes1(a, b);
    --depth_;
    if (r == kUnknown && depth_ == 0 && LeavesDiffer(a, b)) r = kDiffer;
    memo_[key] = r;
    if (r != kSame && why.empty()) why = in_.nodes.Str(a, 1) + " vs " + in_.nodes.Str(b, 1) + " given " + p_.Str();
    return r;
  }

 private:
  Interp& in_;
  Poly& p_;
  std::map<std::pair<int, int>, Cmp> memo_;
  std::map<int, int> simp_, known_;
  int depth_ = 0;

  bool Leaf(const Node& n) { return n.op == NConst || n.op == NByte || n.op == NNum || n.op == NStale || n.op == NArg; }
  Cmp Nodes1(int ia, int ib) {
    const Node a = in_.nodes[ia], b = in_.nodes[ib];
    if (a.width != b.width) return kUnknown;
    if (a.op == NStale || b.op == NStale) return a.op == b.op ? kUnknown : kDiffer;
    auto num = [](const Node& n, Lin* l) {
      if (n.op == NConst) { *l = Lin::Const(Q(mpz_class(n.k))); return true; }
      if (n.op == NNum) { *l = n.lin; return true; }
      return false;
    };
    Lin la, lb;
    bool na = num(a, &la), nb = num(b, &lb);
    if (a.op == NNum && b.op == NNum && a.kids.size() && b.kids.size() && Nodes(a.kids[0], b.kids[0]) == kSame) return kSame;
    if (na && nb) return Lins(la, lb);
    auto counted = [&](const Node& n, bool known) { return known || (n.op == NInst && n.numeric); };
    if (counted(a, na) && counted(b, nb) && !(a.op == b.op && a.sub == b.sub && a.kids == b.kids)) {
      // Parts of lengths: compare their values.
      St t;
      t.p = p_;
      struct Hold { bool& f; bool was = f; ~Hold() { f = was; } } hold{in_.splits};
      in_.splits = false;
      if (Value(t, ia, &la) && Value(t, ib, &lb)) {
        Eq e(in_, t.p);
        return e.Lins(la, lb);
      }
    }
    if (a.op == NByte && b.op == NByte) return a.sub != b.sub ? kDiffer : Lins(a.lin, b.lin);
    if (Leaf(a) && Leaf(b)) return kDiffer;
    if (a.op == NFold && b.op == NFold && a.sub == b.sub) return Lins(a.lin, b.lin);
    if (a.op == NOpaque || b.op == NOpaque) return kUnknown;
    if (a.op == NRange && b.op == NRange) return Pieces(a.pieces, b.pieces);
    if (a.op == NKernel && b.op == NKernel && a.k != b.k && (SpecName(a.k) != SpecName(b.k)))
      return SpecName(a.k) ? SpecKernel(a, b) : SpecKernel(b, a);
    if (a.op != b.op || a.sub != b.sub || a.k != b.k || a.kids.size() != b.kids.size()) {
      // Chained block functions of different depth over the same message.
      if ((a.op == NKOut || a.op == NConst) && (b.op == NKOut || b.op == NConst)) {
        if (a.op == NKOut && b.op == NKOut && in_.nodes[a.kids[0]].k != in_.nodes[b.kids[0]].k && !SpecName(in_.nodes[a.kids[0]].k) &&
            !SpecName(in_.nodes[b.kids[0]].k))
          return kUnknown;
        return a.sub != b.sub && a.op == b.op ? kUnknown : kDiffer;
      }
      return kUnknown;
    }
    if (a.op == NInst && (a.sub == Instruction::Add || a.sub == Instruction::Mul || a.sub == Instruction::And || a.sub == Instruction::Or ||
                          a.sub == Instruction::Xor)) {
      // Operands of a commutative operation may be stored in any order.
      std::vector<int> rest = b.kids, left, mine;
      for (int k : a.kids) {
        auto it = std::find(rest.begin(), rest.end(), k);
        if (it != rest.end()) rest.erase(it);
        else mine.push_back(k);
      }
      if (mine.size() > 12) return kUnknown;
      for (int k : mine) {
        bool hit = false;
        for (size_t i = 0; i < rest.size() && !hit; ++i) {
          std::string keep = why;
          Cmp c = Nodes(k, rest[i]);
          why = keep;
          if (c == kSame) rest.erase(rest.begin() + i), hit = true;
        }
        if (!hit) left.push_back(k);
      }
      if (left.empty()) return kSame;
      if (left.size() != 1) return kUnknown;
      Cmp one = Nodes(left[0], rest[0]);
      if (one != kDiffer || a.sub == Instruction::Add || a.sub == Instruction::Xor) return one;
      if (a.sub != Instruction::Mul) return kUnknown;
      for (int k : a.kids)
        if (in_.nodes[k].op == NConst && mpz_even_p(mpz_class(in_.nodes[k].k).get_mpz_t())) return kUnknown;
      return one;
    }
    Cmp r = kSame;
    int differ = 0;
    for (size_t i = 0; i < a.kids.size(); ++i) {
      Cmp c = Nodes(a.kids[i], b.kids[i]);
      if (c == kDiffer) ++differ;
      else if (c == kUnknown) r = kUnknown;
    }
    if (!differ) return r;
    // Injective in each argument: block functions, concatenations, bijective word operations with the other side equal.
    if (a.op == NKernel || a.op == NKOut || a.op == NConcat) return kDiffer;
    // A byte of a block function's result stands for the result.
    if (a.op == NExtract && in_.nodes[Simplify(a.kids[0])].op == NKOut && in_.nodes[Simplify(b.kids[0])].op == NKOut) return kDiffer;
    return r == kSame && a.op == NInst && Injective(a, b, differ) ? kDiffer : kUnknown;
  }
  // The value of an expression over lengths, by quotients and remainders.
  bool Value(St& t, int id, Lin* out) {
    const Node n = in_.nodes[id];
    if (n.op == NNum) { *out = t.p.Reduce(n.lin); return true; }
    if (n.op == NConst) { *out = Lin::Const(Q(mpz_class(n.k))); return true; }
    if (n.op != NInst || !n.numeric || n.kids.empty()) return false;
    Lin x, q, r;
    if (!Value(t, n.kids[0], &x)) return false;
    switch (n.sub) {
      case Instruction::LShr: {
        const Node c = in_.nodes[n.kids[1]];
        if (c.op != NConst || mpz_class(c.k) >= n.width) return false;
        in_.DivMod(t, x, mpz_class(1) << mpz_class(c.k).get_ui(), out, &r);
        return true;
      }
      case Instruction::Trunc:
        in_.DivMod(t, x, mpz_class(1) << n.width, &q, out);
        return true;
      case Instruction::ZExt: *out = x; return true;
      default: return false;
    }
  }
  // Different arguments give different results.
  bool Injective(const Node& a, const Node& b, int differ) {
    if (a.sub == 1000 + (int)Intrinsic::fshl || a.sub == 1000 + (int)Intrinsic::fshr)
      return differ == 2 && a.kids[0] == a.kids[1] && b.kids[0] == b.kids[1] && a.kids[2] == b.kids[2];
    if (differ != 1) return false;
    switch (a.sub) {
      case Instruction::Sub: case Instruction::ZExt: case Instruction::SExt: return true;
      default: break;
    }
    if (a.sub == 1000 + (int)Intrinsic::bswap || a.sub == 1000 + (int)Intrinsic::bitreverse) return true;
    return false;
  }
  static bool SpecName(const std::string& n) { return StringRef(n).starts_with("vp_spec_"); }
  // A block function of the specification against one of the library: ranges match by size, scalars by position; a boolean scalar
  // may be encoded by any two distinct values.
  Cmp SpecKernel(const Node& s, const Node& l) {
    std::vector<int> sr, ss, lr, ls;
    auto split = [&](const Node& n, std::vector<int>& r, std::vector<int>& v) {
      for (int k : n.kids) (in_.nodes[k].op == NRange ? r : v).push_back(k);
    };
    split(s, sr, ss);
    split(l, lr, ls);
    auto size = [&](int r) {
      Q hi = 0;
      for (auto& p : in_.nodes[r].pieces) {
        Lin h = p_.Reduce(p.hi);
        if (h.IsConst() && h.c > hi) hi = h.c;
      }
      return hi;
    };
    if (sr.size() != lr.size() || ss.size() != ls.size()) { why = "block functions of different shape"; return kUnknown; }
    std::sort(sr.begin(), sr.end(), [&](int x, int y) { return size(x) < size(y); });
    std::sort(lr.begin(), lr.end(), [&](int x, int y) { return size(x) < size(y); });
    Cmp r = kSame;
    bool differ = false;
    for (size_t i = 0; i < sr.size(); ++i) {
      if (size(sr[i]) != size(lr[i])) { why = "block functions of different shape"; return kUnknown; }
      Cmp c = Nodes(sr[i], lr[i]);
      if (c == kDiffer) differ = true;
      if (c == kUnknown) r = kUnknown;
    }
    for (size_t i = 0; i < ss.size(); ++i) {
      const Node x = in_.nodes[Simplify(ss[i])], y = in_.nodes[Simplify(ls[i])];
      if (x.op == NConst && y.op == NConst && x.width == 1) {
        auto& m = in_.spec_flags[l.k + "#" + std::to_string(i)];
        auto it = m.emplace(x.k, y.k).first;
        auto o = m.find(x.k == "0" ? "1" : "0");
        if (it->second != y.k || (o != m.end() && o->second == y.k)) { differ = true; why = "last-block flag"; }
        continue;
      }
      if (x.op == NConst && y.op == NConst) {
        if (x.k != y.k) { differ = true; why = "block parameter " + std::to_string(i) + " is " + y.k + " instead of " + x.k; }
        continue;
      }
      Cmp c = Nodes(ss[i], ls[i]);
      if (c == kDiffer) differ = true;
      if (c == kUnknown) r = kUnknown;
    }
    return differ ? kDiffer : r;
  }
  // Independent inputs an expression is built from.
  void Leaves(int id, std::set<std::pair<int, Lin>>& out, std::set<int>& seen) {
    id = Simplify(id);
    if (!seen.insert(id).second) return;
    const Node n = in_.nodes[id];
    if (n.op == NByte) out.insert({n.sub, p_.Reduce(n.lin)});
    if (n.op == NFold) out.insert({-1 - n.sub, p_.Reduce(n.lin)});
    for (int k : n.kids) Leaves(k, out, seen);
  }
  bool HasRange(int id, std::set<int>& seen) {
    if (!seen.insert(id).second) return false;
    const Node& n = in_.nodes[id];
    if (n.op == NRange || n.op == NOpaque || n.op == NStale) return true;
    for (int k : n.kids)
      if (HasRange(k, seen)) return true;
    return false;
  }
  bool LeavesDiffer(int a, int b) {
    std::set<int> sa, sb;
    if (HasRange(a, sa) || HasRange(b, sb)) return false;
    std::set<std::pair<int, Lin>> la, lb;
    sa.clear();
    sb.clear();
    Leaves(a, la, sa);
    Leaves(b, lb, sb);
    auto missing = [&](const std::set<std::pair<int, Lin>>& x, const std::set<std::pair<int, Lin>>& y) {
      for (auto& l : x) {
        if (y.count(l)) continue;
        bool all = true;
        for (auto& m : y)
          if (m.first == l.first && Lins(l.second, m.second) != kDiffer) { all = false; break; }
        if (all) {
          why = (l.first >= 0 ? "message byte " : "chaining word ") + l.second.Str() + " enters only one of the two results";
          return true;
        }
      }
      return false;
    };
    return missing(la, lb) || missing(lb, la);
  }
  Cmp Byte(const Piece& x, const Piece& y, const Lin& k) {
    auto cell = [&](const Piece& p, int* n) {  // single-byte constant view
      if (p.k == Piece::kFill) { *n = p.node; return true; }
      return false;
    };
    if (x.k == Piece::kStale || y.k == Piece::kStale) {
      if (x.k == y.k) return kUnknown;
      why = "bytes that were never written";
      return kDiffer;
    }
    if (x.k == Piece::kMsg && y.k == Piece::kMsg) {
      if (x.msg != y.msg) return kDiffer;
      Cmp c = Lins(x.off, y.off);
      if (c != kSame) why = "message byte " + (x.off + k).Str() + " vs " + (y.off + k).Str() + " given " + p_.Str();
      return c;
    }
    int a, b;
    if (cell(x, &a) && cell(y, &b)) return Nodes(a, b);
    if (x.k == Piece::kNode && y.k == Piece::kNode && p_.EntailsEq(x.lo - y.lo) && p_.EntailsEq(x.hi - y.hi)) return Nodes(x.node, y.node);
    // Byte of a word against a byte: only constants and concatenations are split.
    auto byte = [&](const Piece& p) -> int {
      if (p.k == Piece::kFill) return p.node;
      if (p.k == Piece::kMsg) {
        Node n;
        n.op = NByte;
        n.sub = p.msg;
        n.width = 8;
        n.lin = p_.Reduce(p.off + k);
        return in_.nodes.Get(n);
      }
      const Node& w = in_.nodes[p.node];
      if (w.width == 8) return p.node;
      Lin d = p_.Reduce(k - p.lo);
      if (!d.IsConst()) return -1;
      long i = d.c.get_num().get_si();
      return in_.Extract(p.node, i, 8);
    };
    Lin dx = p_.Reduce(k - x.lo);
    bool split = (x.k == Piece::kNode && in_.nodes[x.node].width > 8) || (y.k == Piece::kNode && in_.nodes[y.node].width > 8);
    if (split && !dx.IsConst()) {
      // enumerate the bytes of the word
      const Piece& w = x.k == Piece::kNode && in_.nodes[x.node].width > 8 ? x : y;
      Cmp r = kSame;
      for (unsigned i = 0; i < in_.nodes[w.node].width / 8; ++i) {
        Poly q = p_;
        q.AddEq(k - w.lo - Lin((long)i));
        if (!q.IntegerFeasible()) continue;
        Eq e(in_, q);
        e.known_ = known_;
        Cmp c = e.Byte(x, y, q.Reduce(k));
        if (c != kSame && why.empty()) why = e.why;
        if (c == kDiffer && q.HasIntegerPoint()) return kDiffer;
        if (c != kSame) r = kUnknown;
      }
      return r;
    }
    int p = byte(x), q = byte(y);
    if (p < 0 || q < 0) { why = "partial word"; return kUnknown; }
    return Nodes(p, q);
  }
};

// The value of a term for one assignment of the message bytes and arguments it is built from; only terms without uninterpreted parts
// have one. Two normal forms that differ in shape denote different functions when some assignment tells them apart.
class Valuation {
 public:
  Valuation(Interp& in, const Poly& p, int seed) : in_(in), p_(p), seed_(seed) {}
  bool Get(int id, mpz_class* out) {
    auto it = memo_.find(id);
    if (it == memo_.end()) {
      std::pair<bool, mpz_class> r{false, 0};
      r.first = Eval(in_.nodes[id], id, &r.second);
      if (r.first) {
        mpz_class m = mpz_class(1) << in_.nodes[id].width;
        mpz_fdiv_r(r.second.get_mpz_t(), r.second.get_mpz_t(), m.get_mpz_t());
      }
      it = memo_.emplace(id, r).first;
    }
    *out = it->second.second;
    return it->second.first;
  }
  bool Byte(int msg, const Lin& at, mpz_class* out) {
    Lin l = p_.Reduce(at);
    if (!l.IsConst()) return false;
    const unsigned long key = mpz_class(l.c.get_num()).get_ui() * 131 + msg * 7919 + 17;
    auto f = bytes_.find(key);
    *out = f != bytes_.end() ? f->second : Leaf(key, 8);
    return true;
  }
  // The bytes of a result; false where a byte has no value.
  bool Bytes(const std::vector<Piece>& ps, std::map<long, mpz_class>* out) {
    for (auto& x : ps) {
      Lin lo = p_.Reduce(x.lo), hi = p_.Reduce(x.hi);
      if (!lo.IsConst() || !hi.IsConst()) return false;
      const long l = lo.c.get_num().get_si(), h = hi.c.get_num().get_si();
      mpz_class v;
      if ((x.k == Piece::kNode || x.k == Piece::kFill) && (x.node < 0 || (l < h && !Get(x.node, &v)))) return false;
      for (long i = l; i < h; ++i) switch (x.k) {
          case Piece::kNode: (*out)[i] = (v >> (8 * (i - l))) & 255; break;
          case Piece::kFill: (*out)[i] = v & 255; break;
          case Piece::kMsg:
            if (!Byte(x.msg, x.off + Lin(i), &v)) return false;
            (*out)[i] = v;
            break;
          default: return false;
        }
    }
    return true;
  }
  // Chooses variables so that a condition of the form "term = constant" holds where its shape allows.
  void Direct(const St& s) {
    for (auto& [c, want] : s.assumed) {
      const Node& n = in_.nodes[c];
      if (n.op != NInst || n.sub < 2000 || n.kids.size() != 2) continue;
      const bool left = in_.nodes[n.kids[0]].op == NConst;
      if (!left && in_.nodes[n.kids[1]].op != NConst) continue;
      const int x = n.kids[left ? 1 : 0];
      const mpz_class k(in_.nodes[n.kids[left ? 0 : 1]].k), top = (mpz_class(1) << in_.nodes[x].width) - 1;
      const int pred = left ? CmpInst::getSwappedPredicate((CmpInst::Predicate)(n.sub - 2000)) : n.sub - 2000;
      switch (pred) {
        case CmpInst::ICMP_EQ: Fix(x, want ? k : mpz_class(k ^ 1)); break;
        case CmpInst::ICMP_NE: Fix(x, want ? mpz_class(k ^ 1) : k); break;
        case CmpInst::ICMP_ULT: if (want ? k > 0 : true) Fix(x, want ? mpz_class(k - 1) : k); break;
        case CmpInst::ICMP_UGT: if (want ? k < top : true) Fix(x, want ? mpz_class(k + 1) : k); break;
        default: break;
      }
    }
    memo_.clear();
  }
  void Fix(int id, mpz_class v) {
    const Node n = in_.nodes[id];
    const mpz_class top = (mpz_class(1) << n.width) - 1;
    auto last = [&](int* rest) {  // the one operand that is not constant
      *rest = -1;
      for (int k : n.kids)
        if (in_.nodes[k].op != NConst) {
          if (*rest >= 0) return false;
          *rest = k;
        }
      return *rest >= 0;
    };
    int r;
    if (n.op == NByte) {
      Lin l = p_.Reduce(n.lin);
      if (l.IsConst()) bytes_.emplace(mpz_class(l.c.get_num()).get_ui() * 131 + n.sub * 7919 + 17, v & 255);
    } else if (n.op == NArg) {
      args_.emplace(id, v);
    } else if (n.op == NConcat) {
      for (int k : n.kids) {
        Fix(k, v & 255);
        v >>= 8;
      }
    } else if (n.op == NInst && (n.sub == Instruction::ZExt || n.sub == Instruction::Trunc)) {
      Fix(n.kids[0], v);
    } else if (n.op == NInst && ((n.sub == Instruction::Or && v == 0) || (n.sub == Instruction::And && v == top))) {
      for (int k : n.kids) Fix(k, v);
    } else if (n.op == NInst && (n.sub == Instruction::Xor || n.sub == Instruction::Add) && last(&r)) {
      for (int k : n.kids)
        if (k != r) v = n.sub == Instruction::Xor ? mpz_class(v ^ mpz_class(in_.nodes[k].k)) : mpz_class((v - mpz_class(in_.nodes[k].k)) & top);
      Fix(r, v);
    } else if (n.op == NInst && n.sub == Instruction::And && last(&r)) {
      Fix(r, v);
    } else if (n.op == NInst && n.sub == Instruction::LShr && in_.nodes[n.kids[1]].op == NConst) {
      Fix(n.kids[0], (v << mpz_class(in_.nodes[n.kids[1]].k).get_ui()) & top);
    } else if (n.op == NInst && n.sub == Instruction::Xor && v == 0 && n.kids.size() == 2) {
      mpz_class x;
      memo_.clear();
      if (Get(n.kids[0], &x)) Fix(n.kids[1], x);
    } else if (n.op == NInst && n.sub == 1000 + (int)Intrinsic::bswap) {
      mpz_class x = 0;
      for (unsigned i = 0; i < n.width; i += 8) x = (x << 8) | ((v >> i) & 255);
      Fix(n.kids[0], x);
    } else if (n.op == NInst && (n.sub == 1000 + (int)Intrinsic::fshl || n.sub == 1000 + (int)Intrinsic::fshr) && n.kids[0] == n.kids[1] &&
               in_.nodes[n.kids[2]].op == NConst) {
      unsigned long c = mpz_class(mpz_class(in_.nodes[n.kids[2]].k) % n.width).get_ui();
      if (n.sub == 1000 + (int)Intrinsic::fshl) c = n.width - c;
      Fix(n.kids[0], ((v << c) | (v >> (n.width - c))) & top);
    }
  }
  // Whether the assignment takes the path of this state.
  bool Takes(const St& s, Poly& q) {
    mpz_class v;
    for (auto& [c, want] : s.assumed)
      if (!Get(c, &v) || (v != 0) != want) return false;
    for (auto& [n, d] : s.node_dim) {
      if (!Get(n, &v)) return false;
      q.AddEq(Lin::Dim(d) - Lin::Const(Q(v)));
    }
    return true;
  }

 private:
  mpz_class Leaf(unsigned long key, unsigned w) {
    if (seed_ == 0) return 0;
    if (seed_ == 1) return (mpz_class(1) << w) - 1;
    mpz_class r = 0;
    for (unsigned i = 0; i < w; i += 32) {
      uint64_t x = key * 0x9e3779b97f4a7c15ull + seed_ * 0xbf58476d1ce4e5b9ull + i;
      x ^= x >> 29, x *= 0x94d049bb133111ebull, x ^= x >> 32, x *= 0xbf58476d1ce4e5b9ull, x ^= x >> 31;
      r = (r << 32) | (unsigned long)(x & 0xffffffff);
    }
    return r & ((mpz_class(1) << w) - 1);
  }
  bool Eval(const Node& n, int id, mpz_class* out) {
    std::vector<mpz_class> k;
    switch (n.op) {
      case NConst: *out = mpz_class(n.k); return true;
      case NByte: return Byte(n.sub, n.lin, out);
      case NArg: {
        auto f = args_.find(id);
        *out = f != args_.end() ? f->second : Leaf(1000003ul * id + 5, n.width);
        return true;
      }
      case NNum: {
        Lin l = p_.Reduce(n.lin);
        if (!l.IsConst()) return false;
        *out = l.c.get_num();
        return true;
      }
      case NConcat: case NExtract: case NInst: break;
      default: return false;
    }
    for (int c : n.kids) {
      mpz_class v;
      if (!Get(c, &v)) return false;
      k.push_back(v);
    }
    const unsigned w = n.width;
    if (n.op == NConcat) {
      *out = 0;
      for (size_t i = k.size(); i-- > 0;) *out = (*out << in_.nodes[n.kids[i]].width) | k[i];
      return true;
    }
    if (n.op == NExtract) { *out = k[0] >> (8 * n.sub); return true; }
    mpz_class r = k[0];
    const unsigned kw = in_.nodes[n.kids[0]].width;
    auto fold = [&](auto f) {
      for (size_t i = 1; i < k.size(); ++i) r = f(r, k[i]);
      *out = r;
      return true;
    };
    auto sign = [&](mpz_class v) { return v >= (mpz_class(1) << (kw - 1)) ? mpz_class(v - (mpz_class(1) << kw)) : v; };
    switch (n.sub) {
      case Instruction::Add: return fold([](auto& a, auto& b) { return mpz_class(a + b); });
      case Instruction::Mul: return fold([](auto& a, auto& b) { return mpz_class(a * b); });
      case Instruction::And: return fold([](auto& a, auto& b) { return mpz_class(a & b); });
      case Instruction::Or: return fold([](auto& a, auto& b) { return mpz_class(a | b); });
      case Instruction::Xor: return fold([](auto& a, auto& b) { return mpz_class(a ^ b); });
      case Instruction::Sub: *out = k[0] - k[1]; return true;
      case Instruction::ZExt: case Instruction::Trunc: *out = k[0]; return true;
      case Instruction::SExt: *out = sign(k[0]); return true;
      case Instruction::Select: *out = k[0] != 0 ? k[1] : k[2]; return true;
      default: break;
    }
    if (n.sub == Instruction::Shl || n.sub == Instruction::LShr || n.sub == Instruction::AShr) {
      if (k[1] >= w) return false;
      const unsigned long c = k[1].get_ui();
      *out = n.sub == Instruction::Shl ? mpz_class(k[0] << c) : n.sub == Instruction::LShr ? mpz_class(k[0] >> c) : mpz_class(sign(k[0]) >> c);
      return true;
    }
    if (n.sub == Instruction::UDiv || n.sub == Instruction::URem) {
      if (k[1] == 0) return false;
      *out = n.sub == Instruction::UDiv ? mpz_class(k[0] / k[1]) : mpz_class(k[0] % k[1]);
      return true;
    }
    if (n.sub >= 2000) {
      mpz_class a = k[0], b = k[1];
      switch (n.sub - 2000) {
        case CmpInst::ICMP_SGT: case CmpInst::ICMP_SGE: case CmpInst::ICMP_SLT: case CmpInst::ICMP_SLE: a = sign(a), b = sign(b); break;
        default: break;
      }
      switch (n.sub - 2000) {
        case CmpInst::ICMP_EQ: *out = a == b; return true;
        case CmpInst::ICMP_NE: *out = a != b; return true;
        case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: *out = a > b; return true;
        case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: *out = a >= b; return true;
        case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: *out = a < b; return true;
        case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: *out = a <= b; return true;
        default: return false;
      }
    }
    if (n.sub == 1000 + (int)Intrinsic::fshl || n.sub == 1000 + (int)Intrinsic::fshr) {
      const unsigned long c = mpz_class(k[2] % w).get_ui();
      const mpz_class both = (k[0] << w) | k[1];
      *out = n.sub == 1000 + (int)Intrinsic::fshl ? mpz_class((both << c) >> w) : mpz_class(both >> c);
      return true;
    }
    if (n.sub == 1000 + (int)Intrinsic::bswap) {
      *out = 0;
      for (unsigned i = 0; i < w; i += 8) *out = (*out << 8) | ((k[0] >> i) & 255);
      return true;
    }
    if (n.sub == 1000 + (int)Intrinsic::umin || n.sub == 1000 + (int)Intrinsic::umax) {
      *out = (k[0] < k[1]) == (n.sub == 1000 + (int)Intrinsic::umin) ? k[0] : k[1];
      return true;
    }
    return false;
  }
  Interp& in_;
  const Poly& p_;
  int seed_;
  std::map<unsigned long, mpz_class> bytes_;
  std::map<int, mpz_class> args_;
  std::map<int, std::pair<bool, mpz_class>> memo_;
};

// Normal forms of different shape: whether some assignment on both paths tells them apart.
static bool ToldApart(Session& s, Interp& in, const Poly& p, St& a, St& b, std::string* why) {
  auto x = s.Output(in, a), y = s.Output(in, b);
  for (int seed = 0; seed < 6; ++seed) {
    Valuation v(in, p, seed);
    v.Direct(a);
    v.Direct(b);
    std::map<long, mpz_class> xs, ys;
    if (!v.Bytes(x, &xs) || !v.Bytes(y, &ys)) {
      if (seed >= 2) return false;
      continue;
    }
    Poly q = p;
    if (xs == ys || !v.Takes(a, q) || !v.Takes(b, q) || !q.HasIntegerPoint()) continue;
    for (auto& [i, c] : xs)
      if (!ys.count(i) || ys[i] != c) {
        *why = "the normal forms of result byte " + std::to_string(i) + " differ (e.g. for " +
               (seed == 0 ? "all-zero" : seed == 1 ? "all-ones" : "generic") + " input)";
        return true;
      }
  }
  return false;
}

struct Mismatch { Cmp c = kSame; std::string why; long pairs = 0; };

// Compares two families of results over the same message length.
static Mismatch Compare(Session& s, Interp& in, std::vector<St>& as, std::vector<St>& bs) {
  Mismatch r;
  for (auto& a : as)
    for (auto& b : bs) {
      in.Tick();
      Poly p = a.p;
      // b's dimensions are distinct from a's by construction.
      for (auto& [d, e] : b.p.eq) p.AddEq(Lin::Dim(d) - e);
      for (auto& g : b.p.ge) p.AddGe(g);
      p.AddEq(s.H(a) - s.H(b));
      if (!p.IntegerFeasible()) continue;
      Eq e(in, p);
      bool tied = false;
      if (!e.Conditions(a, b, &tied)) continue;
      ++r.pairs;
      Cmp c = e.Pieces(s.Output(in, a), s.Output(in, b));
      if (c == kDiffer && getenv("VP_WHY")) errs() << "DEMOTE? tied " << tied << " exact " << a.exact << b.exact << " point " << p.HasIntegerPoint() << "\n";
      if (c == kDiffer && !(!tied && a.exact && b.exact && p.HasIntegerPoint())) c = kUnknown;
      if (c == kUnknown && !a.loose && !b.loose && ToldApart(s, in, p, a, b, &e.why)) c = kDiffer;
      if (c != kSame && getenv("VP_DIFF")) {
        errs() << "PAIR " << p.Str() << "\n";
        for (auto& x : s.Output(in, a)) errs() << "  A " << (x.node >= 0 ? in.nodes.Str(e.Simplify(x.node), atoi(getenv("VP_DIFF"))) : "-") << "\n";
        for (auto& x : s.Output(in, b)) errs() << "  B " << (x.node >= 0 ? in.nodes.Str(e.Simplify(x.node), atoi(getenv("VP_DIFF"))) : "-") << "\n";
      }
      if (c == kDiffer) { r.c = kDiffer, r.why = e.why; return r; }
      if (c == kUnknown && r.c == kSame) r.c = kUnknown, r.why = e.why;
    }
  return r;
}

static void Dump(Interp& in, St& st) {
  errs() << "  " << st.p.Str() << (st.exact ? "" : " (joined)") << "\n";
  for (auto& o : st.objs) {
    errs() << "    " << o.name << ":";
    for (auto& s : o.segs) {
      errs() << " [" << s.lo.Str() << "," << s.hi.Str() << ")";
      if (s.k == Seg::kCell) errs() << (s.v.k == Val::kNum ? "num " + s.v.l.Str() : s.v.k == Val::kNode ? in.nodes.Str(s.v.node, 2) : "?");
      if (s.k == Seg::kMsg) errs() << "M" << s.msg << "+" << s.off.Str();
      if (s.k == Seg::kFill) errs() << "fill " << s.v.l.Str();
      if (s.k == Seg::kStale) errs() << "stale";
    }
    errs() << "\n";
  }
}


class Runner {
 public:
  Runner(Session& s, Report& rep, const std::string& alg) : s_(s), rep_(rep), alg_(alg), in_(*s.prep_.m, s.prep_.kernels) {
    in_.alarm = true;
    in_.peel = 2;
    in_.max_steps = 1L << 40;
  }
  Session& s_;
  Report& rep_;
  std::string alg_;
  Interp in_;
  // Scenarios that take too long stay undecided; what was found until then counts.
  static std::chrono::steady_clock::time_point End() {
    long s = getenv("VP_BUDGET") ? atol(getenv("VP_BUDGET")) : 3600;
    if (auto* d = getenv("VP_DEADLINE")) s = std::min<long>(s, atol(d) - (long)time(nullptr));
    return std::chrono::steady_clock::now() + std::chrono::seconds(s);
  }
  std::chrono::steady_clock::time_point end_ = End();
  std::chrono::seconds each_{getenv("VP_EACH") ? atoi(getenv("VP_EACH")) : 3600};
  long scenarios = 0, decided = 0, pairs = 0;
  std::set<std::string> bad_rules;

  // Where the library implements the entry.
  std::pair<std::string, std::string> Place(const std::string& entry) {
    if (Function* f = s_.prep_.m->getFunction(entry))
      for (auto& i : instructions(*f))
        for (DILocation* l = i.getDebugLoc().get(); l; l = l->getInlinedAt()) {
          auto* sp = l->getScope()->getSubprogram();
          std::string file = ShortPath(l->getFilename());
          if (StringRef(file).contains("mbo/"))
            return {file + ":" + std::to_string(l->getLine()), Demangled(sp->getLinkageName())};
        }
    return {"?", entry};
  }
  void Take(const std::string& rule, const std::string& entry, const std::string& label, const Mismatch& m) {
    pairs += m.pairs;
    if (m.c == kSame && m.pairs) { ++decided; return; }
    json::Object o{{"rule", rule}, {"entry", entry}, {"algorithm", alg_}, {"what", label + ": " + (m.pairs ? m.why : "no comparable results")}};
    if (m.c == kDiffer) {
      if (!bad_rules.insert(rule).second) return;
      auto [w, f] = Place(entry);
      o["where"] = w;
      o["function"] = f;
      rep_.Viol(std::move(o));
    } else {
      rep_.Undec(std::move(o));
    }
  }
  template<typename F>
  void Scenario(const std::string& rule, const std::string& label, F f) {
    ++scenarios;
    in_.states = 0;
    auto t0 = std::chrono::steady_clock::now();
    in_.deadline = std::min(end_, t0 + each_);
    struct Report_ {
      const std::string& l;
      std::chrono::steady_clock::time_point t;
      ~Report_() {
        double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
        if (getenv("VP_TIME") && d > 0.3) errs() << "time " << (long)(d * 1000) << " ms " << l << "\n";
      }
    } timer{label, t0};
    try {
      f();
    } catch (Unsupported& e) {
      rep_.Undec(json::Object{{"rule", rule}, {"algorithm", alg_}, {"what", label + ": " + e.what + " in " + in_.entry}});
    }
  }
  Lin Sym(St& st, long lo, long hi) {
    Lin l = Lin::Dim(in_.NewDim());
    st.p.AddGe(l - Lin(lo));
    if (hi >= 0) st.p.AddGe(Lin(hi) - l);
    else s_.Bound(st, l);
    return l;
  }
  std::vector<St> Updates(const std::vector<St>& from, long lo, long hi, const std::string& fn = "") {
    std::vector<St> r;
    for (auto& st : from) {
      St x = st;
      Lin l = lo == hi ? Lin(lo) : Sym(x, lo, hi);
      for (auto& y : s_.Update(in_, x, l, fn)) r.push_back(std::move(y));
    }
    return r;
  }
  std::vector<St> Finals(const std::vector<St>& from, const std::string& fn = "") {
    std::vector<St> r;
    for (auto& st : from)
      for (auto& y : s_.Final(in_, st, fn)) r.push_back(std::move(y));
    return r;
  }
  std::vector<St> One(long n) {
    St st = s_.Fresh(in_);
    Lin l = n < 0 ? Sym(st, 0, -1) : Lin(n);
    return s_.OneShot(in_, l, st);
  }
  const std::vector<St>& Init() {
    if (init_.empty()) init_ = s_.Init(in_);
    return init_;
  }
  // The result after a fixed number of bytes in one update.
  std::vector<St>& Ref(long n) {
    auto it = ref_.find(n);
    if (it == ref_.end()) it = ref_.emplace(n, Finals(Updates(Init(), n, n))).first;
    return it->second;
  }
  const std::vector<St>& After(long n) {
    auto it = after_.find(n);
    if (it == after_.end()) it = after_.emplace(n, Updates(Init(), n, n)).first;
    return it->second;
  }

  // ---- the state after q blocks, for every q
  struct General {
    bool ok = false;
    std::string why;
    St st;
    Lin q;
    long pending = 0;                                    // message bytes still held
    std::vector<std::tuple<long, long, int, int>> folds;  // lo, hi, word index, width
  };
  General Generalise(long block, long k0) {
    General g;
    std::vector<St> s;
    for (long k = k0; k < k0 + 3; ++k) {
      auto r = After(k * block);
      if (r.size() != 1) { g.why = "several states after a fixed length"; return g; }
      s.push_back(r[0]);
    }
    auto segs = [](St& x) -> std::vector<Seg>& { return x.objs[Session::kState].segs; };
    auto& a = segs(s[0]);
    for (auto& x : s)
      if (segs(x).size() != a.size()) { g.why = "the layout of the state changes with the length"; return g; }
    g.st = s[0];
    g.st.p = Poly();
    g.q = Lin::Dim(in_.NewDim());
    g.st.p.AddGe(g.q - Lin(k0));
    s_.Bound(g.st, g.q.Times(Q(block)) + Lin(100000));
    g.st.p.AddGe(g.q);
    s_.SetH(g.st, g.q.Times(Q(block)));
    auto& out = segs(g.st);
    int next = 1000;
    for (size_t i = 0; i < a.size(); ++i) {
      auto &x = a[i], &y = segs(s[1])[i], &z = segs(s[2])[i];
      if (!(x.lo == y.lo) || !(x.hi == y.hi) || !(x.lo == z.lo) || !(x.hi == z.hi) || x.k != y.k || x.k != z.k || !x.lo.IsConst() ||
          !x.hi.IsConst()) {
        g.why = "the layout of the state changes with the length";
        return g;
      }
      auto fit = [&](const Lin& l0, const Lin& l1, const Lin& l2, Lin* r) {
        if (!l0.IsConst() || !l1.IsConst() || !l2.IsConst()) return false;
        Q b = l1.c - l0.c;
        if (l2.c - l1.c != b) return false;
        *r = g.q.Times(b) + Lin::Const(l0.c - b * k0);
        return true;
      };
      if (x.k == Seg::kMsg) {
        if (x.msg != y.msg || !fit(x.off, y.off, z.off, &out[i].off)) { g.why = "buffered bytes"; return g; }
        g.pending += mpz_class((x.hi - x.lo).c).get_si();
      } else if (x.k == Seg::kCell || x.k == Seg::kFill) {
        auto num = [&](St& st, const Seg& c, Lin* l) {
          if (c.v.k == Val::kNum) { *l = c.v.l; return true; }
          if (c.v.k == Val::kNode && in_.nodes[c.v.node].op == NConst) { *l = Lin::Const(Q(mpz_class(in_.nodes[c.v.node].k))); return true; }
          if (c.v.k == Val::kNode && in_.nodes[c.v.node].op == NNum) { *l = in_.nodes[c.v.node].lin; return l->IsConst(); }
          return false;
        };
        Lin l0, l1, l2, r;
        if (num(s[0], x, &l0) && num(s[1], y, &l1) && num(s[2], z, &l2)) {
          if (!fit(l0, l1, l2, &r)) { g.why = "a counter that is not affine in the length"; return g; }
          out[i].v = in_.NumVal(r, x.v.w ? x.v.w : 8 * mpz_class((x.hi - x.lo).c).get_ui());
          if (!r.IsConst()) {
            g.st.p.AddGe(r);
            Q top((mpz_class(1) << (8 * mpz_class((x.hi - x.lo).c).get_ui())) - 1);
            g.st.p.AddGe(Lin::Const(top) - r);
          }
          continue;
        }
        if (x.k == Seg::kCell && x.v.k == Val::kNode && y.v.k == Val::kNode && z.v.k == Val::kNode) {
          if (x.v.node == y.v.node && y.v.node == z.v.node) continue;
          const Node& n = in_.nodes[x.v.node];
          if (n.msg) {
            Node f;
            f.op = NFold;
            f.sub = n.op == NKOut ? n.sub : next++;
            f.width = n.width;
            f.lin = g.q;
            out[i].v = in_.NodeVal(in_.nodes.Get(f));
            g.folds.push_back({mpz_class(x.lo.c).get_si(), mpz_class(x.hi.c).get_si(), f.sub, (int)n.width});
            continue;
          }
        }
        g.why = "a state word that is neither a counter nor a chaining word";
        return g;
      }
    }
    if (g.folds.empty()) { g.why = "no chaining words"; return g; }
    // One more block keeps the form.
    St x = g.st;
    for (auto& y : s_.Update(in_, x, Lin(block))) {
      auto& t = segs(y);
      for (auto& o : out) {
        Seg* hit = nullptr;
        for (auto& c : t)
          if (c.lo == o.lo && c.hi == o.hi && c.k == o.k) hit = &c;
        bool same = hit || o.k == Seg::kStale;
        auto up = [&](const Lin& l) {
          Lin r = l;
          for (auto& [d, k] : l.t)
            if (Lin::Dim(d) == g.q) r = r + Lin::Const(k);
          return r;
        };
        if (hit && o.k == Seg::kMsg) same = hit->msg == o.msg && y.p.EntailsEq(hit->off - up(o.off));
        if (hit && o.k == Seg::kCell && o.v.k == Val::kNum) same = hit->v.k == Val::kNum && y.p.EntailsEq(hit->v.l - up(o.v.l));
        if (hit && o.k == Seg::kCell && o.v.k == Val::kNode)
          same = hit->v.k == Val::kNode && (hit->v.node == o.v.node || (in_.nodes[o.v.node].op == NFold && in_.nodes[hit->v.node].fold));
        if (!same && !Overflow(g, y)) {
          g.why = "the form of the state after q blocks is not kept by one more block";
          return g;
        }
      }
    }
    g.ok = true;
    return g;
  }
  // States past the width of a counter are outside the form; the comparisons that follow look at them directly.
  bool Overflow(General& g, St& y) {
    Poly p = y.p;
    for (auto& o : g.st.objs[Session::kState].segs)
      if (o.k == Seg::kCell && o.v.k == Val::kNum && !o.v.l.IsConst()) {
        Q slope = 0;
        for (auto& [d, k] : o.v.l.t)
          if (Lin::Dim(d) == g.q) slope = k;
        Q top((mpz_class(1) << (8 * mpz_class((o.hi - o.lo).c).get_ui())) - 1);
        p.AddGe(Lin::Const(top) - o.v.l - Lin::Const(slope));
      }
    return !p.IntegerFeasible();
  }

  void Chunking(bool thorough) {
    const std::string rule = "chunking";
    const long b = s_.block_ ? s_.block_ : 0;
    Scenario(rule, "two updates of any length against one", [&] {
      auto ref = Finals(Updates(Init(), 0, -1));
      auto got = Finals(Updates(Updates(Init(), 0, -1), 0, -1));
      Take(rule, s_.update_, "update(a); update(b) against update(a+b)", Compare(s_, in_, got, ref));
      if (!s_.oneshot_.empty())
        Scenario("one-shot", "one-shot", [&] {
          auto os = One(-1);
          Take("one-shot", s_.oneshot_, "one-shot(n) against update(n)", Compare(s_, in_, os, ref));
        });
      if (!s_.sfinal_.empty() && !s_.supdate_.empty())
        Scenario("streamer", "streamer", [&] {
          auto w = Finals(Updates(Init(), 0, -1, s_.supdate_), s_.sfinal_);
          Take("streamer", s_.sfinal_, "Streamer against the algorithm's stream", Compare(s_, in_, w, ref));
        });
    });
    in_.peel = 100000;
    // Fixed lengths around the places where blocks, chunks and buffers fill up.
    std::set<long> at = {0, 1, 7, 8, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129};
    if (thorough) at.insert({9, 15, 16, 17, 47, 49, 95, 96, 97, 191, 192, 193, 255, 256, 257});
    if (b)
      for (long k = 1; k <= 3; ++k)
        for (long d = -1; d <= 1; ++d) at.insert(k * b + d);
    const bool tree = alg_ == "blake3";
    if (tree)
      for (long k = 1; k <= (thorough ? 9 : 4); ++k)
        for (long d = -1; d <= 1; ++d) at.insert(1024 * k + d);
    std::vector<long> pts(at.begin(), at.end());
    std::vector<std::vector<long>> splits;
    for (long x : pts)
      for (long y : pts) {
        if (!thorough && tree && (x > 300 || y > 300) && (x + y) % 1024 > 2) continue;
        if (!thorough && !tree && x > b + 1 && y > b + 1) continue;
        if (x + y <= (tree ? 10300 : 600)) splits.push_back({x, y});
      }
    for (long x : pts)
      if (x < 300 && (thorough || x <= 65)) {
        splits.push_back({x, 0, 1});
        splits.push_back({1, x, 1, x});
        splits.push_back({x, 3, x, 5, x});
      }
    if (tree) {
      splits.push_back(std::vector<long>(9, 1024));
      splits.push_back(std::vector<long>(5, 2048));
      splits.push_back({1024, 1024, 1024, 1});
      splits.push_back({1, 1023, 1, 2047, 1, 4095, 1});
    }
    for (auto& sp : splits)
      Scenario(rule, "fixed lengths", [&] {
        std::vector<St> cur = After(sp[0]);
        long n = sp[0];
        std::string label = "update(" + std::to_string(sp[0]) + ")";
        for (size_t i = 1; i < sp.size(); ++i) {
          cur = Updates(cur, sp[i], sp[i]);
          n += sp[i];
          label += "; update(" + std::to_string(sp[i]) + ")";
        }
        auto got = Finals(cur);
        Take(rule, s_.update_, label + " against update(" + std::to_string(n) + ")", Compare(s_, in_, got, Ref(n)));
      });
    if (!s_.oneshot_.empty())
      for (long n : pts)
        Scenario("one-shot", "fixed length", [&] {
          auto os = One(n);
          Take("one-shot", s_.oneshot_, "one-shot(" + std::to_string(n) + ") against the stream", Compare(s_, in_, os, Ref(n)));
        });
    in_.peel = 2;
    // After any number of whole blocks.
    std::vector<long> units = b ? std::vector<long>{b} : std::vector<long>{8, 16, 32, 48, 64, 96, 128};
    std::string why;
    for (long u : units) {
      General g;
      try {
        in_.peel = 100000;
        g = Generalise(u, 4);
        in_.peel = 2;
      } catch (Unsupported& e) {
        g.why = e.what;
      }
      if (!g.ok) { why = g.why; continue; }
      why.clear();
      rep_.stats["inductive_unit"] = u;
      rep_.stats["chaining_words"] = (int64_t)g.folds.size();
      Scenario(rule, "after any number of blocks", [&] {
        auto ref = Finals(Updates({g.st}, 0, 2 * u + u / 2));
        auto got = Finals(Updates(Updates({g.st}, 0, u + 1), 0, u + u / 2));
        Take(rule, s_.update_, "after any number of whole blocks: update(a); update(b) against update(a+b)", Compare(s_, in_, got, ref));
      });
      break;
    }
    if (!why.empty()) rep_.stats["no_inductive_form"] = why;
  }

  // The same runs without comparing results: every access must lie inside its object.
  void Bounds(bool thorough) {
    const std::string rule = "bounds";
    const long b = s_.block_ ? s_.block_ : 0;
    Scenario(rule, "update of any length", [&] { Finals(Updates(Init(), 0, -1)); ++decided; });
    Scenario(rule, "two updates of any length", [&] { Finals(Updates(Updates(Init(), 0, -1), 0, -1)); ++decided; });
    if (!s_.oneshot_.empty()) Scenario(rule, "one-shot", [&] { One(-1); ++decided; });
    if (!s_.sfinal_.empty() && !s_.supdate_.empty()) Scenario(rule, "streamer", [&] { Finals(Updates(Init(), 0, -1, s_.supdate_), s_.sfinal_); ++decided; });
    in_.peel = 100000;
    std::set<long> at = {0, 1, 7, 8, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129};
    if (b)
      for (long k = 1; k <= 3; ++k)
        for (long d = -1; d <= 1; ++d) at.insert(k * b + d);
    if (alg_ == "blake3")
      for (long k = 1; k <= (thorough ? 17 : 5); ++k)
        for (long d = -1; d <= 1; ++d) at.insert(1024 * k + d);
    for (long n : at)
      Scenario(rule, "fixed length", [&] { Ref(n); if (!s_.oneshot_.empty()) One(n); ++decided; });
    in_.peel = 2;
    std::vector<long> units = b ? std::vector<long>{b} : std::vector<long>{8, 16, 32, 48, 64, 96, 128};
    for (long u : units) {
      General g;
      try {
        in_.peel = 100000;
        g = Generalise(u, 4);
        in_.peel = 2;
      } catch (Unsupported& e) {
        g.why = e.what;
      }
      in_.peel = 2;
      if (!g.ok) { rep_.stats["no_inductive_form"] = g.why; continue; }
      rep_.stats["inductive_unit"] = u;
      Scenario(rule, "after any number of blocks", [&] { Finals(Updates(Updates({g.st}, 0, 2 * u + u / 2), 0, u + u / 2)); ++decided; });
      break;
    }
  }

  std::vector<St> SpecOne(const std::string& fn, const Lin& n, St st) {
    in_.entry = fn;
    int d = s_.Data(in_, st, n, 0, 0);
    s_.SetH(st, n);
    int o = in_.AddObj(st, "out", Lin((long)s_.digest_), nullptr, Seg::kStale, false);
    auto r = in_.Run(*s_.prep_.m->getFunction(fn), {in_.PtrVal(d, 0), in_.NumVal(n, 64), in_.PtrVal(o, 0)}, st);
    for (auto& x : r) s_.Drop(x);
    return r;
  }
  std::vector<St> SpecOne(const std::string& fn, long n) {
    St st = s_.Fresh(in_);
    return SpecOne(fn, n < 0 ? Sym(st, 0, -1) : Lin(n), st);
  }
  void Spec(const std::string& fn, const std::string& tail, bool thorough) {
    const std::string rule = "framing";
    const long b = s_.block_;
    const bool tree = alg_ == "blake3";
    in_.peel = 100000;
    bool ok = false;
    Scenario(rule, "calibration", [&] {
      ok = true;
      for (long n : {3L, 0L, b, b + 3}) {
        auto x = One(n), y = SpecOne(fn, n);
        Mismatch m = Compare(s_, in_, x, y);
        if (m.c != kSame) {
          ok = false;
          rep_.Undec(json::Object{{"rule", rule}, {"algorithm", alg_}, {"what", "the block function cannot be matched with the standard's: " + m.why}});
          break;
        }
      }
    });
    if (!ok) return;
    std::set<long> at;
    if (tree) {
      for (long k = 0; k <= 9; ++k)
        for (long d : {-1, 0, 1, 63, 64, 65, 512}) if (1024 * k + d >= 0) at.insert(1024 * k + d);
    } else {
      for (long n = 0; n <= (thorough ? 4 : 2) * b + 2; ++n) at.insert(n);
    }
    for (long n : at)
      Scenario(rule, "fixed length", [&] {
        auto x = One(n), y = SpecOne(fn, n);
        Take(rule, s_.oneshot_, "message of " + std::to_string(n) + " bytes against the standard", Compare(s_, in_, x, y));
      });
    in_.peel = 2;
    if (!tree && s_.prep_.m->getFunction(tail)) {
      General g;
      try {
        in_.peel = 100000;
        g = Generalise(b, 4);
        in_.peel = 2;
      } catch (Unsupported& e) {
        g.why = e.what;
      }
      if (!g.ok) {
        rep_.stats["no_inductive_form"] = g.why;
        return;
      }
      std::sort(g.folds.begin(), g.folds.end(), [](auto& x, auto& y) { return std::get<2>(x) < std::get<2>(y); });
      in_.peel = 100000;
      Scenario(rule, "after any number of blocks", [&] {
        auto lib = Finals(Updates({g.st}, 0, b + 1));
        auto lib2 = Finals(Updates(Updates({g.st}, b, b), 0, b + 1));
        // The standard continued from the same chaining value.
        auto spec = [&](long extra) {
          St st = g.st;
          st.objs[Session::kState].name = "state";
          Lin r = Sym(st, extra, extra + b + 1);
          Lin total = g.q.Times(Q(b));
          int w = std::get<3>(g.folds[0]) / 8;
          int h = in_.AddObj(st, "h", Lin((long)(g.folds.size() * w)), nullptr, Seg::kStale, false);
          st.objs[h].segs.clear();
          for (size_t i = 0; i < g.folds.size(); ++i) {
            if (std::get<2>(g.folds[i]) != (int)i) throw Unsupported{"chaining words that are not block function results"};
            Node f;
            f.op = NFold;
            f.sub = i;
            f.width = 8 * w;
            f.lin = g.q;
            Seg sg;
            sg.lo = Lin((long)(i * w));
            sg.hi = Lin((long)((i + 1) * w));
            sg.k = Seg::kCell;
            sg.v = in_.NodeVal(in_.nodes.Get(f));
            st.objs[h].segs.push_back(sg);
          }
          int d = s_.Data(in_, st, r + Lin(g.pending), total - Lin(g.pending), 0);
          s_.SetH(st, total + r);
          int o = in_.AddObj(st, "out", Lin((long)s_.digest_), nullptr, Seg::kStale, false);
          in_.entry = tail;
          auto res = in_.Run(*s_.prep_.m->getFunction(tail),
                             {in_.PtrVal(h, 0), in_.PtrVal(d, 0), in_.NumVal(r + Lin(g.pending), 64), in_.NumVal(total - Lin(g.pending), 64), in_.PtrVal(o, 0)}, st);
          for (auto& x : res) s_.Drop(x);
          return res;
        };
        auto sp = spec(0);
        Take(rule, s_.final_, "final blocks after any number of whole blocks against the standard", Compare(s_, in_, lib, sp));
        auto sp2 = spec(b);
        Take(rule, s_.final_, "final blocks after any number of whole blocks against the standard", Compare(s_, in_, lib2, sp2));
      });
    }
  }
  // fn(key, kn, data, n, out) with fixed key length; kn < 0: no key argument.
  std::vector<St> Keyed(const std::string& fn, long kn, long n, long out) {
    in_.entry = fn;
    St st = s_.Fresh(in_);
    Lin l = n < 0 ? Sym(st, 0, -n) : Lin(n);
    std::vector<Val> a;
    if (kn >= 0) {
      int k = s_.Data(in_, st, Lin(kn), 0, 1);
      a = {in_.PtrVal(k, 0), in_.NumVal(Lin(kn), 64)};
    }
    int d = s_.Data(in_, st, l, 0, 0);
    s_.SetH(st, l);
    a.push_back(in_.PtrVal(d, 0));
    a.push_back(in_.NumVal(l, 64));
    int o = in_.AddObj(st, "out", Lin(out), nullptr, Seg::kStale, false);
    a.push_back(in_.PtrVal(o, 0));
    auto r = in_.Run(*s_.prep_.m->getFunction(fn), a, st);
    for (auto& x : r) s_.Drop(x);
    return r;
  }
  // Keyed stream: init(state, key, kn); updates; final.
  std::vector<St> KeyedStream(const std::string& init, const std::string& update, const std::string& fin, long size, long kn,
                              const std::vector<long>& parts, long out) {
    in_.entry = init;
    St st = s_.Fresh(in_);
    st.objs[Session::kState].size = Lin(size);
    st.objs[Session::kState].ty = nullptr;
    for (auto& sg : st.objs[Session::kState].segs) sg.hi = Lin(size);
    int k = s_.Data(in_, st, Lin(kn), 0, 1);
    auto cur = in_.Run(*s_.prep_.m->getFunction(init), {in_.PtrVal(Session::kState, 0), in_.PtrVal(k, 0), in_.NumVal(Lin(kn), 64)}, st);
    for (auto& x : cur) s_.Drop(x);
    for (long n : parts) cur = Updates(cur, n < 0 ? 0 : n, n < 0 ? -n : n, update);
    std::vector<St> r;
    for (auto& c : cur) {
      in_.entry = fin;
      int o = in_.AddObj(c, "out", Lin(out), nullptr, Seg::kStale, false);
      for (auto& y : in_.Run(*s_.prep_.m->getFunction(fin), {in_.PtrVal(Session::kState, 0), in_.PtrVal(o, 0)}, c)) {
        r.push_back(std::move(y));
        s_.Drop(r.back());
      }
    }
    return r;
  }
  // Messages of fixed lengths, block functions spelled out.
  void Block(const std::string& fn, bool thorough) {
    const long b = s_.block_;
    in_.peel = 100000;
    in_.xor_limit = 100000;
    std::vector<long> at = {b + 3};
    if (thorough) at = {0, 3, b - 1, b, b + 3};
    if (thorough && b <= 64) at.push_back(2 * b + 1);
    for (long n : at)
      Scenario("block", "fixed length", [&] {
        auto x = One(n), y = SpecOne(fn, n);
        Take("block", s_.oneshot_, "message of " + std::to_string(n) + " bytes, every step spelled out, against the standard", Compare(s_, in_, x, y));
      });
  }
  void Hmac(long state_size) {
    const std::string rule = "hmac";
    const long b = s_.block_, d = s_.digest_;
    const std::string fn = "vp_hmac_oneshot_" + alg_, spec = "vp_spec_hmac_" + alg_;
    const bool sponge = StringRef(alg_).starts_with("sha3") || StringRef(alg_).starts_with("shake");
    std::set<long> keys = {0, 1, d, b - 1, b, b + 1, 2 * b + 3};
    // One length for every key first, then the others.
    std::vector<long> order = {1, b, 0, b - 17, b - 1, b + 1, 2 * b};
    if (!sponge && !StringRef(alg_).starts_with("blake2")) order.push_back(-(b + 1));
    for (long n : order)
      for (long k : keys)
        Scenario(rule, "key of " + std::to_string(k), [&] {
          in_.peel = 100000;
          auto x = Keyed(fn, k, n, d), y = Keyed(spec, k, n, d);
          std::string label = "key of " + std::to_string(k) + " bytes, message of " + (n < 0 ? "up to " + std::to_string(-n) : std::to_string(n)) + " bytes";
          Take(rule, fn, label + " against RFC 2104 over the library's digest", Compare(s_, in_, x, y));
          auto parts = n < 0 ? std::vector<long>{n} : std::vector<long>{n / 3, n - n / 3};
          auto z = KeyedStream("vp_hmac_init_" + alg_, "vp_hmac_update_" + alg_, "vp_hmac_final_" + alg_, state_size, k, parts, d);
          Take(rule, "vp_hmac_update_" + alg_, label + ": stream against RFC 2104 over the library's digest", Compare(s_, in_, z, y));
        });
  }
  void Mode(const std::string& mode, long maxkey, const std::string& keyinit) {
    const std::string rule = "keyed";
    const long b = s_.block_;
    const std::string fn = "vp_mode_" + mode, spec = "vp_spec_mode_" + mode;
    std::set<long> keys = {0, 1, 31, 32, 33, 63, 64};
    if (mode == "blake3_derive") keys.insert({65, 128, 1024, 1025});
    in_.peel = 100000;
    bool tree = alg_ == "blake3";
    for (long k : keys) {
      if (k > maxkey) continue;
      std::set<long> lens = {0, 1, b - 1, b, b + 1, 2 * b, 2 * b + 1, 5 * b};
      if (tree && (k == 32 || k == 1)) lens.insert({1024, 1025, 3073});
      for (long n : lens)
        Scenario(rule, "key", [&] {
          auto x = Keyed(fn, k, n, s_.digest_), y = Keyed(spec, k, n, s_.digest_);
          std::string label = "key or context of " + std::to_string(k) + " bytes, message of " + std::to_string(n) + " bytes";
          Take(rule, fn, label + " against the standard", Compare(s_, in_, x, y));
          if (!keyinit.empty()) {
            auto z = KeyedStream(keyinit, s_.update_, s_.final_, s_.state_size_, k, {n / 3, n - n / 3}, s_.digest_);
            Take(rule, keyinit, label + ": keyed stream against the standard", Compare(s_, in_, z, y));
          }
        });
    }
  }
  void Xof(const std::string& mode, long out) {
    const std::string rule = "xof", fn = "vp_mode_" + mode + "_xof", spec = "vp_spec_xof_" + mode;
    const long b = s_.block_;
    in_.peel = 100000;
    std::set<long> lens = {0, 1, b - 1, b, b + 1, 2 * b};
    if (alg_ == "blake3") lens.insert({1024, 1025, 3073});
    for (long n : lens)
      Scenario(rule, "output", [&] {
        auto x = Keyed(fn, -1, n, out), y = Keyed(spec, -1, n, out);
        Take(rule, fn, std::to_string(out) + " output bytes of a message of " + std::to_string(n) + " bytes against the standard", Compare(s_, in_, x, y));
        auto& z = Ref(n);
        Take(rule, fn, "the short output against the first bytes of the long one, message of " + std::to_string(n) + " bytes", Compare(s_, in_, x, z));
      });
  }
  // (data, length, seed...) with results in registers or in an output array.
  std::vector<St> Call(const std::string& fn, long lo, long hi) {
    in_.entry = fn;
    Function* f = s_.prep_.m->getFunction(fn);
    St st = s_.Fresh(in_);
    Lin l = lo == hi ? Lin(lo) : Sym(st, lo, hi);
    int d = s_.Data(in_, st, l, 0, 0);
    s_.SetH(st, l);
    std::vector<Val> a = {in_.PtrVal(d, 0), in_.NumVal(l, 64)};
    int o = -1;
    for (unsigned i = 2; i < f->arg_size(); ++i) {
      if (f->getArg(i)->getType()->isPointerTy()) {
        o = in_.AddObj(st, "out", Lin(16), nullptr, Seg::kStale, false);
        a.push_back(in_.PtrVal(o, 0));
      } else {
        Node n;
        n.op = NArg;
        n.width = 64;
        n.k = "seed" + std::to_string(i - 2);
        a.push_back(in_.NodeVal(in_.nodes.Get(n)));
      }
    }
    s_.kind_ = o >= 0 ? "dig" : "hs";
    auto r = in_.Run(*f, a, st);
    for (auto& x : r) s_.Drop(x);
    return r;
  }
  void Functions(const std::vector<std::string>& es, bool thorough, long part = 0, long parts = 1) {
    std::vector<std::pair<long, long>> ranges = {{0, 48}, {0, -1}};
    for (long n : {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 81, 95, 96, 97, 112, 113, 127, 128, 129, 143, 144, 145,
                   191, 192, 193, 239, 240, 241, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1087, 1088, 1089, 2047, 2048, 2049, 4100})
      ranges.push_back({n, n});
    for (long n = 0; n <= (thorough ? 1400 : 600); ++n) ranges.push_back({n, n});
    // The lengths the code compares with.
    std::map<std::string, std::set<long>> special;
    std::set<long> all;
    for (auto& fn : es) {
      std::set<Function*> seen;
      std::vector<Function*> todo{s_.prep_.m->getFunction(fn)};
      while (todo.size()) {
        Function* f = todo.back();
        todo.pop_back();
        if (!f || f->isDeclaration() || !seen.insert(f).second) continue;
        for (auto& i : instructions(*f)) {
          if (auto* c = dyn_cast<CallBase>(&i)) todo.push_back(c->getCalledFunction());
          if (isa<ICmpInst>(i) || isa<MinMaxIntrinsic>(i))
            for (auto& o : i.operands())
              if (auto* k = dyn_cast<ConstantInt>(o.get()); k && k->getBitWidth() <= 64 && k->getZExtValue() > 8 && k->getZExtValue() <= 4200)
                for (long m : {1, 2})
                  for (long e : {-1, 0, 1}) special[fn].insert(m * (long)k->getZExtValue() + e);
        }
      }
      all.insert(special[fn].begin(), special[fn].end());
    }
    for (long n : all) ranges.push_back({n, n});
    std::sort(ranges.begin() + 2, ranges.end());
    ranges.erase(std::unique(ranges.begin() + 2, ranges.end()), ranges.end());
    if (parts > 1) {
      std::vector<std::pair<long, long>> mine;
      for (size_t i = 0; i < ranges.size(); ++i)
        if ((long)i % parts == part) mine.push_back(ranges[i]);
      ranges = mine;
    }
    std::map<std::string, std::map<std::pair<long, long>, std::vector<St>>> res;
    for (auto& fn : es) {
      const long t0 = (long)(clock());
      struct T { std::string n; long t; ~T() { if (getenv("VP_TIME")) errs() << "fn " << n << " " << (clock() - t) / 1000 << " ms\n"; } } tt{fn, t0};
      const bool direct = StringRef(fn).starts_with("vp_h64_") || StringRef(fn).starts_with("vp_h128_") || fn == "vp_" + alg_ ||
                          StringRef(fn).starts_with("vp_spec_h64_") || StringRef(fn).starts_with("vp_spec_h128_") || fn == "vp_spec_" + alg_;
      long cost = 0;  // steps of one fixed length of 512 or more
      for (auto& rg : ranges) {
        const long lo = rg.first, hi = rg.second;
        const auto other = StringRef(fn).starts_with("vp_spec_") ? "vp_" + fn.substr(8) : "vp_spec_" + fn.substr(3);
        const bool wanted = special[fn].count(lo) || special[other].count(lo);
        if (lo > (direct ? 512 : 260) && cost > (wanted ? 60000 : 12000)) continue;
        if (lo > 260 && !direct && !wanted) continue;
        const long before = in_.steps;
        Scenario("bounds", fn + " " + std::to_string(lo) + ".." + std::to_string(hi), [&] {
          in_.peel = hi < 0 ? 2 : 100000;
          res[fn][{lo, hi}] = Call(fn, lo, hi);
          ++decided;
        });
        if (lo > 500) cost = std::max<long>(cost, in_.steps - before);
      }
    }
    auto cmp = [&](const std::string& x, const std::string& y, const std::string& rule, const std::string& what) {
      if (!res.count(x) || !res.count(y)) return;
      for (auto& rg : ranges)
        Scenario(rule, what, [&] {
          if (!res[x].count(rg) || !res[y].count(rg)) return;
          Function* f = s_.prep_.m->getFunction(x);
          s_.kind_ = f->getReturnType()->isVoidTy() ? "dig" : "hs";
          auto l = res[x][rg], r = res[y][rg];
          if (l.size() * r.size() > 600) return;
          if (getenv("VP_TIME")) errs() << "facade " << rg.first << ".." << rg.second << " " << l.size() << " x " << r.size() << "\n";
          Take(rule, x, what + " for lengths " + std::to_string(rg.first) + ".." + (rg.second < 0 ? "any" : std::to_string(rg.second)), Compare(s_, in_, l, r));
        });
    };
    for (auto& fn : es) {
      const std::string spec = "vp_spec_" + fn.substr(3);
      if (StringRef(fn).starts_with("vp_spec_") || !res.count(spec)) continue;
      const bool canon = !StringRef(fn).contains("hasher") && !StringRef(fn).contains("mangled") && !StringRef(fn).starts_with("vp_c_");
      cmp(fn, spec, canon ? "canonical" : "completion", canon ? "the value against the published algorithm" : "the value against the documented one");
    }
    cmp("vp_hasher64_" + alg_, "vp_h64_" + alg_, "facade", "Hasher::GetHash64 against the algorithm's GetHash64");
    cmp("vp_hasher128_" + alg_, "vp_h128_" + alg_, "facade", "Hasher::GetHash128 against the algorithm's GetHash128");
  }
  void Finish(bool bounds) {
    if (bounds)
      for (auto& [k, o] : in_.failed) {
        json::Object j{{"rule", o.rule}, {"where", o.where}, {"entry", o.entry}, {"algorithm", alg_}, {"what", o.what}};
        if (StringRef(o.entry).starts_with("vp_spec")) continue;
        if (o.exact) rep_.Viol(std::move(j));
        else rep_.Undec(std::move(j));
      }
    rep_.stats["scenarios"] = scenarios;
    rep_.stats["decided_same"] = decided;
    rep_.stats["result_pairs"] = pairs;
    rep_.stats["memory_obligations"] = in_.obligations;
    rep_.stats["steps"] = in_.steps;
    rep_.stats["partitions"] = in_.forks;
  }

 private:
  std::vector<St> init_;
  std::map<long, std::vector<St>> ref_, after_;
};

// hashfn BC NAME: every (data, length, seed) entry of one algorithm.
int HashFn(const std::vector<std::string>& a) {
  LLVMContext ctx;
  auto m = Load(ctx, a[0]);
  const std::string name = a[1];
  bool thorough = false;
  std::string only;
  long part = 0, parts = 1;
  for (size_t i = 2; i < a.size(); ++i) {
    if (a[i] == "thorough") thorough = true;
    if (StringRef(a[i]).starts_with("only=")) only = a[i].substr(5);
    if (StringRef(a[i]).starts_with("part=")) part = atol(a[i].c_str() + 5), parts = atol(a[i].c_str() + a[i].find('/') + 1);
  }
  Report rep;
  std::vector<std::string> es;
  for (auto* p : {"vp_h64_", "vp_hasher64_", "vp_hasher32_", "vp_mangled_", "vp_h128_", "vp_hasher128_", "vp_", "vp_c_"})
    if (m->getFunction(p + name)) {
      const std::string fn = p + name, spec = "vp_spec_" + fn.substr(3);
      const bool canon = !StringRef(fn).contains("hasher") && !StringRef(fn).contains("mangled") && !StringRef(fn).starts_with("vp_c_");
      if (only == "canonical" && !canon) continue;
      es.push_back(fn);
      if (m->getFunction(spec) && (only.empty() || canon == (only == "canonical"))) es.push_back(spec);
    }
  if (es.empty()) { errs() << "no entry for " << name << "\n"; return 3; }
  Session s(*m, es);
  if (!s.Err().empty()) { errs() << s.Err() << "\n"; return 3; }
  Runner r(s, rep, name);
  r.Functions(es, thorough, part, parts);
  r.Finish(true);
  rep.stats["entries"] = (int64_t)es.size();
  rep.Print();
  return 0;
}

// stream BC KIND NAME MODE(chunk|spec) [thorough]
int Stream(const std::vector<std::string>& a) {
  LLVMContext ctx;
  auto m = Load(ctx, a[0]);
  const std::string kind = a[1], name = a[2], mode = a[3];
  const bool thorough = a.size() > 4 && a[4] == "thorough";
  Report rep;
  std::string fn = "vp_spec_dig_" + name, tail = "vp_spec_tail_" + name;
  std::vector<std::string> extra;
  if (mode == "spec") extra = {fn, tail};
  if (mode == "hmac") {
    for (auto* e : {"vp_hmac_init_", "vp_hmac_update_", "vp_hmac_final_", "vp_hmac_oneshot_", "vp_spec_hmac_"}) extra.push_back(e + name);
  }
  std::vector<std::pair<std::string, std::string>> keyed;
  std::vector<std::pair<std::string, long>> xofs;
  if (mode == "keyed") {
    if (name == "blake2b") keyed = {{"blake2b_keyed", "vp_mode_blake2b_keyinit"}};
    if (name == "blake2b_256") keyed = {{"blake2b_256_keyed", ""}};
    if (name == "blake3") keyed = {{"blake3_keyed", "vp_mode_blake3_keyinit"}, {"blake3_derive", ""}}, xofs = {{"blake3", 131}};
    if (name == "shake128") xofs = {{"shake128", 400}};
    if (name == "shake256") xofs = {{"shake256", 300}};
    for (auto& [k, i] : keyed) {
      extra.push_back("vp_mode_" + k);
      extra.push_back("vp_spec_mode_" + k);
      if (!i.empty()) extra.push_back(i);
    }
    for (auto& [x, n] : xofs) extra.push_back("vp_mode_" + x + "_xof"), extra.push_back("vp_spec_xof_" + x);
  }
  if (mode == "block") {
    Session s(*m, name.c_str(), fn.c_str());
    if (!s.Err().empty()) { errs() << s.Err() << "\n"; return 3; }
    Runner r(s, rep, name);
    r.Block(fn, thorough);
    r.Finish(false);
    rep.Print();
    return 0;
  }
  Session s(*m, name, kind, extra);
  if (!s.Err().empty()) { errs() << s.Err() << "\n"; return 3; }
  Runner r(s, rep, name);
  if (mode == "chunk") r.Chunking(thorough);
  if (mode == "bounds") r.Bounds(thorough);
  if (mode == "spec") r.Spec(fn, tail, thorough);
  if (mode == "hmac") {
    auto* g = m->getGlobalVariable("vp_layout_hmac_" + name, true);
    r.Hmac(m->getDataLayout().getTypeAllocSize(g->getValueType()));
  }
  for (auto& [k, i] : keyed) r.Mode(k, k == "blake3_keyed" ? 32 : StringRef(k).starts_with("blake2b") ? 64 : 5000, i);
  for (auto& [x, n] : xofs) r.Xof(x, n);
  r.Finish(mode == "chunk" || mode == "bounds" || mode == "hmac" || mode == "keyed");
  rep.Print();
  return 0;
}
}  // namespace vp
