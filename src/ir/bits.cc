#include "bits.h"

#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/CFG.h"
namespace vp {

Constant* BitEval::ConstantFoldByte(const GlobalVariable* g, int64_t off, Type* i8) {
  return ConstantFoldLoadFromConst(const_cast<Constant*>(g->getInitializer()), i8, APInt(64, off), dl);
}

bool BitEval::Run(const Function& f, const std::vector<std::optional<APInt>>& fixed, Val* ret,
                  std::map<std::pair<int, int64_t>, Word>* out_mem) {
  for (const Argument& a : f.args()) {
    Val v;
    if (a.getType()->isPointerTy()) {
      v.is_ptr = true;
      v.obj = a.getArgNo();
    } else if (a.getType()->isIntegerTy()) {
      if (a.getArgNo() < fixed.size() && fixed[a.getArgNo()]) {
        v.bits = pool.ConstWord(*fixed[a.getArgNo()]);
      } else {
        unsigned w = a.getType()->getIntegerBitWidth();
        v.bits.resize(w);
        for (unsigned i = 0; i < w; ++i) v.bits[i] = pool.Get({BitPool::kArg, {(int64_t)a.getArgNo(), i}});
      }
    } else {
      return Fail("argument type");
    }
    vals[&a] = v;
  }
  ReversePostOrderTraversal<const Function*> rpo(&f);
  std::map<const BasicBlock*, int> order;
  int n = 0;
  for (const BasicBlock* b : rpo) order[b] = n++;
  for (const BasicBlock* b : rpo)
    for (const BasicBlock* s : successors(b))
      if (order[s] <= order[b]) return Fail("loop that does not unroll");
  std::map<const BasicBlock*, Bit> pred;
  std::map<const BasicBlock*, std::map<std::pair<int, int64_t>, Word>> mem_out;
  std::map<std::pair<const BasicBlock*, const BasicBlock*>, Bit> edge;
  bool have_ret = false;
  for (const BasicBlock* b : rpo) {
    Bit here = pool.zero;
    std::vector<std::pair<const BasicBlock*, Bit>> in;
    if (b == &f.getEntryBlock()) {
      here = pool.one;
      mem.clear();
    } else {
      std::set<const BasicBlock*> done;
      for (const BasicBlock* p : predecessors(b)) {
        if (!done.insert(p).second || !order.count(p)) continue;
        Bit e = edge[{p, b}];
        if (e == pool.zero) continue;
        in.push_back({p, e});
        here = pool.Or(here, e);
      }
      mem.clear();
      if (!in.empty()) {
        mem = mem_out[in.back().first];
        for (int k = (int)in.size() - 2; k >= 0; --k) {
          auto& o = mem_out[in[k].first];
          std::set<std::pair<int, int64_t>> keys;
          for (auto& [q, w] : mem) keys.insert(q);
          for (auto& [q, w] : o) keys.insert(q);
          std::map<std::pair<int, int64_t>, Word> merged;
          for (auto& q : keys) {
            auto other = o.count(q) ? o[q] : Word();
            if (other.empty()) {
              auto save = mem;
              mem = o;
              other = LoadByte(q.first, q.second);
              mem = save;
            }
            Word mine = LoadByte(q.first, q.second);
            Word w(8);
            for (int i = 0; i < 8; ++i) w[i] = pool.Mux(in[k].second, other[i], mine[i]);
            merged[q] = w;
          }
          mem = merged;
        }
      }
    }
    pred[b] = here;
    if (here == pool.zero) continue;
    for (const Instruction& i : *b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      Val r;
      auto op = [&](int k) { return Get(i.getOperand(k)); };
      if (auto* phi = dyn_cast<PHINode>(&i)) {
        std::optional<Val> acc;
        for (int k = (int)in.size() - 1; k >= 0; --k) {
          auto v = Get(phi->getIncomingValueForBlock(in[k].first));
          if (!v) return Fail("phi operand");
          if (!acc) { acc = v; continue; }
          if (v->is_ptr || acc->is_ptr) {
            if (v->obj != acc->obj || v->off != acc->off) return Fail("phi of pointers");
            continue;
          }
          if (!v->parts.empty()) return Fail("phi of aggregates");
          for (size_t q = 0; q < acc->bits.size(); ++q) acc->bits[q] = pool.Mux(in[k].second, v->bits[q], acc->bits[q]);
        }
        if (!acc) return Fail("phi");
        vals[&i] = *acc;
        continue;
      }
      if (auto* bo = dyn_cast<BinaryOperator>(&i)) {
        auto a = op(0), c = op(1);
        if (!a || !c || a->bits.empty() || c->bits.empty()) return Fail("binary operand");
        const Word &x = a->bits, &y = c->bits;
        size_t w = x.size();
        Word z(w);
        APInt cx, cy;
        bool kx = pool.IsConst(x, &cx), ky = pool.IsConst(y, &cy);
        switch (bo->getOpcode()) {
          case Instruction::And: for (size_t q = 0; q < w; ++q) z[q] = pool.And(x[q], y[q]); break;
          case Instruction::Or: for (size_t q = 0; q < w; ++q) z[q] = pool.Or(x[q], y[q]); break;
          case Instruction::Xor: for (size_t q = 0; q < w; ++q) z[q] = pool.Xor(x[q], y[q]); break;
          case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            if (!ky) { z = pool.Opaque(bo->getOpcodeName(), {x, y}, w, false); break; }
            if (cy.uge(w)) { z = pool.Opaque("poison", {}, w, false); break; }
            int s = (int)cy.getZExtValue();
            for (int q = 0; q < (int)w; ++q) {
              if (bo->getOpcode() == Instruction::Shl) z[q] = q >= s ? x[q - s] : pool.zero;
              else z[q] = q + s < (int)w ? x[q + s] : bo->getOpcode() == Instruction::LShr ? pool.zero : x[w - 1];
            }
            break;
          }
          default: {
            if (kx && ky) {
              APInt res = cx;
              bool ok = true;
              switch (bo->getOpcode()) {
                case Instruction::Add: res = cx + cy; break;
                case Instruction::Sub: res = cx - cy; break;
                case Instruction::Mul: res = cx * cy; break;
                case Instruction::UDiv: if (cy == 0) ok = false; else res = cx.udiv(cy); break;
                case Instruction::URem: if (cy == 0) ok = false; else res = cx.urem(cy); break;
                default: ok = false;
              }
              if (ok) { z = pool.ConstWord(res); break; }
            }
            if (bo->getOpcode() == Instruction::Mul && ky && cy.isPowerOf2()) {
              int s = cy.logBase2();
              for (int q = 0; q < (int)w; ++q) z[q] = q >= s ? x[q - s] : pool.zero;
              break;
            }
            if (bo->getOpcode() == Instruction::Add) {
              bool disjoint = true;
              for (size_t q = 0; q < w; ++q) disjoint &= x[q] == pool.zero || y[q] == pool.zero;
              if (disjoint) {
                for (size_t q = 0; q < w; ++q) z[q] = pool.Or(x[q], y[q]);
                break;
              }
            }
            z = pool.Opaque(bo->getOpcodeName(), {x, y}, w, bo->isCommutative());
          }
        }
        r.bits = z;
        r.poison = a->poison || c->poison;
        vals[&i] = r;
        continue;
      }
      if (auto* c = dyn_cast<CastInst>(&i)) {
        auto a = op(0);
        if (!a) return Fail("cast operand");
        if (c->getOpcode() == Instruction::Trunc || c->getOpcode() == Instruction::ZExt || c->getOpcode() == Instruction::SExt) {
          unsigned w = c->getType()->getIntegerBitWidth();
          r.bits = a->bits;
          Bit fill = c->getOpcode() == Instruction::SExt ? a->bits.back() : pool.zero;
          r.bits.resize(w, fill);
          vals[&i] = r;
          continue;
        }
        if (c->getOpcode() == Instruction::BitCast && a->is_ptr) { vals[&i] = *a; continue; }
        return Fail("cast");
      }
      if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        auto a = op(0);
        if (!a || !a->is_ptr) return Fail("gep base");
        r = *a;
        MapVector<Value*, APInt> var;
        APInt cst(64, 0);
        if (!g->collectOffset(dl, 64, var, cst)) return Fail("gep");
        int64_t off = cst.getSExtValue();
        for (auto& [v, scale] : var) {
          auto iv = Get(v);
          APInt k;
          if (!iv || !pool.IsConst(iv->bits, &k)) return Fail("variable address");
          off += k.getSExtValue() * scale.getSExtValue();
        }
        r.off += off;
        vals[&i] = r;
        continue;
      }
      if (isa<AllocaInst>(i)) {
        r.is_ptr = true;
        r.obj = next_obj++;
        local_objs[r.obj] = cast<AllocaInst>(&i);
        vals[&i] = r;
        continue;
      }
      if (auto* l = dyn_cast<LoadInst>(&i)) {
        auto a = op(0);
        if (!a || !a->is_ptr || !l->getType()->isIntegerTy()) return Fail("load");
        unsigned w = l->getType()->getIntegerBitWidth();
        if (w % 8) return Fail("load width");
        unsigned nb = w / 8;
        r.bits.resize(w);
        // Constant tables are declared with element types; read them through the front end's view.
        for (unsigned k = 0; k < nb; ++k) {
          Word by = LoadByte(a->obj, a->off + k);
          unsigned lane = big_endian ? nb - 1 - k : k;
          for (int q = 0; q < 8; ++q) r.bits[lane * 8 + q] = by[q];
        }
        vals[&i] = r;
        continue;
      }
      if (auto* s = dyn_cast<StoreInst>(&i)) {
        auto v = op(0), a = op(1);
        if (!v || !a || !a->is_ptr || v->bits.empty() || v->bits.size() % 8) return Fail("store");
        unsigned nb = v->bits.size() / 8;
        for (unsigned k = 0; k < nb; ++k) {
          unsigned lane = big_endian ? nb - 1 - k : k;
          mem[{a->obj, a->off + k}] = Word(v->bits.begin() + lane * 8, v->bits.begin() + lane * 8 + 8);
        }
        continue;
      }
      if (auto* c = dyn_cast<ICmpInst>(&i)) {
        auto a = op(0), d = op(1);
        if (!a || !d || a->is_ptr || d->is_ptr) return Fail("compare");
        APInt x, y;
        if (pool.IsConst(a->bits, &x) && pool.IsConst(d->bits, &y)) {
          r.bits = {ICmpInst::compare(x, y, c->getPredicate()) ? pool.one : pool.zero};
        } else if (a->bits == d->bits) {
          r.bits = {c->isTrueWhenEqual() ? pool.one : pool.zero};
        } else {
          auto p = c->getPredicate();
          Word l = a->bits, q = d->bits;
          bool neg = false;
          if (p == ICmpInst::ICMP_NE) { p = ICmpInst::ICMP_EQ; neg = true; }
          if (p == ICmpInst::ICMP_UGT) { p = ICmpInst::ICMP_ULT; std::swap(l, q); }
          if (p == ICmpInst::ICMP_ULE) { p = ICmpInst::ICMP_ULT; std::swap(l, q); neg = true; }
          if (p == ICmpInst::ICMP_UGE) { p = ICmpInst::ICMP_ULT; neg = true; }
          r.bits = pool.Opaque("icmp" + std::to_string(p), {l, q}, 1, p == ICmpInst::ICMP_EQ);
          if (neg) r.bits[0] = pool.Not(r.bits[0]);
        }
        vals[&i] = r;
        continue;
      }
      if (isa<SelectInst>(i)) {
        auto c = op(0), a = op(1), d = op(2);
        if (!c || !a || !d) return Fail("select");
        if (a->is_ptr || d->is_ptr) {
          if (c->bits[0] == pool.one) r = *a;
          else if (c->bits[0] == pool.zero) r = *d;
          else return Fail("select of pointers");
        } else {
          r.bits.resize(a->bits.size());
          for (size_t q = 0; q < a->bits.size(); ++q) r.bits[q] = pool.Mux(c->bits[0], a->bits[q], d->bits[q]);
        }
        vals[&i] = r;
        continue;
      }
      if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
        auto a = op(0), d = op(1);
        if (!a || !d || iv->getNumIndices() != 1 || a->parts.size() <= iv->getIndices()[0]) return Fail("insertvalue");
        r = *a;
        r.parts[iv->getIndices()[0]] = *d;
        vals[&i] = r;
        continue;
      }
      if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
        auto a = op(0);
        if (!a || ev->getNumIndices() != 1 || a->parts.size() <= ev->getIndices()[0]) return Fail("extractvalue");
        vals[&i] = a->parts[ev->getIndices()[0]];
        continue;
      }
      if (auto* fr = dyn_cast<FreezeInst>(&i)) {
        (void)fr;
        auto a = op(0);
        if (!a) return Fail("freeze");
        vals[&i] = *a;
        continue;
      }
      if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
        switch (ii->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: continue;
          case Intrinsic::bswap: {
            auto a = op(0);
            if (!a) return Fail("bswap");
            r.bits.resize(a->bits.size());
            size_t nb = a->bits.size() / 8;
            for (size_t k = 0; k < nb; ++k)
              for (int q = 0; q < 8; ++q) r.bits[k * 8 + q] = a->bits[(nb - 1 - k) * 8 + q];
            vals[&i] = r;
            continue;
          }
          case Intrinsic::fshl: case Intrinsic::fshr: {
            auto a = op(0), d = op(1), s = op(2);
            APInt k;
            if (!a || !d || !s) return Fail("funnel");
            size_t w = a->bits.size();
            if (!pool.IsConst(s->bits, &k)) {
              r.bits = pool.Opaque(ii->getIntrinsicID() == Intrinsic::fshl ? "fshl" : "fshr", {a->bits, d->bits, s->bits}, w, false);
            } else {
              size_t sh = k.urem(w);
              Word cat = d->bits;
              cat.insert(cat.end(), a->bits.begin(), a->bits.end());
              size_t start = ii->getIntrinsicID() == Intrinsic::fshl ? w - sh : sh;
              r.bits.assign(cat.begin() + start, cat.begin() + start + w);
            }
            vals[&i] = r;
            continue;
          }
          case Intrinsic::umin: case Intrinsic::umax: {
            auto a = op(0), d = op(1);
            APInt x, y;
            if (!a || !d) return Fail("umin");
            if (pool.IsConst(a->bits, &x) && pool.IsConst(d->bits, &y))
              r.bits = pool.ConstWord((ii->getIntrinsicID() == Intrinsic::umin) == x.ult(y) ? x : y);
            else
              r.bits = pool.Opaque(ii->getIntrinsicID() == Intrinsic::umin ? "umin" : "umax", {a->bits, d->bits}, a->bits.size(), true);
            vals[&i] = r;
            continue;
          }
          case Intrinsic::memcpy: case Intrinsic::memmove: {
            auto a = op(0), d = op(1), s = op(2);
            APInt k;
            if (!a || !d || !s || !pool.IsConst(s->bits, &k) || k.ugt(4096)) return Fail("copy of variable size");
            std::vector<Word> tmp;
            for (uint64_t q = 0; q < k.getZExtValue(); ++q) tmp.push_back(LoadByte(d->obj, d->off + q));
            for (uint64_t q = 0; q < tmp.size(); ++q) mem[{a->obj, a->off + (int64_t)q}] = tmp[q];
            continue;
          }
          case Intrinsic::memset: {
            auto a = op(0), d = op(1), s = op(2);
            APInt k;
            if (!a || !d || !s || !pool.IsConst(s->bits, &k) || k.ugt(4096)) return Fail("fill of variable size");
            for (uint64_t q = 0; q < k.getZExtValue(); ++q) mem[{a->obj, a->off + (int64_t)q}] = d->bits;
            continue;
          }
          default: return Fail("intrinsic " + ii->getCalledFunction()->getName().str());
        }
      }
      if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isUnconditional()) {
          auto& e = edge[{b, br->getSuccessor(0)}];
          e = here;
        } else {
          auto c = op(0);
          if (!c) return Fail("branch");
          edge[{b, br->getSuccessor(0)}] = pool.And(here, c->bits[0]);
          edge[{b, br->getSuccessor(1)}] = pool.And(here, pool.Not(c->bits[0]));
        }
        continue;
      }
      if (auto* sw = dyn_cast<SwitchInst>(&i)) {
        auto c = op(0);
        if (!c) return Fail("switch");
        Bit rest = here;
        std::map<const BasicBlock*, Bit> acc;
        for (auto& cs : sw->cases()) {
          Word k = pool.ConstWord(cs.getCaseValue()->getValue());
          APInt x;
          Bit eq;
          if (pool.IsConst(c->bits, &x)) eq = x == cs.getCaseValue()->getValue() ? pool.one : pool.zero;
          else eq = pool.Opaque("icmp" + std::to_string(ICmpInst::ICMP_EQ), {c->bits, k}, 1, true)[0];
          auto [it, fresh] = acc.emplace(cs.getCaseSuccessor(), pool.zero);
          it->second = pool.Or(it->second, pool.And(here, eq));
          rest = pool.And(rest, pool.Not(eq));
        }
        auto [it, fresh] = acc.emplace(sw->getDefaultDest(), pool.zero);
        it->second = pool.Or(it->second, rest);
        for (auto& [d, e] : acc) edge[{b, d}] = e;
        continue;
      }
      if (isa<UnreachableInst>(i)) continue;
      if (auto* rt = dyn_cast<ReturnInst>(&i)) {
        if (have_ret) return Fail("several returns");
        have_ret = true;
        if (rt->getReturnValue()) {
          auto v = Get(rt->getReturnValue());
          if (!v) return Fail("return value");
          if (ret) *ret = *v;
        }
        if (out_mem)
          for (auto& [k, w] : mem)
            if (k.first < 1000) (*out_mem)[k] = w;
        continue;
      }
      std::string s;
      raw_string_ostream os(s);
      i.print(os);
      return Fail("instruction " + s.substr(0, 60));
    }
    mem_out[b] = mem;
  }
  if (!have_ret) return Fail("does not return");
  return true;
}
}  // namespace vp
