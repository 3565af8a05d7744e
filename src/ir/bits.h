// Bit-provenance value numbering: every bit of a value is described by where it comes from (an input byte, an argument,
// a constant, or a bit of an uninterpreted operation). Two values with the same description are equal for all inputs.
#pragma once
#include "common.h"
namespace vp {

using Bit = int;                 // interned bit description
using Word = std::vector<Bit>;   // least significant bit first

struct BitPool {
  enum Kind { kConst, kMem, kArg, kNode, kAnd, kOr, kXor, kNot, kMux };
  struct Def {
    int kind;
    std::vector<int64_t> key;
    bool operator<(const Def& o) const { return std::tie(kind, key) < std::tie(o.kind, o.key); }
  };
  std::map<Def, Bit> intern;
  std::vector<Def> defs;
  std::map<std::vector<int64_t>, int> nodes;
  std::vector<std::vector<int64_t>> node_defs;
  std::map<std::string, int> names;
  std::map<Word, int> words;
  Bit zero, one;
  BitPool() {
    zero = Get({kConst, {0}});
    one = Get({kConst, {1}});
  }
  Bit Get(Def d) {
    auto [it, fresh] = intern.emplace(d, (int)defs.size());
    if (fresh) defs.push_back(d);
    return it->second;
  }
  int Name(const std::string& s) { return names.emplace(s, (int)names.size()).first->second; }
  int WordId(const Word& w) { return words.emplace(w, (int)words.size()).first->second; }
  Bit Not(Bit a) {
    if (a == zero) return one;
    if (a == one) return zero;
    if (defs[a].kind == kNot) return (Bit)defs[a].key[0];
    return Get({kNot, {a}});
  }
  Bit Nary(int kind, Bit a, Bit b) {
    std::vector<int64_t> ops;
    for (Bit x : {a, b}) {
      if (defs[x].kind == kind) ops.insert(ops.end(), defs[x].key.begin(), defs[x].key.end());
      else ops.push_back(x);
    }
    std::sort(ops.begin(), ops.end());
    if (kind == kXor) {
      std::vector<int64_t> r;
      bool inv = false;
      for (size_t i = 0; i < ops.size(); ++i) {
        int64_t o = ops[i];
        if (o == zero) continue;
        if (o == one) { inv = !inv; continue; }
        if (defs[o].kind == kNot) { inv = !inv; o = defs[o].key[0]; }
        r.push_back(o);
      }
      std::sort(r.begin(), r.end());
      std::vector<int64_t> q;
      for (int64_t o : r) {
        if (!q.empty() && q.back() == o) q.pop_back();
        else q.push_back(o);
      }
      Bit out = q.empty() ? zero : q.size() == 1 ? (Bit)q[0] : Get({kXor, q});
      return inv ? Not(out) : out;
    }
    ops.erase(std::unique(ops.begin(), ops.end()), ops.end());
    Bit unit = kind == kAnd ? one : zero, absorb = kind == kAnd ? zero : one;
    std::vector<int64_t> r;
    for (int64_t o : ops) {
      if (o == absorb) return absorb;
      if (o == unit) continue;
      r.push_back(o);
    }
    for (int64_t o : r)
      if (defs[o].kind == kNot && std::binary_search(r.begin(), r.end(), defs[o].key[0])) return absorb;
    if (r.empty()) return unit;
    if (r.size() == 1) return (Bit)r[0];
    return Get({kind, r});
  }
  Bit And(Bit a, Bit b) { return Nary(kAnd, a, b); }
  Bit Or(Bit a, Bit b) { return Nary(kOr, a, b); }
  Bit Xor(Bit a, Bit b) { return Nary(kXor, a, b); }
  Bit Mux(Bit c, Bit a, Bit b) {
    if (c == one || a == b) return a;
    if (c == zero) return b;
    if (a == one && b == zero) return c;
    if (a == zero && b == one) return Not(c);
    if (b == zero) return And(c, a);
    if (a == one) return Or(c, b);
    return Get({kMux, {c, a, b}});
  }
  Word ConstWord(const APInt& v) {
    Word w(v.getBitWidth());
    for (unsigned i = 0; i < v.getBitWidth(); ++i) w[i] = v[i] ? one : zero;
    return w;
  }
  bool IsConst(const Word& w, APInt* out = nullptr) const {
    APInt v(w.size(), 0);
    for (size_t i = 0; i < w.size(); ++i) {
      if (w[i] == one) v.setBit(i);
      else if (w[i] != zero) return false;
    }
    if (out) *out = v;
    return true;
  }
  Word MemByte(int obj, int64_t off) {
    Word w(8);
    for (int i = 0; i < 8; ++i) w[i] = Get({kMem, {obj, off, i}});
    return w;
  }
  Word Opaque(const std::string& op, std::vector<Word> args, unsigned width, bool commutative) {
    std::vector<int64_t> key{Name(op), width};
    std::vector<int64_t> ids;
    for (auto& a : args) ids.push_back(WordId(a));
    if (commutative) std::sort(ids.begin(), ids.end());
    key.insert(key.end(), ids.begin(), ids.end());
    auto [it, fresh] = nodes.emplace(key, (int)node_defs.size());
    if (fresh) node_defs.push_back(key);
    Word w(width);
    for (unsigned i = 0; i < width; ++i) w[i] = Get({kNode, {it->second, i}});
    return w;
  }
  std::string Str(Bit b, int depth = 0) const {
    const Def& d = defs[b];
    auto k = [&](int i) { return d.key[i]; };
    switch (d.kind) {
      case kConst: return k(0) ? "1" : "0";
      case kMem: return "in" + std::to_string(k(0)) + "[" + std::to_string(k(1)) + "]." + std::to_string(k(2));
      case kArg: return "arg" + std::to_string(k(0)) + "." + std::to_string(k(1));
      case kNode: return "op" + std::to_string(k(0)) + "." + std::to_string(k(1));
      case kNot: return "!" + Str((Bit)k(0), depth + 1);
      default: {
        if (depth > 2) return "(..)";
        std::string s = "(";
        const char* op = d.kind == kAnd ? "&" : d.kind == kOr ? "|" : d.kind == kXor ? "^" : "?";
        for (size_t i = 0; i < d.key.size(); ++i) s += (i ? op : "") + Str((Bit)d.key[i], depth + 1);
        return s + ")";
      }
    }
  }
};

// Evaluates one acyclic function symbol-free: each SSA value becomes a Word. Returns false if it uses something this
// domain does not describe.
struct BitEval {
  BitPool& pool;
  const DataLayout& dl;
  bool big_endian;
  std::string why;
  struct Val {
    Word bits;               // integers
    bool is_ptr = false;
    int obj = -1;            // pointer: object id
    int64_t off = 0;
    std::vector<Val> parts;  // aggregates
    bool poison = false;
  };
  std::map<const Value*, Val> vals;
  std::map<std::pair<int, int64_t>, Word> mem;  // (object, byte offset) -> byte
  std::map<int, const GlobalVariable*> const_objs;
  std::map<int, const AllocaInst*> local_objs;
  int next_obj = 1000;
  bool poison_ret = false;

  BitEval(BitPool& p, const DataLayout& d) : pool(p), dl(d), big_endian(d.isBigEndian()) {}
  bool Fail(const std::string& w) {
    if (why.empty()) why = w;
    return false;
  }

  std::optional<Val> Get(const Value* v) {
    auto it = vals.find(v);
    if (it != vals.end()) return it->second;
    Val r;
    if (auto* c = dyn_cast<ConstantInt>(v)) {
      r.bits = pool.ConstWord(c->getValue());
      return r;
    }
    if (isa<UndefValue>(v)) {  // undef and poison
      r.poison = true;
      if (v->getType()->isIntegerTy()) {
        r.bits = pool.Opaque("poison", {}, v->getType()->getIntegerBitWidth(), false);
      } else if (auto* st = dyn_cast<StructType>(v->getType())) {
        for (Type* e : st->elements()) r.parts.push_back(*Get(UndefValue::get(e)));
      } else if (auto* at = dyn_cast<ArrayType>(v->getType())) {
        for (uint64_t i = 0; i < at->getNumElements(); ++i) r.parts.push_back(*Get(UndefValue::get(at->getElementType())));
      }
      return r;
    }
    if (auto* g = dyn_cast<GlobalVariable>(v)) {
      r.is_ptr = true;
      r.obj = 2000 + pool.Name("g:" + g->getName().str());
      const_objs[r.obj] = g;
      return r;
    }
    if (auto* c = dyn_cast<ConstantAggregate>(v)) {
      for (unsigned i = 0; i < c->getNumOperands(); ++i) {
        auto e = Get(c->getOperand(i));
        if (!e) return std::nullopt;
        r.parts.push_back(*e);
      }
      return r;
    }
    if (auto* c = dyn_cast<ConstantAggregateZero>(v)) {
      (void)c;
      if (auto* st = dyn_cast<StructType>(v->getType()))
        for (Type* e : st->elements()) r.parts.push_back(*Get(Constant::getNullValue(e)));
      else if (auto* at = dyn_cast<ArrayType>(v->getType()))
        for (uint64_t i = 0; i < at->getNumElements(); ++i) r.parts.push_back(*Get(Constant::getNullValue(at->getElementType())));
      return r;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v); ce && v->getType()->isPointerTy()) {
      APInt off(64, 0);
      const Value* base = v->stripAndAccumulateConstantOffsets(dl, off, true);
      if (base != v) {
        auto b = Get(base);
        if (b && b->is_ptr) {
          b->off += off.getSExtValue();
          return b;
        }
      }
    }
    Fail("operand kind");
    return std::nullopt;
  }

  Word LoadByte(int obj, int64_t off) {
    auto it = mem.find({obj, off});
    if (it != mem.end()) return it->second;
    if (const_objs.count(obj)) {
      const GlobalVariable* g = const_objs[obj];
      Type* i8 = Type::getInt8Ty(g->getContext());
      if (g->isConstant() && g->hasInitializer()) {
        // Fold byte reads through the declared element so that the byte order of the target does not matter here.
        if (Constant* c = ConstantFoldByte(g, off, i8)) return pool.ConstWord(cast<ConstantInt>(c)->getValue());
      }
    }
    if (local_objs.count(obj)) return pool.Opaque("uninit", {}, 8, false);
    return pool.MemByte(obj, off);
  }
  Constant* ConstantFoldByte(const GlobalVariable* g, int64_t off, Type* i8);

  bool Run(const Function& f, const std::vector<std::optional<APInt>>& fixed, Val* ret,
           std::map<std::pair<int, int64_t>, Word>* out_mem);
};
}  // namespace vp
