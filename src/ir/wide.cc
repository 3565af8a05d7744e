// dual: two builds of the same sources (compile-time evaluation vs run time, little vs big endian, with and without a
// 128-bit integer type). Functions whose IR differs between the builds must be shown equal.
#include <gmpxx.h>
#include "llvm/BinaryFormat/Dwarf.h"

#include "bits.h"
#include "llvm/Transforms/Utils/ValueMapper.h"
namespace vp {

static bool LibraryFunction(StringRef n) {
  return n.starts_with("_ZSt") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZN9__gnu_cxx") ||
         n.starts_with("_ZNK9__gnu_cxx") || n.starts_with("_ZNSa") || n.starts_with("_ZNSs");
}

static std::map<std::string, std::string> Texts(Module& m) {
  std::map<std::string, std::string> r;
  for (Function& f : m) {
    if (f.isDeclaration() || f.getName().starts_with("__cxx_global") || f.getName().starts_with("_GLOBAL__")) continue;
    std::string s;
    raw_string_ostream os(s);
    f.print(os);
    r[f.getName().str()] = s;
  }
  return r;
}

static void Strip(Module& m) {
  StripDebugInfo(m);
  for (Function& f : m) {
    f.setAttributes({});
    f.setComdat(nullptr);
    f.clearMetadata();
    for (BasicBlock& b : f)
      for (Instruction& i : b) {
        i.dropUnknownNonDebugMetadata();
        if (auto* c = dyn_cast<CallBase>(&i)) {
          AttributeList keep;
          c->setAttributes(keep);
        }
        for (Use& u : i.operands())
          if (auto* mv = dyn_cast<MetadataAsValue>(u.get())) (void)mv;
      }
  }
}

static const char* kPipe =
    "always-inline,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-idiom),"
    "loop(loop-unroll-full),sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,gvn,simplifycfg,aggressive-instcombine,instcombine<no-verify-fixpoint>)";

// One function of `m` and what it calls.
static std::unique_ptr<Module> Reduce(Module& m, const std::string& fn) {
  auto c = CloneModule(m);
  Function* f = c->getFunction(fn);
  if (!f || f->isDeclaration()) return nullptr;
  f->setLinkage(GlobalValue::ExternalLinkage);
  f->setComdat(nullptr);
  for (const char* n : {"llvm.used", "llvm.compiler.used", "llvm.global_ctors"})
    if (auto* g = c->getGlobalVariable(n, true)) g->eraseFromParent();
  for (Function& o : *c)
    if (&o != f && !o.isDeclaration()) {
      o.setComdat(nullptr);
      o.setLinkage(GlobalValue::InternalLinkage);
    }
  for (GlobalVariable& g : c->globals())
    if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
      g.setComdat(nullptr);
      g.setLinkage(GlobalValue::InternalLinkage);
    }
  RunPasses(*c, "globaldce");
  StripDebugInfo(*c);
  return c;
}

// One function of `m`, everything it calls inlined, optionally with one argument fixed.
static std::unique_ptr<Module> Isolate(Module& m, const std::string& fn, int fix_arg, uint64_t fix_val, const char* pipe = kPipe) {
  static std::map<std::pair<Module*, std::string>, std::unique_ptr<Module>> cache;
  auto& red = cache[{&m, fn}];
  if (!red) red = Reduce(m, fn);
  if (!red) return nullptr;
  auto c = CloneModule(*red);
  Function* f = c->getFunction(fn);
  ForceInline(*c, [&](const Function& o) { return &o == f; });
  for (Argument& a : f->args())
    if (a.getType()->isPointerTy()) a.addAttr(Attribute::NoAlias);
  if (fix_arg >= 0) {
    Argument* a = f->getArg(fix_arg);
    a->replaceAllUsesWith(ConstantInt::get(a->getType(), fix_val));
  }
  RunPasses(*c, pipe);
  return c;
}

struct Outcome {
  enum S { kProved, kRefuted, kUnknown } s = kUnknown;
  std::string how, detail;
};

static bool SameVal(BitPool& p, const BitEval::Val& a, const BitEval::Val& b, std::string* diff, bool* poison, bool* opaque) {
  if (a.parts.size() != b.parts.size()) return false;
  for (size_t i = 0; i < a.parts.size(); ++i)
    if (!SameVal(p, a.parts[i], b.parts[i], diff, poison, opaque)) return false;
  if (!a.parts.empty()) return true;
  if (a.is_ptr || b.is_ptr) return a.is_ptr && b.is_ptr && a.obj == b.obj && a.off == b.off;
  if (a.bits.size() != b.bits.size()) return false;
  Word pz = p.Opaque("poison", {}, 64, false);
  auto has = [&](Bit x, auto&& self) -> int {  // 1: depends on poison, 2: depends on an uninterpreted operation
    const auto& d = p.defs[x];
    if (d.kind == BitPool::kNode) {
      return p.node_defs[d.key[0]][0] == p.Name("poison") ? 1 : 2;
    }
    int r = 0;
    if (d.kind >= BitPool::kAnd)
      for (int64_t k : d.key) r |= self((Bit)k, self);
    return r;
  };
  bool same = true;
  for (size_t i = 0; i < a.bits.size(); ++i) {
    int fa = has(a.bits[i], has), fb = has(b.bits[i], has);
    if ((fa | fb) & 1) { *poison = true; continue; }
    if (a.bits[i] != b.bits[i]) {
      if ((fa | fb) & 2) *opaque = true;
      if (same) *diff = "bit " + std::to_string(i) + ": " + p.Str(a.bits[i]) + " versus " + p.Str(b.bits[i]);
      same = false;
    }
  }
  return same;
}

static Outcome CompareBits(Module& a, Module& b, const std::string& fn) {
  Outcome o;
  auto one = [&](int arg, uint64_t val) -> Outcome {
    Outcome r;
    auto ca = Isolate(a, fn, arg, val), cb = Isolate(b, fn, arg, val);
    if (!ca || !cb) { r.detail = "missing in one build"; return r; }
    BitPool pool;
    BitEval ea(pool, ca->getDataLayout()), eb(pool, cb->getDataLayout());
    BitEval::Val va, vb;
    std::map<std::pair<int, int64_t>, Word> ma, mb;
    std::vector<std::optional<APInt>> fixed;
    Function *fa = ca->getFunction(fn), *fb = cb->getFunction(fn);
    if (arg >= 0) {
      fixed.resize(arg + 1);
      fixed[arg] = APInt(fa->getArg(arg)->getType()->getIntegerBitWidth(), val);
    }
    if (!ea.Run(*fa, fixed, &va, &ma)) { r.detail = ea.why; return r; }
    if (!eb.Run(*fb, fixed, &vb, &mb)) { r.detail = eb.why; return r; }
    std::string d;
    bool poison = false, opaque = false;
    bool same = SameVal(pool, va, vb, &d, &poison, &opaque);
    if (ma.size() != mb.size()) same = false, d = "different memory written";
    else
      for (auto& [k, w] : ma)
        if (!mb.count(k) || mb[k] != w) same = false, opaque = true, d = "memory written differs";
    r.s = same ? Outcome::kProved : opaque ? Outcome::kUnknown : Outcome::kRefuted;
    r.detail = d;
    r.how = poison ? "undefined" : "bits";
    return r;
  };
  o = one(-1, 0);
  if (o.s != Outcome::kUnknown) {
    o.how = "bit provenance";
    return o;
  }
  // A length argument: decide each value of its domain up to where one of the builds is undefined for all larger values.
  Function* f = a.getFunction(fn);
  std::vector<int> ints;
  for (Argument& g : f->args())
    if (g.getType()->isIntegerTy(64) || g.getType()->isIntegerTy(32)) ints.push_back(g.getArgNo());
  std::string first = o.detail;
  for (int arg : ints) {
    int defined = 0;
    bool closed = false, ok = true;
    Outcome last;
    for (uint64_t v = 0; v <= 64 && ok; ++v) {
      last = one(arg, v);
      if (last.s == Outcome::kRefuted) {
        last.detail = "argument " + std::to_string(arg) + " = " + std::to_string(v) + ": " + last.detail;
        last.how = "bit provenance";
        return last;
      }
      if (last.s == Outcome::kUnknown) ok = false;
      if (last.how == "undefined") closed = true;
      else if (closed) ok = false;  // defined again beyond an undefined value: not a prefix domain
      else ++defined;
    }
    if (ok && closed) {
      last.s = Outcome::kProved;
      last.how = "bit provenance for each of the " + std::to_string(defined) + " defined lengths";
      return last;
    }
  }
  o.detail = first;
  return o;
}

static Outcome CompareText(Module& a, Module& b, const std::string& fn) {
  Outcome o;
  auto ca = Isolate(a, fn, -1, 0), cb = Isolate(b, fn, -1, 0);
  if (!ca || !cb) return o;
  Strip(*ca);
  Strip(*cb);
  std::string x, y;
  raw_string_ostream(x) << *ca->getFunction(fn);
  raw_string_ostream(y) << *cb->getFunction(fn);
  if (x == y) {
    o.s = Outcome::kProved;
    o.how = "identical after inlining and simplification";
  }
  return o;
}

// ---- exact integer arithmetic: values as polynomials over the arguments and floor-division atoms
struct PolyDom {
  using Mono = std::vector<int>;
  using Poly = std::map<Mono, mpz_class>;
  struct V {
    Poly p;
    mpz_class hi;  // 0 <= value <= hi
    unsigned width;
  };
  std::vector<std::string> atom_names;
  std::map<std::string, int> atoms;
  std::vector<mpz_class> atom_hi;
  static std::string Key(const Poly& p) {
    std::string s;
    for (auto& [m, c] : p) {
      s += c.get_str() + "*";
      for (int a : m) s += std::to_string(a) + ",";
      s += ";";
    }
    return s;
  }
  int Atom(const std::string& k, const mpz_class& hi) {
    auto [it, fresh] = atoms.emplace(k, (int)atom_hi.size());
    if (fresh) atom_hi.push_back(hi);
    return it->second;
  }
  static Poly Add(const Poly& a, const Poly& b, const mpz_class& k = 1) {
    Poly r = a;
    for (auto& [m, c] : b) {
      r[m] += c * k;
      if (r[m] == 0) r.erase(m);
    }
    return r;
  }
  static Poly Mul(const Poly& a, const Poly& b) {
    Poly r;
    for (auto& [m, c] : a)
      for (auto& [n, d] : b) {
        Mono q = m;
        q.insert(q.end(), n.begin(), n.end());
        std::sort(q.begin(), q.end());
        r[q] += c * d;
        if (r[q] == 0) r.erase(q);
      }
    return r;
  }
  static mpz_class Pow2(unsigned k) { return mpz_class(1) << k; }
  unsigned Tz(const Poly& p) {
    unsigned t = 1000;
    for (auto& [m, c] : p) t = std::min<unsigned>(t, mpz_scan1(c.get_mpz_t(), 0));
    return t;
  }
  // floor(x / 2^k)
  V Div(const V& x, unsigned k) {
    if (x.hi < Pow2(k)) return {{}, 0, x.width};
    Poly p = x.p;
    unsigned t = std::min(Tz(p), k);
    for (auto& [m, c] : p) c >>= t;
    mpz_class hi = x.hi >> k;
    if (t == k) return {p, hi, x.width};
    // floor((c + 2^k*r)/2^k) with all other terms divisible: pull divisible terms out of the floor.
    Poly out, rest;
    for (auto& [m, c] : p) {
      if (mpz_divisible_2exp_p(c.get_mpz_t(), k - t)) out[m] = c >> (k - t);
      else rest[m] = c;
    }
    // Only sound as an identity (floor(2^k a + b) = a + floor(b)), true for any integer b.
    int at = Atom("floor:" + std::to_string(k - t) + ":" + Key(rest), hi);
    Poly q = Add(out, Poly{{{at}, 1}});
    return {q, hi, x.width};
  }
  V Mod(const V& x, unsigned k) {
    if (x.hi < Pow2(k)) return x;
    V d = Div(x, k);
    return {Add(x.p, d.p, -Pow2(k)), Pow2(k) - 1, x.width};
  }
};

static std::string PolyIdentity(Module& m, const std::string& fn) {
  // Returns "" if fn(a, b) computes the exact product: (lo, hi) with lo + 2^64 hi = a*b, or lo ^ hi of such a pair.
  auto c = Isolate(m, fn, -1, 0, "always-inline,globaldce,function(sroa,early-cse,simplifycfg)");
  if (!c) return "missing";
  Function* f = c->getFunction(fn);
  PolyDom d;
  using V = PolyDom::V;
  std::map<const Value*, V> vals;
  std::vector<const Argument*> args;
  for (Argument& a : f->args()) {
    if (!a.getType()->isIntegerTy(64)) return "argument types";
    int at = d.Atom("arg" + std::to_string(a.getArgNo()), PolyDom::Pow2(64) - 1);
    vals[&a] = {PolyDom::Poly{{{at}, 1}}, PolyDom::Pow2(64) - 1, 64};
    args.push_back(&a);
  }
  if (args.size() != 2) return "argument count";
  if (f->size() != 1) return "control flow in a multiply helper";
  auto get = [&](const Value* v, bool* ok) -> V {
    *ok = true;
    if (auto it = vals.find(v); it != vals.end()) return it->second;
    if (auto* ci = dyn_cast<ConstantInt>(v)) {
      SmallString<64> s;
      ci->getValue().toStringUnsigned(s);
      mpz_class k(std::string(s.str()));
      PolyDom::Poly p;
      if (k != 0) p[{}] = k;
      return {p, k, ci->getBitWidth()};
    }
    *ok = false;
    return {};
  };
  PolyDom::Poly want = PolyDom::Mul(vals[args[0]].p, vals[args[1]].p);
  auto pair_ok = [&](const V& lo, const V& hi) {
    PolyDom::Poly sum = PolyDom::Add(lo.p, hi.p, PolyDom::Pow2(64));
    return lo.hi < PolyDom::Pow2(64) && hi.hi < PolyDom::Pow2(64) && PolyDom::Key(sum) == PolyDom::Key(want);
  };
  std::map<const Value*, std::pair<const Value*, const Value*>> xors;
  std::map<const Value*, std::map<unsigned, const Value*>> aggs;
  for (Instruction& i : f->getEntryBlock()) {
    if (isa<DbgInfoIntrinsic>(i) || isa<AllocaInst>(i)) continue;
    if (auto* ii = dyn_cast<IntrinsicInst>(&i))
      if (ii->isLifetimeStartOrEnd() || ii->getIntrinsicID() == Intrinsic::assume) continue;
    bool ok1 = true, ok2 = true;
    if (auto* bo = dyn_cast<BinaryOperator>(&i)) {
      if (bo->getOpcode() == Instruction::Xor) {
        xors[&i] = {bo->getOperand(0), bo->getOperand(1)};
        continue;
      }
      V x = get(bo->getOperand(0), &ok1), y = get(bo->getOperand(1), &ok2);
      if (!ok1 || !ok2) return "operand at " + Loc(i);
      unsigned w = i.getType()->getIntegerBitWidth();
      V r;
      r.width = w;
      auto* ky = dyn_cast<ConstantInt>(bo->getOperand(1));
      switch (bo->getOpcode()) {
        case Instruction::Add: r = d.Mod({PolyDom::Add(x.p, y.p), x.hi + y.hi, w}, w); break;
        case Instruction::Mul: r = d.Mod({PolyDom::Mul(x.p, y.p), x.hi * y.hi, w}, w); break;
        case Instruction::Shl: {
          if (!ky) return "variable shift";
          mpz_class k = PolyDom::Pow2(ky->getZExtValue());
          r = d.Mod({PolyDom::Mul(x.p, PolyDom::Poly{{{}, k}}), x.hi * k, w}, w);
          break;
        }
        case Instruction::LShr:
          if (!ky) return "variable shift";
          r = d.Div(x, ky->getZExtValue());
          break;
        case Instruction::And: {
          if (!ky || !(ky->getValue() + 1).isPowerOf2()) return "mask";
          r = d.Mod(x, ky->getValue().countr_one());
          break;
        }
        case Instruction::Or: {
          V *a = &x, *b = &y;
          if (d.Tz(a->p) < d.Tz(b->p)) std::swap(a, b);
          if (b->hi >= PolyDom::Pow2(std::min(d.Tz(a->p), 200U))) return "overlapping or at " + Loc(i);
          r = {PolyDom::Add(x.p, y.p), std::min<mpz_class>(x.hi + y.hi, PolyDom::Pow2(w) - 1), w};  // disjoint bits
          break;
        }
        default: return std::string("operation ") + bo->getOpcodeName() + " at " + Loc(i);
      }
      vals[&i] = r;
      continue;
    }
    if (isa<ZExtInst>(i) || isa<TruncInst>(i)) {
      V x = get(i.getOperand(0), &ok1);
      if (!ok1) return "operand at " + Loc(i);
      unsigned w = i.getType()->getIntegerBitWidth();
      x = d.Mod(x, w);
      x.width = w;
      vals[&i] = x;
      continue;
    }
    if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
      auto m2 = aggs[iv->getAggregateOperand()];
      m2[iv->getIndices()[0]] = iv->getInsertedValueOperand();
      aggs[&i] = m2;
      continue;
    }
    if (auto* rt = dyn_cast<ReturnInst>(&i)) {
      const Value* v = rt->getReturnValue();
      if (aggs.count(v)) {
        V lo = get(aggs[v][0], &ok1), hi = get(aggs[v][1], &ok2);
        if (!ok1 || !ok2) return "result";
        return pair_ok(lo, hi) ? "" : "lo + 2^64*hi is not the product";
      }
      if (xors.count(v)) {
        V lo = get(xors[v].first, &ok1), hi = get(xors[v].second, &ok2);
        if (!ok1 || !ok2) return "result";
        return pair_ok(lo, hi) || pair_ok(hi, lo) ? "" : "the folded halves are not the halves of the product";
      }
      return "result shape";
    }
    std::string s;
    raw_string_ostream os(s);
    i.print(os);
    return "instruction " + s;
  }
  return "no return";
}

// A use of memory at two widths makes the value depend on the byte order. In the big-endian build every access to the
// bytes of an input or of a byte array must be one byte wide, except inside `proved` functions.
static void Punning(Module& m, const std::set<std::string>& proved, Report& rep, int* accesses) {
  auto c = CloneModule(m);
  // Wrappers that only combine operations analysed through other entries.
  auto skip = [](StringRef n) {
    for (const char* p : {"vp_ld_", "vp_dig_oneshot", "vp_dig_sfinal", "vp_dig_supdate", "vp_hmac_sfinal", "vp_hmac_update", "vp_hmac_oneshot",
                          "vp_hs_supdate", "vp_hs_sfinal", "vp_hasher32_", "vp_mangled_"})
      if (n.starts_with(p)) return true;
    return false;
  };
  for (const char* n : {"llvm.used", "llvm.compiler.used", "llvm.global_ctors"})
    if (auto* g = c->getGlobalVariable(n, true)) g->eraseFromParent();
  for (Function& f : *c)
    if (!f.isDeclaration() && (!f.getName().starts_with("vp_") || skip(f.getName()))) {
      f.setComdat(nullptr);
      f.setLinkage(GlobalValue::InternalLinkage);
    }
  RunPasses(*c, "globaldce");
  ForceInline(*c, [](const Function& f) { return f.getName().starts_with("vp_"); },
              [&](const Function& f) { return proved.count(f.getName().str()) > 0; });
  RunPasses(*c, "always-inline,function(mem2reg)");
  const DataLayout& dl = c->getDataLayout();
  std::set<std::string> seen;
  // Element width declared at a byte offset of a type; 0 = unknown/padding.
  std::function<unsigned(Type*, uint64_t)> width_at = [&](Type* t, uint64_t off) -> unsigned {
    if (auto* s = dyn_cast<StructType>(t)) {
      const StructLayout* sl = dl.getStructLayout(s);
      if (s->getNumElements() == 0 || off >= sl->getSizeInBytes()) return 0;
      unsigned k = sl->getElementContainingOffset(off);
      return width_at(s->getElementType(k), off - sl->getElementOffset(k));
    }
    if (auto* a = dyn_cast<ArrayType>(t)) {
      uint64_t es = dl.getTypeAllocSize(a->getElementType());
      return es ? width_at(a->getElementType(), off % es) : 0;
    }
    return t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
  };
  for (Function& f : *c) {
    if (f.isDeclaration() || proved.count(f.getName().str()) || !f.getName().starts_with("vp_")) continue;
    if (skip(f.getName())) continue;
    for (Instruction& i : instructions(f)) {
      // Returns the declared width of the elements `p` points into, or 0 when it is not known.
      auto elem = [&](const Value* p) -> unsigned {
        SmallVector<const Value*, 4> objs;
        getUnderlyingObjects(p, objs, nullptr, 0);
        unsigned w = 0;
        for (const Value* o : objs) {
          unsigned k = 0;
          if (auto* a = dyn_cast<Argument>(o)) {
            // Byte inputs and outputs: pointers to (const) char / unsigned char in the declared signature.
            unsigned n = a->getArgNo();
            if (auto* sp = f.getSubprogram())
              if (auto* st = sp->getType(); st && n + 1 < st->getTypeArray().size()) {
                const DIType* t = st->getTypeArray()[n + 1];
                auto strip = [](const DIType* t) {
                  while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
                    if (d->getTag() == dwarf::DW_TAG_pointer_type) break;
                    t = d->getBaseType();
                  }
                  return t;
                };
                t = strip(t);
                if (auto* d = dyn_cast_or_null<DIDerivedType>(t))
                  if (auto* b = dyn_cast_or_null<DIBasicType>(strip(d->getBaseType()))) k = b->getSizeInBits();
              }
          } else if (auto* al = dyn_cast<AllocaInst>(o)) {
            APInt off(64, 0);
            const Value* base = p->stripAndAccumulateConstantOffsets(dl, off, true);
            if (base == al) k = width_at(al->getAllocatedType(), off.getZExtValue());
            else {
              // variable index: use the last array indexed
              if (auto* at = dyn_cast<ArrayType>(al->getAllocatedType())) k = width_at(at, 0);
              else if (auto* st = dyn_cast<StructType>(al->getAllocatedType()); st && st->getNumElements() == 1) k = width_at(st, 0);
            }
          } else if (auto* g = dyn_cast<GlobalVariable>(o)) {
            k = width_at(g->getValueType(), 0);
          }
          w = std::max(w, k);
        }
        return w;
      };
      // Struct passing moves byte arrays through registers; a pure copy between byte objects keeps the bytes in order.
      std::function<bool(const Value*, int)> from_bytes = [&](const Value* v, int depth) -> bool {
        if (depth > 8) return false;
        if (isa<UndefValue>(v)) return true;
        if (auto* l = dyn_cast<LoadInst>(v)) return elem(l->getPointerOperand()) == 8;
        if (auto* e = dyn_cast<ExtractValueInst>(v)) return from_bytes(e->getAggregateOperand(), depth + 1);
        if (auto* e = dyn_cast<InsertValueInst>(v))
          return from_bytes(e->getAggregateOperand(), depth + 1) && from_bytes(e->getInsertedValueOperand(), depth + 1);
        if (auto* e = dyn_cast<PHINode>(v)) {
          for (const Use& u : e->incoming_values())
            if (u.get() != v && !from_bytes(u.get(), depth + 1)) return false;
          return true;
        }
        return false;
      };
      std::function<bool(const Value*, int)> to_bytes = [&](const Value* v, int depth) -> bool {
        if (depth > 8) return false;
        for (const User* u : v->users()) {
          if (auto* s = dyn_cast<StoreInst>(u); s && s->getValueOperand() == v && elem(s->getPointerOperand()) == 8) continue;
          if ((isa<ExtractValueInst>(u) || isa<InsertValueInst>(u) || isa<PHINode>(u)) && to_bytes(u, depth + 1)) continue;
          return false;
        }
        return true;
      };
      auto flag = [&](const char* what) {
        std::string key = Loc(i) + what;
        if (!seen.insert(key).second) return;
        rep.Viol(json::Object{{"rule", "byte-order"}, {"what", what}, {"where", Loc(i)}, {"entry", f.getName().str()}});
      };
      if (auto* l = dyn_cast<LoadInst>(&i)) {
        if (!l->getType()->isIntegerTy()) continue;
        ++*accesses;
        unsigned e = elem(l->getPointerOperand()), w = l->getType()->getIntegerBitWidth();
        if (e == 8 && w > 8 && !to_bytes(l, 0)) flag("bytes read as a wider integer without fixing the byte order");
        if (e > 8 && w < e && w >= 8) flag("part of a wider integer read from memory");
      } else if (auto* s = dyn_cast<StoreInst>(&i)) {
        if (!s->getValueOperand()->getType()->isIntegerTy()) continue;
        ++*accesses;
        unsigned e = elem(s->getPointerOperand()), w = s->getValueOperand()->getType()->getIntegerBitWidth();
        if (e == 8 && w > 8 && !from_bytes(s->getValueOperand(), 0)) flag("wider integer written over bytes without fixing the byte order");
        if (e > 8 && w < e && w >= 8) flag("part of a wider integer written through memory");
      } else if (auto* mt = dyn_cast<AnyMemTransferInst>(&i)) {
        ++*accesses;
        unsigned a = elem(mt->getRawDest()), b = elem(mt->getRawSource());
        if ((a == 8 && b > 8) || (b == 8 && a > 8)) flag("bytes copied to or from wider integers without fixing the byte order");
      }
    }
  }
}

// The same rule function by function, using declared pointer types: catches views whose pointer travels through memory.
static void PunningDeclared(Module& m, const std::set<std::string>& proved, Report& rep, int* accesses) {
  auto c = CloneModule(m);
  RunPasses(*c, "function(mem2reg)");
  std::set<const Function*> reach;
  std::vector<const Function*> work;
  for (const Function& f : *c)
    if (!f.isDeclaration() && f.getName().starts_with("vp_")) reach.insert(&f), work.push_back(&f);
  while (!work.empty()) {
    const Function* f = work.back();
    work.pop_back();
    if (proved.count(f->getName().str())) continue;
    for (const Instruction& i : instructions(*f))
      if (auto* cb = dyn_cast<CallBase>(&i))
        if (auto* g = cb->getCalledFunction(); g && !g->isDeclaration() && reach.insert(g).second) work.push_back(g);
  }
  auto strip = [](const DIType* t) -> const DIType* {
    while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
      unsigned tag = d->getTag();
      if (tag == dwarf::DW_TAG_pointer_type || tag == dwarf::DW_TAG_reference_type) break;
      t = d->getBaseType();
    }
    return t;
  };
  auto pointee = [&](const DIType* t) -> unsigned {
    t = strip(t);
    auto* d = dyn_cast_or_null<DIDerivedType>(t);
    if (!d) return 0;
    auto* b = dyn_cast_or_null<DIBasicType>(strip(d->getBaseType()));
    return b ? b->getSizeInBits() : 0;
  };
  std::set<std::string> seen;
  for (const Function* fp : reach) {
    const Function& f = *fp;
    if (proved.count(f.getName().str()) || LibraryFunction(f.getName())) continue;
    std::map<const Value*, unsigned> width;
    for (const Instruction& i : instructions(f))
      if (auto* dv = dyn_cast<DbgValueInst>(&i))
        if (dv->getNumVariableLocationOps() == 1 && dv->getVariable() && dv->getValue() && dv->getValue()->getType()->isPointerTy() &&
            dv->getExpression()->getNumElements() == 0)
          if (unsigned w = pointee(dv->getVariable()->getType())) width[dv->getValue()] = w;
    auto elem = [&](const Value* p, bool locals) -> unsigned {
      for (int d = 0; d < 20; ++d) {
        if (auto it = width.find(p); it != width.end()) return it->second;
        if (auto* g = dyn_cast<GEPOperator>(p)) { p = g->getPointerOperand(); continue; }
        if (auto* cb = dyn_cast<CallBase>(p)) {
          auto* g = cb->getCalledFunction();
          if (!g || !g->getSubprogram()) return 0;
          auto* st = g->getSubprogram()->getType();
          return st && st->getTypeArray().size() ? pointee(st->getTypeArray()[0]) : 0;
        }
        if (auto* al = dyn_cast<AllocaInst>(p)) {
          if (!locals) return 0;  // coerced argument and result registers
          Type* t = al->getAllocatedType();
          while (t->isArrayTy() || (t->isStructTy() && t->getStructNumElements() == 1))
            t = t->isArrayTy() ? t->getArrayElementType() : t->getStructElementType(0);
          return t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
        }
        return 0;
      }
      return 0;
    };
    auto flag = [&](const Instruction& i, const char* what) {
      if (!seen.insert(Loc(i) + what).second) return;
      rep.Viol(json::Object{{"rule", "byte-order"}, {"what", what}, {"where", Loc(i)}, {"function", FnName(f)}});
    };
    for (const Instruction& i : instructions(f)) {
      if (auto* l = dyn_cast<LoadInst>(&i)) {
        if (!l->getType()->isIntegerTy()) continue;
        ++*accesses;
        if (elem(l->getPointerOperand(), false) == 8 && l->getType()->getIntegerBitWidth() > 8) flag(i, "bytes read as a wider integer without fixing the byte order");
      } else if (auto* s = dyn_cast<StoreInst>(&i)) {
        if (!s->getValueOperand()->getType()->isIntegerTy()) continue;
        ++*accesses;
        if (elem(s->getPointerOperand(), false) == 8 && s->getValueOperand()->getType()->getIntegerBitWidth() > 8 && !isa<Argument>(s->getValueOperand()))
          flag(i, "wider integer written over bytes without fixing the byte order");
      } else if (auto* mt = dyn_cast<AnyMemTransferInst>(&i)) {
        ++*accesses;
        unsigned a = elem(mt->getRawDest(), true), b = elem(mt->getRawSource(), true);
        if ((a == 8 && b > 8) || (b == 8 && a > 8)) flag(i, "bytes copied to or from wider integers without fixing the byte order");
      }
    }
  }
}

int Dual(const std::vector<std::string>& args) {
  // args: mode(ce|endian|mul) reference.bc variant.bc
  LLVMContext ctx;
  std::string mode = args[0];
  auto a = Load(ctx, args[1]);
  LLVMContext ctx2;  // separate: otherwise equal struct names get renamed
  auto b = Load(ctx2, args[2]);
  if (mode == "endian") {
    std::string s = b->getDataLayoutStr();
    if (s[0] == 'e') s[0] = 'E';
    b->setDataLayout(s);
  }
  Report rep;
  std::map<std::string, std::string> ta, tb;
  {
    auto x = CloneModule(*a), y = CloneModule(*b);
    Strip(*x);
    Strip(*y);
    ta = Texts(*x);
    tb = Texts(*y);
  }
  std::vector<std::string> diff;
  int same = 0, lib = 0;
  for (auto& [n, t] : ta) {
    if (!tb.count(n)) continue;
    if (tb[n] == t) { ++same; continue; }
    if (LibraryFunction(n)) { ++lib; continue; }
    if (getenv("VP_TRACE")) { std::error_code ec; raw_fd_ostream("/tmp/ta.txt", ec) << t; raw_fd_ostream("/tmp/tb.txt", ec) << tb[n]; }
    diff.push_back(n);
  }
  std::set<std::string> proved;
  // Callers of an unproved function are compared with it inlined, up to the entry points.
  std::vector<std::string> work = diff;
  std::set<std::string> queued(work.begin(), work.end());
  for (size_t q = 0; q < work.size(); ++q) {
    const std::string n = work[q];
    Function* f = a->getFunction(n);
    Outcome o;
    if (mode == "mul") {
      std::string ra = PolyIdentity(*a, n), rb = PolyIdentity(*b, n);
      if (ra.empty() && rb.empty()) o.s = Outcome::kProved, o.how = "both compute the exact 128-bit product (polynomial identity)";
      else if (ra.empty()) o.s = rb.find("product") != std::string::npos ? Outcome::kRefuted : Outcome::kUnknown, o.detail = rb;
      else o.detail = ra;
    }
    if (o.s == Outcome::kUnknown) {
      Outcome o2 = CompareBits(*a, *b, n);
      if (o2.s != Outcome::kUnknown || o.detail.empty()) o = o2;
    }
    if (o.s == Outcome::kUnknown) {
      Outcome t = CompareText(*a, *b, n);
      if (t.s == Outcome::kProved) o = t;
    }
    if (getenv("VP_TRACE")) errs() << FnName(*f) << ": " << (int)o.s << " " << o.how << " " << o.detail << "\n";
    json::Object item{{"function", FnName(*f)}, {"result", o.s == Outcome::kProved ? "equal" : o.s == Outcome::kRefuted ? "different" : "unknown"},
                      {"how", o.how}, {"detail", o.detail}};
    std::string where = "?";
    if (auto* sp = f->getSubprogram()) where = ShortPath(sp->getFilename()) + ":" + std::to_string(sp->getLine());
    if (o.s == Outcome::kProved) {
      proved.insert(n);
    } else if (o.s == Outcome::kRefuted || f->getName().starts_with("vp_")) {
      rep.Viol(json::Object{{"rule", mode}, {"what", o.s == Outcome::kRefuted ? "the two builds compute different values: " + o.detail
                                                                 : "the two builds differ and were not shown equal: " + o.detail},
                            {"function", FnName(*f)}, {"where", where}});
    } else {
      bool any = false;
      for (User* u : f->users())
        if (auto* cb = dyn_cast<CallBase>(u)) {
          any = true;
          std::string cn = cb->getFunction()->getName().str();
          if (queued.insert(cn).second) work.push_back(cn);
        }
      (void)any;
    }
    rep.items.push_back(std::move(item));
  }
  int acc = 0;
  if (mode == "endian") {
    Punning(*b, proved, rep, &acc);
    PunningDeclared(*b, proved, rep, &acc);
  }
  rep.stats = json::Object{{"functions_identical", same}, {"library_functions_skipped", lib}, {"functions_compared", (int64_t)work.size()},
                           {"functions_proved", (int64_t)proved.size()}, {"memory_accesses_checked", acc}};
  rep.Print();
  return 0;
}
}  // namespace vp
