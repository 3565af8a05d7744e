// Finds block kernels and prepares entry functions for the abstract interpreter.
#include "absint.h"
#include "llvm/Analysis/Utils/Local.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/MDBuilder.h"

namespace vp {

static const char* kFull =
    "always-inline,globaldce,function(lower-expect,sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-idiom),"
    "loop(loop-unroll-full),sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,gvn,simplifycfg,instcombine<no-verify-fixpoint>)";
static const char* kEntry =
    "always-inline,globaldce,function(lower-expect,sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(loop-rotate),loop(loop-idiom,loop-deletion),"
    "loop(loop-unroll-full),sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,early-cse,simplifycfg,dse,instcombine<no-verify-fixpoint>,simplifycfg)";

// Pointer phis and selects over one object become integer offsets from that object.
static void OffsetPhis(Function& f) {
  const DataLayout& dl = f.getParent()->getDataLayout();
  auto roots = [&](Value* v) {
    std::set<Value*> seen, r;
    std::vector<Value*> w{v};
    while (!w.empty()) {
      Value* x = w.back();
      w.pop_back();
      if (!seen.insert(x).second) continue;
      if (auto* g = dyn_cast<GEPOperator>(x)) w.push_back(g->getPointerOperand());
      else if (auto* p = dyn_cast<PHINode>(x)) w.insert(w.end(), p->op_begin(), p->op_end());
      else if (auto* s = dyn_cast<SelectInst>(x)) w.push_back(s->getTrueValue()), w.push_back(s->getFalseValue());
      else r.insert(x);
    }
    return r;
  };
  std::map<Value*, Value*> off;
  std::function<Value*(Value*)> offset = [&](Value* v) -> Value* {
    auto it = off.find(v);
    if (it != off.end()) return it->second;
    Type* t = Type::getInt64Ty(f.getContext());
    if (auto* g = dyn_cast<GetElementPtrInst>(v)) {
      Value* b = offset(g->getPointerOperand());
      IRBuilder<> ir(g);
      return off[v] = ir.CreateAdd(b, emitGEPOffset(&ir, dl, g, true));
    }
    if (auto* g = dyn_cast<GEPOperator>(v)) {
      APInt k(64, 0);
      if (!g->accumulateConstantOffset(dl, k)) return nullptr;
      Value* b = offset(g->getPointerOperand());
      IRBuilder<> ir(&*f.getEntryBlock().getFirstInsertionPt());
      return off[v] = ir.CreateAdd(b, ConstantInt::get(t, k));
    }
    if (auto* p = dyn_cast<PHINode>(v)) {
      auto* n = PHINode::Create(t, p->getNumIncomingValues(), "off", p);
      n->setDebugLoc(p->getDebugLoc());
      off[v] = n;
      for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) n->addIncoming(offset(p->getIncomingValue(i)), p->getIncomingBlock(i));
      return n;
    }
    if (auto* s = dyn_cast<SelectInst>(v)) {
      Value *a = offset(s->getTrueValue()), *b = offset(s->getFalseValue());
      IRBuilder<> ir(s);
      return off[v] = ir.CreateSelect(s->getCondition(), a, b);
    }
    return off[v] = ConstantInt::get(t, 0);
  };
  std::vector<Instruction*> todo;
  for (Instruction& i : instructions(f))
    if (i.getType()->isPointerTy() && (isa<PHINode>(i) || isa<SelectInst>(i))) {
      auto r = roots(&i);
      if (r.size() == 1 && (isa<Argument>(*r.begin()) || isa<AllocaInst>(*r.begin()) || isa<GlobalVariable>(*r.begin()))) todo.push_back(&i);
    }
  std::vector<std::pair<Instruction*, Value*>> repl;
  for (Instruction* i : todo) {
    Value* root = *roots(i).begin();
    Value* o = offset(i);
    IRBuilder<> ir(isa<PHINode>(i) ? &*i->getParent()->getFirstInsertionPt() : i->getNextNode());
    ir.SetCurrentDebugLocation(i->getDebugLoc());
    repl.push_back({i, ir.CreateGEP(Type::getInt8Ty(f.getContext()), root, o)});
  }
  for (auto& [i, v] : repl) i->replaceAllUsesWith(v);
  for (auto& [i, v] : repl) i->eraseFromParent();
}

// Accesses through an index into an array member stay inside that member (the bounds analysis checks exactly that), so
// they do not alias other members. Told to the optimiser as alias scopes; lets byte loops become block copies.
static void MemberScopes(Function& f) {
  const DataLayout& dl = f.getParent()->getDataLayout();
  LLVMContext& ctx = f.getContext();
  struct R { Value* base; int64_t lo, hi; };
  auto range = [&](Value* p, uint64_t size) -> std::optional<R> {
    // Walk down to the base; remember the innermost array member that a variable index selects from.
    int64_t mlo = 0, mhi = -1;
    bool var = false;
    std::vector<GEPOperator*> chain;
    Value* b = p;
    while (auto* g = dyn_cast<GEPOperator>(b)) chain.push_back(g), b = g->getPointerOperand();
    if (!isa<Argument>(b) && !isa<AllocaInst>(b)) return std::nullopt;
    int64_t at = 0;
    for (auto it = chain.rbegin(); it != chain.rend(); ++it) {
      GEPOperator* g = *it;
      Type* t = g->getSourceElementType();
      unsigned k = 0;
      for (auto ii = g->idx_begin(); ii != g->idx_end(); ++ii, ++k) {
        auto* ci = dyn_cast<ConstantInt>(*ii);
        if (k == 0) {
          if (!ci) { if (!var) return std::nullopt; continue; }
          if (!var) at += ci->getSExtValue() * (int64_t)dl.getTypeAllocSize(t);
          continue;
        }
        if (auto* st = dyn_cast<StructType>(t)) {
          unsigned fi = ci->getZExtValue();
          if (!var) at += dl.getStructLayout(st)->getElementOffset(fi);
          t = st->getElementType(fi);
        } else if (auto* arr = dyn_cast<ArrayType>(t)) {
          if (!ci && !var) {
            var = true;
            mlo = at;
            mhi = at + dl.getTypeAllocSize(arr);
          } else if (!var) {
            at += ci->getSExtValue() * (int64_t)dl.getTypeAllocSize(arr->getElementType());
          }
          t = arr->getElementType();
        } else {
          return std::nullopt;
        }
      }
    }
    if (var) return R{b, mlo, mhi};
    return R{b, at, at + (int64_t)size};
  };
  struct A { Instruction* i; R r; };
  std::vector<A> acc;
  std::map<std::tuple<Value*, int64_t, int64_t>, MDNode*> scopes;
  MDBuilder mb(ctx);
  MDNode* dom = mb.createAnonymousAliasScopeDomain("members");
  for (Instruction& i : instructions(f)) {
    std::optional<R> r;
    if (auto* l = dyn_cast<LoadInst>(&i)) r = range(l->getPointerOperand(), dl.getTypeStoreSize(l->getType()));
    if (auto* s = dyn_cast<StoreInst>(&i)) r = range(s->getPointerOperand(), dl.getTypeStoreSize(s->getValueOperand()->getType()));
    if (!r) continue;
    acc.push_back({&i, *r});
    auto& n = scopes[{r->base, r->lo, r->hi}];
    if (!n) n = mb.createAnonymousAliasScope(dom, "m");
  }
  for (auto& a : acc) {
    std::vector<Metadata*> no;
    for (auto& [k, n] : scopes) {
      auto& [b, lo, hi] = k;
      if (b == a.r.base && (lo >= a.r.hi || hi <= a.r.lo)) no.push_back(n);
    }
    a.i->setMetadata(LLVMContext::MD_alias_scope, MDNode::get(ctx, {scopes[{a.r.base, a.r.lo, a.r.hi}]}));
    if (!no.empty()) a.i->setMetadata(LLVMContext::MD_noalias, MDNode::get(ctx, no));
  }
}

static bool Library(StringRef n) {
  return n.starts_with("_ZSt") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZN9__gnu_cxx") ||
         n.starts_with("_ZNK9__gnu_cxx") || n.starts_with("llvm.");
}

static std::unique_ptr<Module> Only(Module& m, const std::string& fn) {
  auto c = CloneModule(m);
  Function* f = c->getFunction(fn);
  f->setLinkage(GlobalValue::ExternalLinkage);
  f->setComdat(nullptr);
  for (const char* n : {"llvm.used", "llvm.compiler.used", "llvm.global_ctors"})
    if (auto* g = c->getGlobalVariable(n, true)) g->eraseFromParent();
  for (Function& o : *c)
    if (&o != f && !o.isDeclaration()) o.setComdat(nullptr), o.setLinkage(GlobalValue::InternalLinkage);
  for (GlobalVariable& g : c->globals())
    if (g.hasInitializer() && !g.getName().starts_with("llvm.")) g.setComdat(nullptr), g.setLinkage(GlobalValue::InternalLinkage);
  RunPasses(*c, "globaldce");
  StripDebugInfo(*c);
  return c;
}

// Fixed-offset address: argument (or local/constant) plus a constant.
static bool Fixed(const DataLayout& dl, const Value* p, const Value** base, int64_t* off) {
  APInt o(64, 0);
  const Value* b = p->stripAndAccumulateConstantOffsets(dl, o, true);
  *base = b;
  *off = o.getSExtValue();
  return isa<Argument>(b) || isa<AllocaInst>(b) || isa<GlobalVariable>(b);
}

static bool Analyse(Module& m, const std::string& fn, KernelSig* sig) {
  auto c = Only(m, fn);
  Function* f = c->getFunction(fn);
  ForceInline(*c, [&](const Function& o) { return &o == f; });
  for (Argument& a : f->args())
    if (a.getType()->isPointerTy()) a.addAttr(Attribute::NoAlias);
  RunPasses(*c, kFull);
  if (f->size() != 1) return false;
  const DataLayout& dl = c->getDataLayout();
  sig->weight = 0;
  std::map<int, std::set<std::pair<int64_t, int64_t>>> rd, wr;
  std::map<int, std::set<int64_t>> written;  // bytes the kernel itself has written so far
  auto reads = [&](const Argument* a, int64_t off, int64_t n) {
    auto& w = written[a->getArgNo()];
    for (int64_t k = off; k < off + n; ++k)
      if (!w.count(k)) { rd[a->getArgNo()].insert({off, n}); return; }
  };
  auto writes = [&](const Argument* a, int64_t off, int64_t n) {
    for (int64_t k = off; k < off + n; ++k) written[a->getArgNo()].insert(k);
    wr[a->getArgNo()].insert({off, n});
  };
  for (Instruction& i : f->getEntryBlock()) {
    ++sig->weight;
    const Value* b;
    int64_t off;
    if (auto* l = dyn_cast<LoadInst>(&i)) {
      if (!Fixed(dl, l->getPointerOperand(), &b, &off)) {
        // table lookups in constants are fine
        if (auto* g = dyn_cast<GlobalVariable>(getUnderlyingObject(l->getPointerOperand(), 0)); g && g->isConstant()) continue;
        return false;
      }
      if (auto* a = dyn_cast<Argument>(b)) reads(a, off, (int64_t)dl.getTypeStoreSize(l->getType()));
    } else if (auto* s = dyn_cast<StoreInst>(&i)) {
      if (!Fixed(dl, s->getPointerOperand(), &b, &off)) return false;
      if (auto* a = dyn_cast<Argument>(b)) writes(a, off, (int64_t)dl.getTypeStoreSize(s->getValueOperand()->getType()));
      else if (isa<GlobalVariable>(b)) return false;
    } else if (auto* mt = dyn_cast<MemTransferInst>(&i)) {
      auto* n = dyn_cast<ConstantInt>(mt->getLength());
      if (!n) return false;
      if (!Fixed(dl, mt->getRawSource(), &b, &off)) return false;
      if (auto* a = dyn_cast<Argument>(b)) reads(a, off, n->getSExtValue());
      if (!Fixed(dl, mt->getRawDest(), &b, &off)) return false;
      if (auto* a = dyn_cast<Argument>(b)) writes(a, off, n->getSExtValue());
    } else if (auto* ms = dyn_cast<MemSetInst>(&i)) {
      auto* n = dyn_cast<ConstantInt>(ms->getLength());
      if (!n || !Fixed(dl, ms->getRawDest(), &b, &off)) return false;
      if (auto* a = dyn_cast<Argument>(b)) writes(a, off, n->getSExtValue());
    } else if (auto* cb = dyn_cast<CallBase>(&i)) {
      if (!isa<IntrinsicInst>(cb)) return false;
    } else if (isa<PtrToIntInst>(i) || isa<UnreachableInst>(i)) {
      return false;
    }
  }
  for (auto& [a, s] : rd) {
    // merge contiguous
    int64_t lo = -1, hi = -1;
    for (auto& [o, n] : s) {
      if (lo >= 0 && o <= hi) { hi = std::max(hi, o + n); continue; }
      if (lo >= 0) sig->reads.push_back({a, lo, hi - lo});
      lo = o, hi = o + n;
    }
    sig->reads.push_back({a, lo, hi - lo});
  }
  for (auto& [a, s] : wr)
    for (auto& [o, n] : s) sig->writes.push_back({a, o, n});
  for (Argument& a : f->args())
    if (a.getType()->isIntegerTy()) sig->ints.push_back(a.getArgNo());
  sig->ret = f->getReturnType()->isIntegerTy() ? f->getReturnType()->getIntegerBitWidth() : 0;
  if (!f->getReturnType()->isVoidTy() && !sig->ret) return false;
  sig->name = FnName(*f);
  return !rd.empty() && (!wr.empty() || sig->ret);
}

static int TransitiveSize(Module& m, Function* f, std::set<Function*>& seen) {
  if (f->isDeclaration() || !seen.insert(f).second) return 0;
  int n = f->getInstructionCount();
  for (Instruction& i : instructions(*f))
    if (auto* cb = dyn_cast<CallBase>(&i))
      if (auto* g = cb->getCalledFunction()) n += TransitiveSize(m, g, seen);
  return n;
}

Prepared PrepareEntries(Module& m, const std::vector<std::string>& entries, bool opaque_blocks) {
  Prepared r;
  static std::map<std::pair<Module*, std::string>, std::pair<bool, KernelSig>> memo;
  std::function<const std::pair<bool, KernelSig>&(Function*)> verdict = [&](Function* f) -> const std::pair<bool, KernelSig>& {
    std::string n = f->getName().str();
    auto it = memo.find({&m, n});
    if (it != memo.end()) return it->second;
    auto& v = memo[{&m, n}];
    std::set<Function*> seen;
    if (TransitiveSize(m, f, seen) < 100) return v;
    bool ptr = false;
    for (Argument& a : f->args()) ptr |= a.getType()->isPointerTy();
    if (!ptr) return v;
    KernelSig s;
    bool ok = Analyse(m, n, &s) && s.weight >= 200;
    v = {ok, s};
    return v;
  };
  std::set<std::string> chosen;
  std::set<Function*> visited;
  std::function<void(Function*)> visit = [&](Function* f) {
    if (f->isDeclaration() || !visited.insert(f).second) return;
    auto callees = [&](Function* g) {
      std::map<Function*, int> c;
      for (Instruction& i : instructions(*g))
        if (auto* cb = dyn_cast<CallBase>(&i))
          if (auto* h = cb->getCalledFunction(); h && !h->isDeclaration() && !Library(h->getName())) ++c[h];
      return c;
    };
    if (!f->getName().starts_with("vp_") && !Library(f->getName())) {
      auto v = verdict(f);
      if (v.first) {
        // A thin wrapper around a kernel is not the kernel.
        bool thin = false;
        std::function<int(Function*)> inner = [&](Function* g) {
          int w = 0;
          for (auto& [h, n] : callees(g)) {
            auto vh = verdict(h);
            if (vh.first) w += n * vh.second.weight;
            else w += inner(h);
          }
          return w;
        };
        int in = inner(f);
        thin = in > 0 && v.second.weight < in + 120;
        if (!thin) { chosen.insert(f->getName().str()); return; }
      }
    }
    for (auto& [g, n] : callees(f)) visit(g);
  };
  for (auto& e : entries) {
    Function* f = m.getFunction(e);
    if (!f) { r.err = "no entry " + e; return r; }
    if (opaque_blocks) visit(f);
  }
  auto c = CloneModule(m);
  for (const char* n : {"llvm.used", "llvm.compiler.used", "llvm.global_ctors"})
    if (auto* g = c->getGlobalVariable(n, true)) g->eraseFromParent();
  std::set<std::string> ents(entries.begin(), entries.end());
  for (Function& o : *c)
    if (!ents.count(o.getName().str()) && !o.isDeclaration()) o.setComdat(nullptr), o.setLinkage(GlobalValue::InternalLinkage);
  for (GlobalVariable& g : c->globals())
    if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
      g.setComdat(nullptr);
      if (!g.getName().starts_with("vp_")) g.setLinkage(GlobalValue::InternalLinkage);
    }
  RunPasses(*c, "globaldce");
  ForceInline(*c, [&](const Function& o) { return ents.count(o.getName().str()) > 0; },
              [&](const Function& o) { return chosen.count(o.getName().str()) > 0; });
  for (auto& n : chosen) {
    Function* f = c->getFunction(n);
    if (!f) continue;
    // Opaque to the simplifier: effects limited to its pointer arguments.
    f->deleteBody();
    f->setMemoryEffects(MemoryEffects::argMemOnly());
    f->setDoesNotThrow();
    f->addFnAttr(Attribute::WillReturn);
    for (Argument& a : f->args())
      if (a.getType()->isPointerTy()) a.addAttr(Attribute::NoCapture);
    r.kernels[n] = memo[{&m, n}].second;
    r.kernels[n].id = r.kernels.size();
  }
  // Block functions of the specification: declared only.
  struct Spec { const char* n; std::vector<KernelSig::Rng> reads; int words, wsize; std::vector<int> ints; };
  const Spec specs[] = {{"vp_spec_md5", {{0, 0, 16}, {1, 0, 64}}, 4, 4, {}},
                        {"vp_spec_sha1", {{0, 0, 20}, {1, 0, 64}}, 5, 4, {}},
                        {"vp_spec_sha256", {{0, 0, 32}, {1, 0, 64}}, 8, 4, {}},
                        {"vp_spec_sha512", {{0, 0, 64}, {1, 0, 128}}, 8, 8, {}},
                        {"vp_spec_blake2b", {{0, 0, 64}, {1, 0, 128}}, 8, 8, {2, 3}},
                        {"vp_spec_blake3", {{1, 0, 32}, {2, 0, 64}}, 16, 4, {3, 4, 5}},
                        {"vp_spec_keccak", {{0, 0, 200}}, 25, 8, {}}};
  for (auto& sp : specs)
    if (Function* f = c->getFunction(sp.n); f && f->isDeclaration()) {
      KernelSig k;
      k.name = sp.n;
      k.reads = sp.reads;
      for (int i = 0; i < sp.words; ++i) k.writes.push_back({0, (int64_t)i * sp.wsize, sp.wsize});
      k.ints = sp.ints;
      f->setMemoryEffects(MemoryEffects::argMemOnly());
      f->setDoesNotThrow();
      f->addFnAttr(Attribute::WillReturn);
      for (Argument& a : f->args())
        if (a.getType()->isPointerTy()) a.addAttr(Attribute::NoCapture);
      r.kernels[sp.n] = k;
      r.kernels[sp.n].id = r.kernels.size();
    }
  for (auto& e : entries) {
    Function* f = c->getFunction(e);
    for (Argument& a : f->args())
      if (a.getType()->isPointerTy()) a.addAttr(Attribute::NoAlias);
  }
  RunPasses(*c, kEntry);
  for (auto& e : entries) OffsetPhis(*c->getFunction(e));
  RunPasses(*c, "function(early-cse,instcombine<no-verify-fixpoint>)");
  for (auto& e : entries) MemberScopes(*c->getFunction(e));
  RunPasses(*c, "function(sroa,memcpyopt,sroa,early-cse<memssa>,loop-simplify,lcssa,loop-mssa(licm),loop(indvars,loop-idiom,loop-deletion),early-cse,dse,instcombine<no-verify-fixpoint>,simplifycfg)");
  r.m = std::move(c);
  return r;
}
}  // namespace vp
