// effects: every function reachable from an entry point may only compute on its arguments.
#include "common.h"
namespace vp {

static bool AllowedExternal(StringRef name) {
  static const char* kPrefixes[] = {
      "_ZNSt7__cxx1112basic_string", "_ZNKSt7__cxx1112basic_string", "_ZSt", "_ZNSaI", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv",
      "__cxa_", "__clang_call_terminate", "__gxx_personality", "_ZNSt", "_ZNKSt"};
  static const std::set<StringRef> kNames = {"memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "memchr", "abort",
                                             "__assert_fail", "__glibcxx_assert_fail"};
  // Sources of nondeterminism inside std:: that share the prefixes above.
  static const char* kBad[] = {"random_device", "chrono", "thread", "clock", "mutex", "atomic", "this_thread", "filesystem",
                               "_M_construct_ostream", "ios_base", "locale", "getline", "shared_ptr"};
  for (const char* b : kBad)
    if (name.contains(b)) return false;
  if (kNames.count(name)) return true;
  for (const char* p : kPrefixes)
    if (name.starts_with(p)) return true;
  return false;
}

static bool AllowedIntrinsic(Intrinsic::ID id) {
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: case Intrinsic::memset:
    case Intrinsic::memset_inline: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::fshl: case Intrinsic::fshr:
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs:
    case Intrinsic::bswap: case Intrinsic::bitreverse: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
    case Intrinsic::assume: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::trap:
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::eh_typeid_for: case Intrinsic::objectsize: case Intrinsic::donothing:
    case Intrinsic::sideeffect: case Intrinsic::ubsantrap: case Intrinsic::stacksave: case Intrinsic::stackrestore:
      return true;
    default: return false;
  }
}

static void GlobalsIn(const Value* v, SmallPtrSetImpl<const GlobalVariable*>& out, SmallPtrSetImpl<const Value*>& seen) {
  if (!seen.insert(v).second) return;
  if (auto* g = dyn_cast<GlobalVariable>(v)) {
    out.insert(g);
    return;
  }
  if (auto* c = dyn_cast<Constant>(v))
    if (!isa<GlobalValue>(c))
      for (const Use& u : c->operands()) GlobalsIn(u.get(), out, seen);
}

// True if the integer `v` obtained from a pointer is only used to form differences of two addresses.
static bool OnlyDifference(const Value* v, int depth = 0) {
  if (depth > 3) return false;
  for (const User* u : v->users()) {
    if (auto* bo = dyn_cast<BinaryOperator>(u)) {
      if (bo->getOpcode() == Instruction::Sub) {
        auto is_ptr = [](const Value* x) { return isa<PtrToIntOperator>(x); };
        if (is_ptr(bo->getOperand(0)) && is_ptr(bo->getOperand(1))) continue;
      }
    }
    return false;
  }
  return true;
}

int Effects(const std::string& path) {
  LLVMContext ctx;
  auto m = Load(ctx, path);
  RunPasses(*m, "function(sroa)");  // Splits locals only; no reassociation of address arithmetic.
  Report rep;
  std::map<const Function*, std::string> from;  // function -> entry it was first reached from
  std::vector<const Function*> work;
  int entries = 0;
  for (const Function& f : *m)
    if (!f.isDeclaration() && f.getName().starts_with("vp_")) {
      ++entries;
      from[&f] = f.getName().str();
      work.push_back(&f);
    }
  int insts = 0, calls = 0, globals = 0, p2i = 0;
  std::set<std::string> tables, externs;
  auto bad = [&](const Function& f, const Instruction* i, const std::string& rule, const std::string& what) {
    rep.Viol(json::Object{{"rule", rule}, {"what", what}, {"function", FnName(f)}, {"where", i ? Loc(*i) : "?"}, {"entry", from[&f]}});
  };
  while (!work.empty()) {
    const Function* f = work.back();
    work.pop_back();
    for (const Instruction& i : instructions(*f)) {
      ++insts;
      if (isa<DbgInfoIntrinsic>(i)) continue;
      if (i.isAtomic() || i.isVolatile()) bad(*f, &i, "shared-state", "atomic or volatile memory access");
      SmallPtrSet<const GlobalVariable*, 4> gs;
      SmallPtrSet<const Value*, 8> seen;
      for (const Use& u : i.operands())
        if (isa<Constant>(u.get())) GlobalsIn(u.get(), gs, seen);
      for (const GlobalVariable* g : gs) {
        ++globals;
        if (g->isThreadLocal())
          bad(*f, &i, "shared-state", "thread-local variable " + Demangled(g->getName()));
        else if (!g->isConstant())
          bad(*f, &i, "shared-state", "mutable variable with static storage " + Demangled(g->getName()));
        else if (g->isDeclaration())
          bad(*f, &i, "shared-state", "variable defined elsewhere " + Demangled(g->getName()));
        else
          tables.insert(Demangled(g->getName()));
      }
      if (auto* c = dyn_cast<PtrToIntInst>(&i)) {
        ++p2i;
        if (!OnlyDifference(c)) bad(*f, &i, "address-dependence", "an object's address is used as a number");
      }
      if (auto* cb = dyn_cast<CallBase>(&i)) {
        ++calls;
        if (cb->isInlineAsm()) {
          bad(*f, &i, "external-effect", "inline assembly");
          continue;
        }
        const Function* callee = cb->getCalledFunction();
        if (callee == nullptr) {
          callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        }
        if (callee == nullptr) {
          rep.Undec(json::Object{{"rule", "indirect-call"}, {"function", FnName(*f)}, {"where", Loc(i)}});
          continue;
        }
        if (callee->isIntrinsic()) {
          if (!AllowedIntrinsic(callee->getIntrinsicID()))
            bad(*f, &i, "external-effect", "intrinsic " + callee->getName().str());
          continue;
        }
        if (callee->isDeclaration()) {
          externs.insert(Demangled(callee->getName()));
          if (!AllowedExternal(callee->getName()))
            bad(*f, &i, "external-effect", "call to " + Demangled(callee->getName()));
          continue;
        }
        if (from.emplace(callee, from[f]).second) work.push_back(callee);
      }
    }
  }
  rep.stats = json::Object{{"entries", entries}, {"functions", (int64_t)from.size()}, {"instructions", insts}, {"calls", calls},
                           {"global_references", globals}, {"pointer_to_integer", p2i}, {"constant_tables", (int64_t)tables.size()}};
  json::Array t, e;
  for (auto& s : tables) t.push_back(s);
  for (auto& s : externs) e.push_back(s);
  rep.stats["tables"] = std::move(t);
  rep.stats["externals"] = std::move(e);
  rep.Print();
  return 0;
}

// pure: the peek operations (entry prefix `prefix`, first argument = the stream) never write through the stream.
int Pure(const std::string& path, const std::vector<std::string>& prefixes) {
  LLVMContext ctx;
  auto m = Load(ctx, path);
  auto is_entry = [&](const Function& f) {
    for (auto& p : prefixes)
      if (f.getName().starts_with(p)) return true;
    return false;
  };
  std::set<const Function*> ent;
  for (Function& f : *m)
    if (!f.isDeclaration() && is_entry(f)) ent.insert(&f);
  for (const char* n : {"llvm.used", "llvm.compiler.used", "llvm.global_ctors"})
    if (auto* g = m->getGlobalVariable(n, true)) g->eraseFromParent();
  for (Function& f : *m)
    if (!f.isDeclaration() && !ent.count(&f)) {
      f.setComdat(nullptr);
      f.setLinkage(GlobalValue::InternalLinkage);
    }
  RunPasses(*m, "globaldce");
  ForceInline(*m, [&](const Function& f) { return f.getName().starts_with("vp_"); });
  RunPasses(*m, "always-inline,function(sroa,early-cse,simplifycfg)");
  Report rep;
  int stores = 0;
  for (const Function* f : ent) {
    const Argument* state = f->getArg(0);
    int n = 0;
    SmallPtrSet<const Value*, 32> derived;  // pointers that may point into the stream
    // Everything whose underlying object is the stream argument, including pointers loaded back from it.
    auto into_state = [&](const Value* p) {
      SmallVector<const Value*, 4> objs;
      getUnderlyingObjects(p, objs, nullptr, 0);
      for (const Value* o : objs) {
        if (o == state) return 1;
        if (isa<AllocaInst>(o) || isa<GlobalVariable>(o) || isa<UndefValue>(o) || isa<ConstantPointerNull>(o)) continue;
        if (auto* a = dyn_cast<Argument>(o)) {
          if (a != state) continue;
        }
        return 2;
      }
      return 0;
    };
    auto report = [&](const Instruction& i, int k, const char* what) {
      std::string rule = k == 1 ? "peek-writes-stream" : "peek-writes-unknown";
      json::Object o{{"rule", rule}, {"what", what}, {"entry", f->getName().str()}, {"where", Loc(i)}};
      rep.Viol(std::move(o));
    };
    for (const Instruction& i : instructions(*f)) {
      if (auto* s = dyn_cast<StoreInst>(&i)) {
        ++n;
        if (int k = into_state(s->getPointerOperand())) report(i, k, "store");
      } else if (auto* mi = dyn_cast<AnyMemIntrinsic>(&i)) {
        ++n;
        if (int k = into_state(mi->getDest())) report(i, k, "memory fill/copy");
      } else if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i)) {
        report(i, 2, "atomic update");
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        if (isa<IntrinsicInst>(cb)) continue;
        for (const Use& u : cb->args())
          if (u->getType()->isPointerTy() && into_state(u.get()) == 1 && !cb->onlyReadsMemory() &&
              !cb->onlyReadsMemory(cb->getArgOperandNo(&u)))
            report(i, 1, "passed to a call that may write it");
      }
    }
    stores += n;
    rep.items.push_back(json::Object{{"entry", f->getName().str()}, {"writes_checked", n}});
  }
  // State types must not contain pointers: a copy of the stream then shares nothing with the original.
  int layouts = 0;
  std::function<bool(Type*)> has_ptr = [&](Type* t) -> bool {
    if (t->isPointerTy()) return true;
    if (auto* s = dyn_cast<StructType>(t)) {
      for (Type* e : s->elements())
        if (has_ptr(e)) return true;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) return has_ptr(a->getElementType());
    return false;
  };
  for (const GlobalVariable& g : m->globals())
    if (g.getName().starts_with("vp_layout_")) {
      ++layouts;
      if (has_ptr(g.getValueType()))
        rep.Viol(json::Object{{"rule", "stream-shares-memory"}, {"what", "the stream state contains a pointer, so copies share memory"},
                  {"entry", g.getName().str()}, {"where", "?"}});
    }
  rep.stats = json::Object{{"entries", (int64_t)ent.size()}, {"writes_checked", stores}, {"state_types", layouts}};
  rep.Print();
  return 0;
}
}  // namespace vp
