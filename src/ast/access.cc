// Optional values and StatusOr results are only dereferenced where they are known to hold a value.
#include "common.h"

namespace vast {
namespace {
bool Maybe(QualType t) {
  std::string n = RecordName(t);
  return n == "absl::StatusOr" || n == "std::optional" || n == "std::expected";
}
bool NullOpt(const Expr* e) {
  auto* r = Record(Strip(e)->getType());
  return r && r->getNameAsString() == "nullopt_t";
}

using Pre = std::map<const FunctionDecl*, std::map<unsigned, const Expr*>>;  // parameters that have to hold a value

class Flow {
 public:
  Flow(Tu& t, const FunctionDecl* f, Pre& pre, std::set<const FunctionDecl*>& called) : t_(t), f_(f), conds_(f), pre_(pre), called_(called) {}
  bool grown = false;
  void Run(bool final) {
    final_ = final;
    CFG::BuildOptions o;
    o.setAllAlwaysAdd();
    o.AddInitializers = true;
    o.AddImplicitDtors = true;
    o.AddTemporaryDtors = true;
    auto cfg = CFG::buildCFG(f_, f_->getBody(), &t_.ctx, o);
    if (!cfg) return;
    // Forward must-analysis: the variables known to hold a value.
    std::map<const CFGBlock*, Set> in;
    std::vector<const CFGBlock*> todo{&cfg->getEntry()};
    in[&cfg->getEntry()] = {};
    while (todo.size()) {
      auto* b = todo.back();
      todo.pop_back();
      Set s = Block(b, in[b], false);
      unsigned k = 0;
      const bool two = b->succ_size() == 2 && b->getTerminatorCondition() && !isa_and_nonnull<SwitchStmt>(b->getTerminatorStmt());
      for (auto& succ : b->succs()) {
        const unsigned edge = k++;
        const CFGBlock* n = succ.getReachableBlock();
        if (!n) continue;
        Set x = s;
        conds_.Fresh();
        if (two) Learn(cast<Expr>(b->getTerminatorCondition()), edge == 0, x);
        auto [it, fresh] = in.emplace(n, x);
        bool changed = fresh;
        if (!fresh)
          for (auto j = it->second.begin(); j != it->second.end();)
            if (!x.count(*j)) j = it->second.erase(j), changed = true;
            else ++j;
        if (changed) todo.push_back(n);
      }
    }
    for (auto& [b, s] : in) Block(b, s, true);
  }

 private:
  using Set = std::set<const VarDecl*>;
  const VarDecl* Var(const Expr* e) {
    e = Strip(e);
    if (auto* c = dyn_cast<CallExpr>(e); c && c->getNumArgs() == 1 && c->getDirectCallee() &&
        (c->getDirectCallee()->getQualifiedNameAsString() == "std::move" || c->getDirectCallee()->getQualifiedNameAsString() == "std::forward"))
      return Var(c->getArg(0));
    e = conds_.Arg(e);
    auto* r = dyn_cast<DeclRefExpr>(e);
    auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr;
    if (v && v->hasLocalStorage() && !isa<ParmVarDecl>(v) && v->getType()->isReferenceType() && v->getInit() && Maybe(v->getType()) && ++deep_ < 16) {
      auto* w = Var(v->getInit());
      --deep_;
      if (w) return w;
    }
    return v && v->hasLocalStorage() && Maybe(v->getType()) ? v : nullptr;
  }
  // The outcome whose status this is.
  const VarDecl* StatusOf(const Expr* e) {
    e = conds_.Arg(e);
    for (;;) {
      auto* c = dyn_cast<CXXConstructExpr>(e);
      if (!c || c->getNumArgs() != 1 || RecordName(c->getType()) != "absl::Status") break;
      e = conds_.Arg(c->getArg(0));
    }
    if (auto* m = dyn_cast<CXXMemberCallExpr>(e); m && m->getMethodDecl() && m->getMethodDecl()->getIdentifier() && m->getMethodDecl()->getName() == "status")
      return Var(m->getImplicitObjectArgument());
    if (auto* c = dyn_cast<CallExpr>(e); c && c->getDirectCallee() && c->getDirectCallee()->getIdentifier() && c->getDirectCallee()->getName() == "GetStatus" && c->getNumArgs() == 1)
      return Var(c->getArg(0));
    if (auto* r = dyn_cast<DeclRefExpr>(e))
      if (auto* v = dyn_cast<VarDecl>(r->getDecl()); v && v->hasLocalStorage() && v->getInit() && !isa<ParmVarDecl>(v) && RecordName(v->getType()) == "absl::Status" && !conds_.Written(v))
        return StatusOf(v->getInit());
    return nullptr;
  }
  // What a condition says when it is `truth`.
  void Learn(const Expr* e, bool truth, Set& s) {
    e = Strip(e);
    if (auto* u = dyn_cast<UnaryOperator>(e); u && u->getOpcode() == UO_LNot) return Learn(u->getSubExpr(), !truth, s);
    if (bool t = truth; const Expr* x = conds_.Simpler(e, t)) return Learn(x, t, s);
    if (auto* b = dyn_cast<BinaryOperator>(e)) {
      if (b->getOpcode() == BO_LAnd && truth) Learn(b->getLHS(), true, s), Learn(b->getRHS(), true, s);
      if (b->getOpcode() == BO_LOr && !truth) Learn(b->getLHS(), false, s), Learn(b->getRHS(), false, s);
      return;
    }
    if (auto* c = dyn_cast<CallExpr>(e); c && c->getDirectCallee() && c->getNumArgs() >= 1) {
      std::string n = c->getDirectCallee()->getNameAsString();
      if (n == "__builtin_expect" || n == "PredictTrue" || n == "PredictFalse") return Learn(c->getArg(0), truth, s);
    }
    if (auto* m = dyn_cast<CXXMemberCallExpr>(e)) {
      auto* v = Var(m->getImplicitObjectArgument());
      if (!m->getMethodDecl()) return;
      std::string n = m->getMethodDecl()->getNameAsString();
      if (!v && n == "ok") v = StatusOf(m->getImplicitObjectArgument());
      if (!v) return;
      if ((n == "ok" || n == "has_value" || isa<CXXConversionDecl>(m->getMethodDecl())) && truth) {
        s.insert(v);
        if (copy_.count(v)) s.insert(copy_[v]);
      }
      return;
    }
    if (auto* o = dyn_cast<CXXOperatorCallExpr>(e); o && o->getNumArgs() == 2 && (o->getOperator() == OO_EqualEqual || o->getOperator() == OO_ExclaimEqual)) {
      for (int i : {0, 1})
        if (auto* v = Var(o->getArg(i))) {
          const bool equal = (o->getOperator() == OO_EqualEqual) == truth;
          if (NullOpt(o->getArg(1 - i))) { if (!equal) s.insert(v); }
          else if (!Maybe(o->getArg(1 - i)->getType()) && equal) s.insert(v);
        }
      return;
    }
    if (auto* r = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      auto d = r->getDecomposedForm();
      for (auto [x, y] : {std::pair{d.LHS, d.RHS}, std::pair{d.RHS, d.LHS}})
        if (auto* v = Var(x); v && (d.Opcode == BO_EQ || d.Opcode == BO_NE)) {
          const bool equal = (d.Opcode == BO_EQ) == truth;
          if (NullOpt(y)) { if (!equal) s.insert(v); }
          else if (!Maybe(y->getType()) && equal) s.insert(v);
        }
    }
  }
  bool Engaged(const Expr* e, const Set& s) {
    e = Strip(e);
    if (auto* c = dyn_cast<CXXConstructExpr>(e)) {
      if (!Maybe(c->getType())) return true;
      if (c->getNumArgs() == 0) return false;
      const Expr* a = Strip(c->getArg(0));
      if (c->getNumArgs() == 1) {
        if (Maybe(a->getType())) return Engaged(a, s);
        if (NullOpt(a)) return false;
        return !IsStatus(a->getType());
      }
      return true;
    }
    if (auto* i = dyn_cast<InitListExpr>(e)) return i->getNumInits() == 1 && Engaged(i->getInit(0), s);
    if (auto* v = Var(e)) return s.count(v);
    if (auto* c = dyn_cast<CallExpr>(e); c && c->getDirectCallee()) return c->getDirectCallee()->getQualifiedNameAsString() == "std::make_optional";
    return !Maybe(e->getType()) && !NullOpt(e) && !IsStatus(e->getType());
  }
  void Need(const Expr* obj, const Expr* at, const Set& s, bool report) {
    auto* v = Var(obj);
    if (!v) {
      // A temporary: nothing can have checked it.
      const Expr* o = Strip(obj);
      if (report && o->isPRValue() && isa<CallExpr>(o) && Maybe(o->getType()) && !o->isTypeDependent()) {
        auto* c = cast<CallExpr>(o)->getDirectCallee();
        t_.Seen("access", at->getBeginLoc());
        t_.Report("unchecked-access", at->getBeginLoc(), f_, "the result of " + (c ? c->getQualifiedNameAsString() : std::string("a call")) + " is dereferenced unchecked");
      }
      return;
    }
    if (!report) return;
    t_.Seen("access", at->getBeginLoc());
    if (s.count(v)) return;
    if (auto* p = dyn_cast<ParmVarDecl>(v); p && p->getDeclContext() == f_) {
      grown |= pre_[f_->getCanonicalDecl()].emplace(p->getFunctionScopeIndex(), at).second;
      if (!final_ || Private()) return;
    }
    if (final_)
      t_.Report("unchecked-access", at->getBeginLoc(), f_, "'" + v->getNameAsString() + "' is dereferenced on a path where it may hold no value", v->getNameAsString());
  }
  // Only called from here, by callers that are looked at themselves.
  bool Private() {
    if (!called_.count(f_->getCanonicalDecl())) return false;
    auto* m = dyn_cast<CXXMethodDecl>(f_);
    if (m && m->getParent()->isLambda()) return true;
    if (m && m->getAccess() == AS_private) return true;
    return !f_->isExternallyVisible() || !llvm::StringRef(t_.File(f_->getCanonicalDecl()->getLocation())).ends_with(".h");
  }
  void Arguments(const CallExpr* c, const FunctionDecl* f, const Set& s, bool report) {
    const unsigned skip = isa<CXXOperatorCallExpr>(c) && isa<CXXMethodDecl>(f) ? 1 : 0;
    if (report) called_.insert(f->getCanonicalDecl());
    auto it = pre_.find(f->getCanonicalDecl());
    if (it == pre_.end() || f->getCanonicalDecl() == f_->getCanonicalDecl()) return;
    auto needs = it->second;
    for (auto& [i, at] : needs)
      if (i + skip < c->getNumArgs()) {
        const Expr* a = c->getArg(i + skip);
        if (!Var(a) && Engaged(a, s)) continue;
        Need(a, a, s, report);
      }
  }
  Set Block(const CFGBlock* b, Set s, bool report) {
    for (auto& el : *b) {
      auto cs = el.getAs<CFGStmt>();
      if (!cs) continue;
      const Stmt* st = cs->getStmt();
      if (auto* d = dyn_cast<DeclStmt>(st)) {
        for (auto* x : d->decls())
          if (auto* v = dyn_cast<VarDecl>(x); v && Maybe(v->getType()) && !v->getType()->isReferenceType()) {
            s.erase(v);
            if (v->getInit() && Engaged(v->getInit(), s)) s.insert(v);
            if (v->getInit()) {
              const Expr* i = Strip(v->getInit());
              if (auto* c = dyn_cast<CXXConstructExpr>(i); c && c->getNumArgs() == 1) i = c->getArg(0);
              if (auto* w = Var(i)) copy_[v] = w;
            }
          }
        continue;
      }
      if (auto* o = dyn_cast<CXXOperatorCallExpr>(st)) {
        if ((o->getOperator() == OO_Star || o->getOperator() == OO_Arrow) && o->getNumArgs() == 1 && Maybe(o->getArg(0)->getType()))
          Need(o->getArg(0), o, s, report);
        if (auto* f = o->getDirectCallee(); f && o->getOperator() == OO_Call) Arguments(o, f, s, report);
        if (o->getOperator() == OO_Equal && o->getNumArgs() == 2)
          if (auto* v = Var(o->getArg(0))) {
            if (Engaged(o->getArg(1), s)) s.insert(v);
            else s.erase(v);
          }
        continue;
      }
      if (auto* m = dyn_cast<CXXMemberCallExpr>(st); m && m->getMethodDecl()) {
        if (auto* v = Var(m->getImplicitObjectArgument())) {
          std::string n = m->getMethodDecl()->getNameAsString();
          if (n == "emplace" || n == "value") s.insert(v);  // value() does not return otherwise
          if (n == "reset" || n == "swap") s.erase(v);
        }
      }
      if (auto* c = dyn_cast<CallExpr>(st)) {
        // Handing the variable out for writing.
        auto* f = c->getDirectCallee();
        if (f) Arguments(c, f, s, report);
        for (unsigned i = 0; i < c->getNumArgs(); ++i) {
          auto* v = Var(c->getArg(i));
          if (!v || isa<CXXOperatorCallExpr>(c)) continue;
          if (f && f->isInStdNamespace() && (f->getNameAsString() == "move" || f->getNameAsString() == "forward" || f->getNameAsString() == "as_const")) continue;
          if (f && i < f->getNumParams()) {
            QualType pt = f->getParamDecl(i)->getType();
            if (pt->isLValueReferenceType() && !pt.getNonReferenceType().isConstQualified()) s.erase(v);
          }
        }
      }
      if (auto* u = dyn_cast<UnaryOperator>(st); u && u->getOpcode() == UO_AddrOf)
        if (auto* v = Var(u->getSubExpr())) s.erase(v);
    }
    return s;
  }
  Tu& t_;
  const FunctionDecl* f_;
  Conds conds_;
  Pre& pre_;
  std::set<const FunctionDecl*>& called_;
  bool final_ = false;
  int deep_ = 0;
  std::map<const VarDecl*, const VarDecl*> copy_;
};
}  // namespace

void Access(Tu& t, const std::vector<const FunctionDecl*>& all) {
  Pre pre;
  std::set<const FunctionDecl*> called;
  for (int round = 0, grow = 1; grow && round < 8; ++round) {
    grow = 0;
    for (auto* f : all) {
      Flow x(t, f, pre, called);
      x.Run(false);
      grow |= x.grown;
    }
  }
  for (auto* f : all) Flow(t, f, pre, called).Run(true);
}
}  // namespace vast
