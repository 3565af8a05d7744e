// Failures are not dropped: every Status or StatusOr that an expression produces is used.
#include "common.h"

namespace vast {
namespace {
// The node that consumes the expression, past wrappers that only pass it on.
const Stmt* Consumer(ASTContext& c, const Expr* e, const Decl** decl, const Expr** last) {
  const Stmt* cur = e;
  *decl = nullptr;
  *last = e;
  for (;;) {
    auto ps = c.getParents(*cur);
    if (ps.empty()) return nullptr;
    if (auto* d = ps[0].get<Decl>()) { *decl = d; return nullptr; }
    const Stmt* p = ps[0].get<Stmt>();
    if (!p) return nullptr;
    if (isa<ExprWithCleanups, MaterializeTemporaryExpr, CXXBindTemporaryExpr, ParenExpr, ImplicitCastExpr, FullExpr>(p)) { cur = p; *last = cast<Expr>(p); continue; }
    if (auto* x = dyn_cast<CXXConstructExpr>(p); x && x->getNumArgs() == 1 && x->getConstructor()->isCopyOrMoveConstructor()) { cur = p; *last = x; continue; }
    return p;
  }
}
bool Producer(const Expr* e) {
  auto* c = dyn_cast<CallExpr>(e);
  if (!c || c->isTypeDependent() || e->isGLValue() || !IsStatus(e->getType())) return false;
  return !isa<CXXOperatorCallExpr>(c) || !cast<CXXOperatorCallExpr>(c)->isAssignmentOp();
}

class Calls : public RecursiveASTVisitor<Calls> {
 public:
  Calls(Tu& t, const FunctionDecl* f) : t_(t), f_(f) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitCallExpr(CallExpr* e) {
    if (!Producer(e)) return true;
    t_.Seen("status", e->getBeginLoc());
    const Decl* d;
    const Expr* last;
    const Stmt* p = Consumer(t_.ctx, e, &d, &last);
    auto name = [&] {
      auto* c = e->getDirectCallee();
      return c ? c->getQualifiedNameAsString() : std::string("a call");
    };
    if (d || !p) return true;
    bool drop = false;
    if (isa<CompoundStmt, LabelStmt, SwitchStmt, CaseStmt, DefaultStmt>(p)) drop = true;
    if (auto* x = dyn_cast<IfStmt>(p)) drop = last != x->getCond();
    if (auto* x = dyn_cast<ForStmt>(p)) drop = last != x->getCond();
    if (auto* x = dyn_cast<WhileStmt>(p)) drop = last != x->getCond();
    if (isa<CXXForRangeStmt, DoStmt>(p)) drop = true;
    if (auto* x = dyn_cast<ExplicitCastExpr>(p)) drop = x->getType()->isVoidType();
    if (auto* x = dyn_cast<BinaryOperator>(p)) drop = x->getOpcode() == BO_Comma && last == x->getLHS();
    if (auto* x = dyn_cast<MemberExpr>(p)) {
      std::string m = x->getMemberDecl()->getNameAsString();
      drop = m == "IgnoreError";
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(p); x && x->getOperator() == OO_Equal && x->getNumArgs() == 2 && last == x->getArg(1))
      if (auto* r = dyn_cast<DeclRefExpr>(Strip(x->getArg(0)))) drop = r->getDecl()->getQualifiedNameAsString() == "std::ignore";
    if (drop) t_.Report("status-dropped", e->getBeginLoc(), f_, "the outcome of " + name() + " is not looked at", name());
    return true;
  }

 private:
  Tu& t_;
  const FunctionDecl* f_;
};

// Variables that hold an outcome: some use on every path.
class Held {
 public:
  Held(Tu& t, const FunctionDecl* f) : t_(t), f_(f) {}
  void Run() {
    CFG::BuildOptions o;
    o.setAllAlwaysAdd();
    o.AddInitializers = true;
    auto cfg = CFG::buildCFG(f_, f_->getBody(), &t_.ctx, o);
    if (!cfg) return;
    std::map<const CFGBlock*, State> in;
    std::vector<const CFGBlock*> todo{&cfg->getEntry()};
    in[&cfg->getEntry()] = {};
    while (todo.size()) {
      auto* b = todo.back();
      todo.pop_back();
      State s = Flow(b, in[b], false);
      for (auto& succ : b->succs()) {
        const CFGBlock* n = succ.getReachableBlock();
        if (!n) continue;
        auto [it, fresh] = in.emplace(n, s);
        bool grow = fresh;
        if (!fresh)
          for (auto& [v, e] : s)
            if (it->second.emplace(v, e).second) grow = true;
        if (grow) todo.push_back(n);
      }
    }
    for (auto& [b, s] : in) Flow(b, s, true);
    auto it = in.find(&cfg->getExit());
    if (it != in.end())
      for (auto& [v, e] : it->second) Lost(v, e, "is not looked at on some path to the end of the function");
  }

 private:
  using State = std::map<const VarDecl*, const Expr*>;
  void Lost(const VarDecl* v, const Expr* e, const std::string& how) {
    t_.Report("status-lost", e->getBeginLoc(), f_, "the outcome kept in '" + v->getNameAsString() + "' " + how, v->getNameAsString());
  }
  bool Tracks(const VarDecl* v) { return v && v->isLocalVarDecl() && !v->getType()->isReferenceType() && IsStatus(v->getType()) && v->hasLocalStorage(); }
  State Flow(const CFGBlock* b, State s, bool report) {
    for (auto& el : *b) {
      auto cs = el.getAs<CFGStmt>();
      if (!cs) continue;
      const Stmt* st = cs->getStmt();
      if (auto* d = dyn_cast<DeclStmt>(st)) {
        for (auto* x : d->decls())
          if (auto* v = dyn_cast<VarDecl>(x); Tracks(v)) {
            s.erase(v);
            if (v->getInit()) {
              const Expr* i = Core(v->getInit());
              t_.Seen("status-var", v->getLocation());
              if (Producer(i) && !Constant(i)) s[v] = i;
            }
          }
        continue;
      }
      if (auto* a = dyn_cast<CXXOperatorCallExpr>(st); a && a->getOperator() == OO_Equal && a->getNumArgs() == 2) {
        auto* r = dyn_cast<DeclRefExpr>(Strip(a->getArg(0)));
        auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr;
        if (Tracks(v)) {
          if (report && s.count(v)) Lost(v, s[v], "is overwritten before it is looked at");
          s.erase(v);
          const Expr* i = Core(a->getArg(1));
          if (Producer(i) && !Constant(i)) s[v] = i;
        }
        continue;
      }
      if (auto* r = dyn_cast<DeclRefExpr>(st)) {
        auto* v = dyn_cast<VarDecl>(r->getDecl());
        if (!v || !s.count(v)) continue;
        const Decl* d;
        const Expr* last;
        const Stmt* p = Consumer(t_.ctx, r, &d, &last);
        if (auto* a = dyn_cast_or_null<CXXOperatorCallExpr>(p); a && a->getOperator() == OO_Equal && last == a->getArg(0)) continue;
        if (auto* c = dyn_cast_or_null<ExplicitCastExpr>(p); c && c->getType()->isVoidType()) continue;
        s.erase(v);
      }
      if (auto* r = dyn_cast<ReturnStmt>(st); r && r->getRetValue() && Fails(r->getRetValue())) s.clear();
      if (auto* l = dyn_cast<LambdaExpr>(st))
        for (auto& c : l->captures())
          if (c.capturesVariable()) s.erase(dyn_cast<VarDecl>(c.getCapturedVar()));
    }
    return s;
  }
  const Expr* Core(const Expr* e) {
    for (;;) {
      const Expr* s = Strip(e);
      if (auto* c = dyn_cast<CXXConstructExpr>(s); c && c->getNumArgs() == 1 && IsStatus(c->getType())) s = c->getArg(0);
      if (s == e) return e;
      e = s;
    }
  }
  // A returned failure: another failure may go unseen behind it.
  bool Fails(const Expr* e) {
    auto* c = dyn_cast<CallExpr>(Core(e));
    auto* f = c ? c->getDirectCallee() : nullptr;
    if (!f || !f->getIdentifier()) return false;
    return f->getName() == "status" || (IsStatus(c->getType()) && f->getName().ends_with("Error"));
  }
  bool Constant(const Expr* e) {
    auto* c = dyn_cast<CallExpr>(e);
    auto* f = c ? c->getDirectCallee() : nullptr;
    return f && f->getNameAsString() == "OkStatus";
  }
  Tu& t_;
  const FunctionDecl* f_;
};
}  // namespace

void Status(Tu& t, const FunctionDecl* f) {
  Calls(t, f).TraverseStmt(f->getBody());
  if (auto* c = dyn_cast<CXXConstructorDecl>(f))
    for (auto* i : c->inits())
      if (i->isWritten()) Calls(t, f).TraverseStmt(i->getInit());
  Held(t, f).Run();
}
}  // namespace vast
