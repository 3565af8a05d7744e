// Rules over declarations and single expressions.
#include "common.h"

namespace vast {
namespace {
bool Const(ASTContext& c, QualType t) {
  t = t.getNonReferenceType();
  if (auto* a = c.getAsArrayType(t)) return Const(c, a->getElementType());
  if (t->isPointerType() && !t->isFunctionPointerType() && !Const(c, t->getPointeeType())) return false;  // what it points to can change
  if (auto* s = dyn_cast_or_null<ClassTemplateSpecializationDecl>(t->getAsCXXRecordDecl()); s && s->isInStdNamespace() && (s->getName() == "unique_ptr" || s->getName() == "shared_ptr") &&
      s->getTemplateArgs().size() && s->getTemplateArgs()[0].getKind() == TemplateArgument::Type && !Const(c, s->getTemplateArgs()[0].getAsType())) return false;
  return t.isConstQualified();
}
bool ToWritable(QualType t) {
  t = t.getNonReferenceType();
  return t->isPointerType() && !t->isFunctionPointerType() && !t->getPointeeType().isConstQualified();
}
bool HasMutable(QualType t, int depth = 0) {
  auto* r = Record(t);
  if (!r || !r->getDefinition() || depth > 6) return false;
  r = r->getDefinition();
  for (auto* f : r->fields())
    if (f->isMutable() || HasMutable(f->getType(), depth + 1)) return true;
  for (auto& b : r->bases())
    if (HasMutable(b.getType(), depth + 1)) return true;
  return false;
}

// Every use of a shared variable while a lock is held: the locks that cover all of them.
class Locks {
 public:
  Locks(Tu& t, const std::vector<const FunctionDecl*>& all) : t_(t) {
    // What callers hold carries over into functions that only they can call.
    for (int round = 0; round < 4; ++round) {
      held_.clear();
      next_.clear();
      for (auto* f : all)
        if (!f->isDependentContext()) Function(f);
      bool same = true;
      for (auto& [f, l] : next_) {
        auto* m = dyn_cast<CXXMethodDecl>(f);
        if (f->isExternallyVisible() && !(m && m->getAccess() == AS_private) && llvm::StringRef(t.File(f->getLocation())).ends_with(".h")) continue;
        if (entry_[f] != l) entry_[f] = l, same = false;
      }
      if (same) break;
    }
  }
  bool Guarded(const VarDecl* v) const {
    auto it = held_.find(v->getCanonicalDecl());
    return it != held_.end() && it->second.size();
  }

 private:
  using Set = std::map<const VarDecl*, const VarDecl*>;  // lock object -> mutex
  static bool Lock(QualType t) {
    std::string n = RecordName(t);
    return n == "absl::MutexLock" || n == "absl::ReleasableMutexLock" || n == "std::lock_guard" || n == "std::unique_lock" || n == "std::scoped_lock" || n == "absl::VpOldMutexLock";
  }
  static const VarDecl* Global(const Expr* e) {
    if (!e) return nullptr;
    e = Strip(e);
    if (auto* u = dyn_cast<UnaryOperator>(e); u && u->getOpcode() == UO_AddrOf) return Global(u->getSubExpr());
    if (auto* c = dyn_cast<CXXConstructExpr>(e); c && c->getNumArgs() >= 1) return Global(c->getArg(0));
    auto* r = dyn_cast<DeclRefExpr>(e);
    auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr;
    return v && v->hasGlobalStorage() ? v->getCanonicalDecl() : nullptr;
  }
  void Function(const FunctionDecl* f) {
    CFG::BuildOptions o;
    o.setAllAlwaysAdd();
    o.AddImplicitDtors = true;
    o.AddInitializers = true;
    auto cfg = CFG::buildCFG(f, f->getBody(), &t_.ctx, o);
    if (!cfg) return;
    std::map<const CFGBlock*, Set> in;
    std::vector<const CFGBlock*> todo{&cfg->getEntry()};
    Set start;
    if (auto e = entry_.find(f->getCanonicalDecl()); e != entry_.end())
      for (auto* m : e->second) start[m] = m;
    in[&cfg->getEntry()] = start;
    while (todo.size()) {
      auto* b = todo.back();
      todo.pop_back();
      Set s = Block(b, in[b], false);
      for (auto& succ : b->succs()) {
        const CFGBlock* n = succ.getReachableBlock();
        if (!n) continue;
        auto [it, fresh] = in.emplace(n, s);
        bool changed = fresh;
        if (!fresh)
          for (auto j = it->second.begin(); j != it->second.end();)
            if (!s.count(j->first)) j = it->second.erase(j), changed = true;
            else ++j;
        if (changed) todo.push_back(n);
      }
    }
    for (auto& [b, s] : in) Block(b, s, true);
  }
  Set Block(const CFGBlock* b, Set s, bool use) {
    for (auto& el : *b) {
      if (auto d = el.getAs<CFGAutomaticObjDtor>()) { s.erase(d->getVarDecl()); continue; }
      auto cs = el.getAs<CFGStmt>();
      if (!cs) continue;
      if (auto* d = dyn_cast<DeclStmt>(cs->getStmt()))
        for (auto* x : d->decls())
          if (auto* v = dyn_cast<VarDecl>(x); v && Lock(v->getType()))
            if (auto* m = Global(v->getInit())) s[v] = m;
      if (auto* m = dyn_cast<CXXMemberCallExpr>(cs->getStmt()); m && m->getMethodDecl() && m->getMethodDecl()->getIdentifier()) {
        auto n = m->getMethodDecl()->getName();
        auto* g = Global(m->getImplicitObjectArgument());
        if (g && (n == "Lock" || n == "lock")) s[g] = g;
        if (g && (n == "Unlock" || n == "unlock")) s.erase(g);
        if (auto* r = dyn_cast<DeclRefExpr>(Strip(m->getImplicitObjectArgument())); r && (n == "Release" || n == "unlock")) s.erase(dyn_cast<VarDecl>(r->getDecl()));
      }
      if (auto* r = dyn_cast<DeclRefExpr>(cs->getStmt()); use && r) {
        if (auto* f = dyn_cast<FunctionDecl>(r->getDecl())) {
          std::set<const VarDecl*> now;
          for (auto& [l, m] : s) now.insert(m);
          auto [it, fresh] = next_.emplace(f->getCanonicalDecl(), now);
          if (!fresh)
            for (auto j = it->second.begin(); j != it->second.end();)
              if (!now.count(*j)) j = it->second.erase(j);
              else ++j;
        }
        if (auto* v = dyn_cast<VarDecl>(r->getDecl()); v && v->hasGlobalStorage()) {
          std::set<const VarDecl*> now;
          for (auto& [l, m] : s) now.insert(m);
          auto [it, fresh] = held_.emplace(v->getCanonicalDecl(), now);
          if (!fresh)
            for (auto j = it->second.begin(); j != it->second.end();)
              if (!now.count(*j)) j = it->second.erase(j);
              else ++j;
        }
      }
    }
    return s;
  }
  Tu& t_;
  std::map<const VarDecl*, std::set<const VarDecl*>> held_;
  std::map<const FunctionDecl*, std::set<const VarDecl*>> entry_, next_;
};
bool Sync(QualType t) {
  std::string n = RecordName(t);
  return n == "absl::Mutex" || n == "std::mutex" || n == "std::shared_mutex" || n == "std::recursive_mutex" || n == "std::once_flag" || n == "absl::once_flag";
}

// Variables that something may write to: every use other than reading them.
class Writes : public RecursiveASTVisitor<Writes> {
 public:
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitImplicitCastExpr(ImplicitCastExpr* c) {
    if (c->getCastKind() == CK_LValueToRValue || (c->getCastKind() == CK_NoOp && c->getType().isConstQualified()))
      if (auto* r = dyn_cast<DeclRefExpr>(c->getSubExpr()->IgnoreParens())) reads_.insert(r);
    return true;
  }
  bool VisitExplicitCastExpr(ExplicitCastExpr* c) {
    if (c->getType()->isVoidType())
      if (auto* r = dyn_cast<DeclRefExpr>(c->getSubExpr()->IgnoreParens())) reads_.insert(r);
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr* r) {
    if (auto* v = dyn_cast<VarDecl>(r->getDecl()); v && v->hasGlobalStorage()) uses_.push_back({r, v->getCanonicalDecl()});
    return true;
  }
  bool Written(const VarDecl* v) const {
    for (auto& [r, w] : uses_)
      if (w == v->getCanonicalDecl() && !reads_.count(r)) return true;
    return false;
  }

 private:
  std::set<const DeclRefExpr*> reads_;
  std::vector<std::pair<const DeclRefExpr*, const VarDecl*>> uses_;
};

class State : public RecursiveASTVisitor<State> {
 public:
  State(Tu& t, const std::vector<const FunctionDecl*>& all) : t_(t), locks_(t, all) {
    for (auto* f : all) program_ |= f->isMain();
    writes_.TraverseDecl(t.ctx.getTranslationUnitDecl());
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool Program(SourceLocation l) { return program_ && t_.ctx.getSourceManager().isInMainFile(t_.ctx.getSourceManager().getExpansionLoc(l)); }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || !t_.Mine(v->getLocation()) || v->getType()->isDependentType() || v->isImplicit() || Program(v->getLocation())) return true;
    t_.Seen("static", v->getLocation());
    const bool fixed = v->isConstexpr() || (Const(t_.ctx, v->getType()) && !HasMutable(v->getType()));
    const bool tls = v->getTLSKind() != VarDecl::TLS_None;
    std::string n = v->getQualifiedNameAsString();
    if (fixed) return true;
    if ((v->isStaticLocal() || !v->isExternallyVisible()) && !HasMutable(v->getType()) && !ToWritable(v->getType()) && !writes_.Written(v)) return true;
    if (tls) t_.Report("thread-local", v->getLocation(), nullptr, "'" + n + "' keeps state from one call to the next", n);
    else if (v->hasExternalStorage() || Flag(v->getType())) return true;
    else if (!Sync(v->getType()) && !locks_.Guarded(v))
      t_.Report("static-writable", v->getLocation(), nullptr, "'" + n + "' is writable, shared by all callers and not always used under one lock (" + v->getType().getAsString() + ")", n);
    return true;
  }
  bool VisitFieldDecl(FieldDecl* f) {
    if (!t_.Mine(f->getLocation()) || Program(f->getLocation())) return true;
    t_.Seen("field", f->getLocation());
    if (f->isMutable() && !Sync(f->getType())) t_.Report("mutable-field", f->getLocation(), nullptr, "'" + f->getQualifiedNameAsString() + "' changes in const objects", f->getQualifiedNameAsString());
    return true;
  }

 private:
  static bool Flag(QualType t) {  // command line flags: an atomic inside
    auto* r = Record(t);
    return r && (r->getQualifiedNameAsString().find("flags_internal") != std::string::npos || r->getNameAsString() == "Flag");
  }
  Tu& t_;
  Locks locks_;
  Writes writes_;
  bool program_ = false;
};

int64_t Value(const Expr::EvalResult& r) { return r.Val.getInt().isRepresentableByInt64() ? r.Val.getInt().getExtValue() : INT64_MAX; }
bool PlainChar(QualType t) {
  if (t.isNull() || t->isDependentType()) return false;
  t = t.getNonReferenceType().getCanonicalType().getUnqualifiedType();
  return t->isSpecificBuiltinType(BuiltinType::Char_S) || t->isSpecificBuiltinType(BuiltinType::SChar);
}
// Local integers that hold a character with its sign.
class Held : public RecursiveASTVisitor<Held> {
 public:
  std::set<const VarDecl*> vars;
  bool VisitVarDecl(VarDecl* v) {
    if (v->getInit() && v->hasLocalStorage() && v->getType()->isSignedIntegerType() && !PlainChar(v->getType()) && Signed(v->getInit())) vars.insert(v);
    return true;
  }
  // Is the value a character carried over with its sign?
  bool Signed(const Expr* e) const {
    e = Strip(e);
    while (auto* c = dyn_cast<ExplicitCastExpr>(e)) {
      if (!c->getType()->isSignedIntegerType() || PlainChar(c->getType())) break;
      e = Strip(c->getSubExpr());
    }
    if (auto* b = dyn_cast<BinaryOperator>(e); b && (b->getOpcode() == BO_Or || b->getOpcode() == BO_Xor)) return Signed(b->getLHS()) || Signed(b->getRHS());
    if (auto* r = dyn_cast<DeclRefExpr>(e))
      if (auto* v = dyn_cast<VarDecl>(r->getDecl()); v && vars.count(v)) return true;
    return PlainChar(e->getType());
  }
};

class Bytes : public RecursiveASTVisitor<Bytes> {
 public:
  Bytes(Tu& t, const FunctionDecl* f) : t_(t), f_(f) {
    held_.TraverseStmt(f->getBody());
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitCallExpr(CallExpr* c) {
    auto* f = c->getDirectCallee();
    if (!f || !f->getIdentifier() || c->getNumArgs() < 1) return true;
    static const std::set<std::string> kCtype{"isalnum", "isalpha", "isblank", "iscntrl", "isdigit", "isgraph", "islower", "isprint", "ispunct", "isspace", "isupper", "isxdigit", "tolower", "toupper"};
    if (!kCtype.count(f->getName().str()) || f->getNumParams() != 1 || !f->getParamDecl(0)->getType()->isIntegerType()) return true;
    t_.Seen("byte", c->getBeginLoc());
    Sink(c->getArg(0), c, "a character is handed to " + f->getName().str() + " as a negative number", f->getName().str());
    return true;
  }
  bool VisitArraySubscriptExpr(ArraySubscriptExpr* e) { return Index(e->getIdx()); }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr* e) {
    if (e->getOperator() == OO_Subscript && e->getNumArgs() == 2 && e->getDirectCallee()) {
      auto* f = e->getDirectCallee();
      auto* p = f->getNumParams() ? f->getParamDecl(f->getNumParams() - 1) : nullptr;
      if (p && p->getType()->isIntegerType() && !PlainChar(p->getType())) return Index(e->getArg(1));
    }
    return true;
  }
  bool VisitCastExpr(CastExpr* e) {
    if (e->getCastKind() != CK_IntegralCast) return true;
    QualType to = e->getType();
    if (!to->isUnsignedIntegerType() || t_.ctx.getTypeSize(to) <= 8 || to->isBooleanType()) return true;
    if (!PlainChar(Strip(e->getSubExpr())->getType()) && !held_.Signed(e->getSubExpr())) return true;
    t_.Seen("byte", e->getBeginLoc());
    Sink(e->getSubExpr(), e, "a character is widened to " + to.getAsString() + " with its sign", to.getAsString());
    return true;
  }
  bool VisitBinaryOperator(BinaryOperator* b) {
    if (b->getOpcode() == BO_Shl && held_.Signed(b->getLHS())) Sink(b->getLHS(), b, "a character is shifted with its sign", "<<");
    if (b->isComparisonOp())
      for (auto [x, y] : {std::pair{b->getLHS(), b->getRHS()}, std::pair{b->getRHS(), b->getLHS()}}) {
        if (!PlainChar(Strip(x)->getType()) || Strip(y)->isValueDependent()) continue;
        Expr::EvalResult r;
        if (!Strip(y)->EvaluateAsInt(r, t_.ctx)) continue;
        t_.Seen("byte", b->getBeginLoc());
        if (Value(r) > 127) t_.Report("byte-sign", b->getBeginLoc(), f_, "a signed character is compared with a number it cannot reach", "cmp");
      }
    return true;
  }

 private:
  void Sink(const Expr* e, const Expr* at, const std::string& what, const std::string& key) {
    Expr::EvalResult r;
    const Expr* s = Strip(e);
    if (NotNegative(e, at)) return;
    if (!held_.Signed(e) || (!s->isValueDependent() && s->EvaluateAsInt(r, t_.ctx) && Value(r) >= 0)) return;
    t_.Report("byte-sign", at->getBeginLoc(), f_, what, key);
  }
  // Is the character known not to be negative where it is used?
  bool NotNegative(const Expr* e, const Expr* at) {
    e = Strip(e);
    while (auto* c = dyn_cast<CastExpr>(e)) e = Strip(c->getSubExpr());
    auto* r = dyn_cast<DeclRefExpr>(e);
    auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr;
    if (!v) return false;
    const Stmt* cur = at;
    for (int i = 0; i < 200; ++i) {
      auto ps = t_.ctx.getParents(*cur);
      if (ps.empty()) return false;
      const Stmt* p = ps[0].get<Stmt>();
      if (!p) {
        auto* d = ps[0].get<Decl>();
        auto pd = d && isa<VarDecl>(d) ? t_.ctx.getParents(*d) : DynTypedNodeList(DynTypedNode());
        if (!d || pd.empty() || !(p = pd[0].get<Stmt>())) return false;
      }
      if (auto* x = dyn_cast<IfStmt>(p); x && cur != x->getCond() && Bound(x->getCond(), v, cur == x->getThen())) return true;
      if (auto* x = dyn_cast<ConditionalOperator>(p); x && cur != x->getCond() && Bound(x->getCond(), v, cur == x->getTrueExpr())) return true;
      if (auto* x = dyn_cast<WhileStmt>(p); x && cur == x->getBody() && Bound(x->getCond(), v, true)) return true;
      if (auto* x = dyn_cast<BinaryOperator>(p); x && x->isLogicalOp() && cur == x->getRHS() && Bound(x->getLHS(), v, x->getOpcode() == BO_LAnd)) return true;
      if (auto* x = dyn_cast<CaseStmt>(p)) {
        const Stmt* w = x;
        while (w && !isa<SwitchStmt>(w)) {
          auto q = t_.ctx.getParents(*w);
          w = q.empty() ? nullptr : q[0].get<Stmt>();
        }
        if (w && Is(cast<SwitchStmt>(w)->getCond(), v)) return true;
      }
      if (auto* x = dyn_cast<CompoundStmt>(p))
        for (auto* c : x->body()) {
          if (c == cur) break;
          if (auto* f = dyn_cast<IfStmt>(c); f && !f->getElse() && Leaves(f->getThen()) && Bound(f->getCond(), v, false)) return true;
          if (isa<CaseStmt>(c) && isa<SwitchStmt>(Parent(x)) && Is(cast<SwitchStmt>(Parent(x))->getCond(), v)) return true;
          if (isa<DefaultStmt>(c)) break;
        }
      cur = p;
    }
    return false;
  }
  const Stmt* Parent(const Stmt* s) {
    auto q = t_.ctx.getParents(*s);
    const Stmt* p = q.empty() ? nullptr : q[0].get<Stmt>();
    return p ? p : s;
  }
  static bool Leaves(const Stmt* s) {
    if (auto* c = dyn_cast<CompoundStmt>(s)) return c->size() && Leaves(c->body_back());
    if (auto* e = dyn_cast<ExprWithCleanups>(s)) s = e->getSubExpr();
    return isa<ReturnStmt, BreakStmt, ContinueStmt, CXXThrowExpr, GotoStmt>(s);
  }
  bool Is(const Expr* e, const VarDecl* v) {
    e = Strip(e);
    while (auto* c = dyn_cast<CastExpr>(e)) e = Strip(c->getSubExpr());
    auto* r = dyn_cast<DeclRefExpr>(e);
    return r && r->getDecl() == v;
  }
  bool Bound(const Expr* e, const VarDecl* v, bool truth) {
    e = Strip(e);
    if (auto* u = dyn_cast<UnaryOperator>(e); u && u->getOpcode() == UO_LNot) return Bound(u->getSubExpr(), v, !truth);
    if (auto* c = dyn_cast<CallExpr>(e); c && truth && c->getNumArgs() == 1 && c->getDirectCallee() && c->getDirectCallee()->getIdentifier() && Is(c->getArg(0), v)) {
      auto n = c->getDirectCallee()->getName();
      return n.contains("isdigit") || n.contains("isxdigit") || n.contains("isalpha") || n.contains("isalnum") || n.contains("isascii");
    }
    auto* b = dyn_cast<BinaryOperator>(e);
    if (!b) return false;
    if (b->getOpcode() == BO_LAnd) return truth && (Bound(b->getLHS(), v, true) || Bound(b->getRHS(), v, true));
    if (b->getOpcode() == BO_LOr) return truth ? Bound(b->getLHS(), v, true) && Bound(b->getRHS(), v, true) : Bound(b->getLHS(), v, false) || Bound(b->getRHS(), v, false);
    auto op = b->getOpcode();
    const Expr *x = b->getLHS(), *y = b->getRHS();
    if (Is(y, v)) std::swap(x, y), op = BinaryOperator::reverseComparisonOp(op);
    if (!Is(x, v) || !b->isComparisonOp()) return false;
    if (!truth) op = BinaryOperator::negateComparisonOp(op);
    Expr::EvalResult r;
    if (y->isValueDependent() || !y->EvaluateAsInt(r, t_.ctx)) return false;
    const auto k = Value(r);
    return (op == BO_GE && k >= 0) || (op == BO_GT && k >= -1) || (op == BO_EQ && k >= 0);
  }
  bool Index(const Expr* i) {
    const Expr* c = Strip(i);
    while (auto* x = dyn_cast<CastExpr>(c)) {
      if (x->getType()->isUnsignedIntegerType() && t_.ctx.getTypeSize(x->getType()) == 8) break;
      c = Strip(x->getSubExpr());
    }
    if (c->getType()->isDependentType()) return true;
    if (held_.Signed(c) || (c->getType()->isUnsignedIntegerType() && t_.ctx.getTypeSize(c->getType()) == 8)) t_.Seen("byte", i->getBeginLoc());
    Sink(c, i, "a character selects an element with its sign", "index");
    return true;
  }
  Tu& t_;
  const FunctionDecl* f_;
  Held held_;
};

// ---- file system calls that throw -----------------------------------------------------------------------------------------------------
bool ErrorCode(const FunctionDecl* f) {
  for (auto* p : f->parameters())
    if (RecordName(p->getType()) == "std::error_code") return true;
  return false;
}
bool InFs(const DeclContext* c) {
  for (; c; c = c->getParent())
    if (auto* n = dyn_cast<NamespaceDecl>(c); n && n->getName() == "filesystem" && n->isInStdNamespace()) return true;
  return false;
}
bool Throws(const FunctionDecl* f) {
  if (!f || !InFs(f->getDeclContext()) || ErrorCode(f)) return false;
  if (auto* p = f->getType()->getAs<FunctionProtoType>(); p && isUnresolvedExceptionSpec(p->getExceptionSpecType()) == false && p->canThrow() == CT_Cannot) return false;
  auto* m = dyn_cast<CXXMethodDecl>(f);
  const std::string cls = m ? m->getParent()->getNameAsString() : "";
  if (m && cls != "directory_entry" && cls != "directory_iterator" && cls != "recursive_directory_iterator") return false;
  if (m && m->getOverloadedOperator() == OO_PlusPlus) return true;
  // Is there a form of it that reports instead?
  if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
    if (c->isCopyOrMoveConstructor() || c->getNumParams() == 0) return false;
    for (auto* o : c->getParent()->ctors())
      if (ErrorCode(o)) return true;
    return false;
  }
  for (auto* d : f->getDeclContext()->getRedeclContext()->lookup(f->getDeclName())) {
    auto* o = dyn_cast<FunctionDecl>(d->getUnderlyingDecl());
    if (o && ErrorCode(o)) return true;
  }
  return false;
}
class FsCalls : public RecursiveASTVisitor<FsCalls> {
 public:
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  std::vector<std::pair<const Expr*, const FunctionDecl*>> throws, calls;
  bool TraverseCXXTryStmt(CXXTryStmt* s) {
    bool all = false;
    for (unsigned i = 0; i < s->getNumHandlers(); ++i) {
      QualType t = s->getHandler(i)->getCaughtType();
      std::string n = t.isNull() ? "..." : RecordName(t);
      all |= n == "..." || n == "std::filesystem::filesystem_error" || n == "std::system_error" || n == "std::exception" || n == "std::runtime_error" || n == "std::filesystem::__cxx11::filesystem_error";
    }
    depth_ += all;
    TraverseStmt(s->getTryBlock());
    depth_ -= all;
    for (unsigned i = 0; i < s->getNumHandlers(); ++i) TraverseStmt(s->getHandler(i));
    return true;
  }
  bool VisitCallExpr(CallExpr* c) { return Add(c, c->getDirectCallee()); }
  bool VisitCXXConstructExpr(CXXConstructExpr* c) { return Add(c, c->getConstructor()); }
  bool Add(const Expr* e, const FunctionDecl* f) {
    if (!f || depth_) return true;
    if (Throws(f)) throws.push_back({e, f});
    else calls.push_back({e, f});
    return true;
  }
  bool VisitCXXThrowExpr(CXXThrowExpr* e) {
    if (!depth_) explicit_.push_back(e);
    return true;
  }
  std::vector<const CXXThrowExpr*> explicit_;

 private:
  int depth_ = 0;
};
bool NoThrow(const FunctionDecl* f) {
  auto* p = f->getType()->getAs<FunctionProtoType>();
  return p && !isUnresolvedExceptionSpec(p->getExceptionSpecType()) && !f->getType()->isDependentType() && p->canThrow() == CT_Cannot && !isa<CXXDestructorDecl>(f) && !f->isImplicit();
}

void FileErrors(Tu& t, const std::vector<const FunctionDecl*>& all) {
  std::map<const FunctionDecl*, FsCalls> of;
  for (auto* f : all)
    if (!f->isDependentContext()) of[f->getCanonicalDecl()].TraverseStmt(f->getBody());
  // Throwing calls reached, through functions that do not report by Status themselves.
  for (auto* f : all) {
    if (f->isDependentContext() || !(IsStatus(f->getReturnType()) || NoThrow(f))) continue;
    std::set<const FunctionDecl*> seen{f->getCanonicalDecl()};
    std::vector<const FunctionDecl*> todo{f->getCanonicalDecl()};
    while (todo.size()) {
      auto* g = todo.back();
      todo.pop_back();
      auto it = of.find(g);
      if (it == of.end()) continue;
      for (auto& [e, c] : it->second.throws) {
        t.Seen("fs", e->getBeginLoc());
        t.Report("fs-throw", e->getBeginLoc(), f, "a failing " + c->getQualifiedNameAsString() + " throws" + (g == f->getCanonicalDecl() ? "" : " through " + g->getQualifiedNameAsString()), c->getNameAsString());
      }
      for (auto& [e, c] : it->second.calls) {
        if (InFs(c->getDeclContext()) && ErrorCode(c)) t.Seen("fs", e->getBeginLoc());
        if (!IsStatus(c->getReturnType()) && !NoThrow(c) && seen.insert(c->getCanonicalDecl()).second) todo.push_back(c->getCanonicalDecl());
      }
    }
  }
}
// ---- error codes that nobody reads ---------------------------------------------------------------------------------------------------------
class Codes {
 public:
  Codes(Tu& t, const FunctionDecl* f) : t_(t), f_(f) {}
  void Run() {
    CFG::BuildOptions o;
    o.setAllAlwaysAdd();
    auto cfg = CFG::buildCFG(f_, f_->getBody(), &t_.ctx, o);
    if (!cfg) return;
    std::map<const CFGBlock*, Map> in;
    std::vector<const CFGBlock*> todo{&cfg->getEntry()};
    in[&cfg->getEntry()] = {};
    while (todo.size()) {
      auto* b = todo.back();
      todo.pop_back();
      Map s = Block(b, in[b], false);
      for (auto& succ : b->succs()) {
        const CFGBlock* n = succ.getReachableBlock();
        if (!n) continue;
        auto [it, fresh] = in.emplace(n, s);
        bool grow = fresh;
        if (!fresh)
          for (auto& [v, e] : s)
            if (it->second.emplace(v, e).second) grow = true;
        if (grow) todo.push_back(n);
      }
    }
    for (auto& [b, s] : in) Block(b, s, true);
    auto it = in.find(&cfg->getExit());
    if (it == in.end()) return;
    for (auto& [v, p] : it->second)
      if (!gone_.count(v)) Lost(v, p.at, "a path on which the function succeeds");
  }

 private:
  struct Pending {
    const Expr* at;
    const VarDecl* iter;
    bool operator<(const Pending& o) const { return at < o.at; }
  };
  using Map = std::map<const VarDecl*, Pending>;
  void Lost(const VarDecl* v, const Expr* at, const std::string& how) {
    t_.Report("fs-lost", at->getBeginLoc(), f_, "the error kept in '" + v->getNameAsString() + "' is not looked at on " + how, v->getNameAsString());
  }
  const VarDecl* Var(const Expr* e) {
    auto* r = dyn_cast<DeclRefExpr>(Strip(e));
    auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr;
    return v && v->hasLocalStorage() ? v->getCanonicalDecl() : nullptr;
  }
  // Operations whose result alone does not show that they failed.
  static bool Silent(const FunctionDecl* f) {
    if (!f || !InFs(f->getDeclContext()) || !ErrorCode(f)) return false;
    if (isa<CXXConstructorDecl>(f)) return true;
    std::string n = f->getNameAsString();
    return !(n == "exists" || n == "status" || n == "symlink_status" || n.substr(0, 3) == "is_" || n == "equivalent");
  }
  void Calls(const Expr* e, const FunctionDecl* f, llvm::ArrayRef<const Expr*> args, const Expr* object, Map& s, bool report) {
    if (!f) return;
    for (unsigned i = 0; i < args.size() && i < f->getNumParams(); ++i) {
      if (RecordName(f->getParamDecl(i)->getType()) != "std::error_code") continue;
      if (!f->getParamDecl(i)->getType()->isLValueReferenceType() || f->getParamDecl(i)->getType().getNonReferenceType().isConstQualified()) continue;
      auto* v = Var(args[i]);
      if (!v || v->getType()->isReferenceType()) continue;
      out_.insert(cast<DeclRefExpr>(Strip(args[i])));
      if (report) t_.Seen("fs", e->getBeginLoc());
      auto it = s.find(v);
      const VarDecl* iter = object ? Var(object) : nullptr;
      if (it != s.end() && report && !it->second.iter && !gone_.count(v)) Lost(v, it->second.at, "a path on which it is overwritten");
      s.erase(v);
      if (Silent(f)) s[v] = {e, f->getNameAsString() == "increment" ? iter : nullptr};
    }
  }
  Map Block(const CFGBlock* b, Map s, bool report) {
    for (auto& el : *b) {
      auto cs = el.getAs<CFGStmt>();
      if (!cs) continue;
      const Stmt* st = cs->getStmt();
      if (auto* d = dyn_cast<DeclStmt>(st)) {
        for (auto* x : d->decls())
          if (auto* v = dyn_cast<VarDecl>(x)) s.erase(v->getCanonicalDecl());
        continue;
      }
      if (auto* l = dyn_cast<LambdaExpr>(st))
        for (auto& c : l->captures())
          if (c.capturesVariable())
            if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar())) gone_.insert(v->getCanonicalDecl());
      if (auto* u = dyn_cast<UnaryOperator>(st); u && u->getOpcode() == UO_AddrOf)
        if (auto* v = Var(u->getSubExpr())) gone_.insert(v);
      if (auto* c = dyn_cast<CallExpr>(st)) {
        std::vector<const Expr*> args(c->arg_begin(), c->arg_end());
        const Expr* object = nullptr;
        if (auto* m = dyn_cast<CXXMemberCallExpr>(c)) object = m->getImplicitObjectArgument();
        if (auto* o = dyn_cast<CXXOperatorCallExpr>(c); o && isa_and_nonnull<CXXMethodDecl>(c->getDirectCallee()) && args.size()) {
          if (o->getOperator() == OO_Star || o->getOperator() == OO_Arrow)
            if (auto* v = Var(args[0]))
              for (auto it = s.begin(); it != s.end();)
                if (it->second.iter == v) it = s.erase(it);
                else ++it;
          args.erase(args.begin());
        }
        Calls(c, c->getDirectCallee(), args, object, s, report);
      }
      if (auto* c = dyn_cast<CXXConstructExpr>(st)) {
        std::vector<const Expr*> args(c->arg_begin(), c->arg_end());
        Calls(c, c->getConstructor(), args, nullptr, s, report);
      }
      if (auto* r = dyn_cast<ReturnStmt>(st); r && r->getRetValue() && Fails(r->getRetValue())) s.clear();
      if (auto* r = dyn_cast<DeclRefExpr>(st); r && !Handed(r))
        if (auto* v = Var(r)) s.erase(v);
    }
    return s;
  }
  // Given to a call to be filled in: no reading of it.
  bool Handed(const DeclRefExpr* r) {
    if (out_.count(r)) return true;
    auto ps = t_.ctx.getParents(*r);
    const Stmt* p = ps.empty() ? nullptr : ps[0].get<Stmt>();
    while (p && isa<ParenExpr>(p)) {
      auto q = t_.ctx.getParents(*p);
      p = q.empty() ? nullptr : q[0].get<Stmt>();
    }
    const FunctionDecl* f = nullptr;
    if (auto* c = dyn_cast_or_null<CallExpr>(p)) f = c->getDirectCallee();
    if (auto* c = dyn_cast_or_null<CXXConstructExpr>(p)) f = c->getConstructor();
    return f && ErrorCode(f) && RecordName(r->getType()) == "std::error_code" && InFs(f->getDeclContext());
  }
  bool Fails(const Expr* e) {
    e = Strip(e);
    if (auto* c = dyn_cast<CXXConstructExpr>(e); c && c->getNumArgs() == 1) return Fails(c->getArg(0));
    auto* c = dyn_cast<CallExpr>(e);
    auto* f = c ? c->getDirectCallee() : nullptr;
    return f && f->getIdentifier() && (f->getName() == "status" || (IsStatus(c->getType()) && f->getName().ends_with("Error")));
  }
  Tu& t_;
  const FunctionDecl* f_;
  std::set<const DeclRefExpr*> out_;
  std::set<const VarDecl*> gone_;
};
}  // namespace

void Decls(Tu& t, const std::vector<const FunctionDecl*>& all) {
  State(t, all).TraverseDecl(t.ctx.getTranslationUnitDecl());
  for (auto* f : all) Bytes(t, f).TraverseStmt(f->getBody());
  FileErrors(t, all);
  for (auto* f : all)
    if (!f->isDependentContext()) Codes(t, f).Run();
}
}  // namespace vast
