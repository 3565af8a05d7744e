#pragma once
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/Basic/SourceManager.h"
#include "clang/Lex/Lexer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "llvm/Support/JSON.h"

namespace vast {
using namespace clang;

struct Finding {
  std::string rule, where, function, what, key;
  bool operator<(const Finding& o) const { return std::tie(rule, where, function, what) < std::tie(o.rule, o.where, o.function, o.what); }
};

struct Out {
  std::set<Finding> findings;
  std::map<std::string, std::set<std::string>> seen;  // what each rule looked at
  std::map<std::string, std::set<std::string>> facts;
};

struct Tu {
  ASTContext& ctx;
  Out& out;
  std::string root;  // repository
  std::string File(SourceLocation l) const {
    auto& sm = ctx.getSourceManager();
    l = sm.getExpansionLoc(l);
    auto fe = sm.getFileEntryRefForID(sm.getFileID(l));
    if (!fe) return "";
    llvm::StringRef p = fe->getFileEntry().tryGetRealPathName();
    if (p.empty()) p = fe->getName();
    std::string s = p.str();
    if (llvm::StringRef(s).starts_with(root + "/")) s = s.substr(root.size() + 1);
    else if (llvm::StringRef(s).starts_with("/")) return "";
    return llvm::StringRef(s).starts_with("mbo/") ? s : "";
  }
  bool Mine(SourceLocation l) const {
    std::string f = File(l);
    llvm::StringRef s(f);
    return !s.empty() && !s.contains("_test.") && !s.contains("_benchmark") && !s.contains("_test_util") && !s.contains("_test_vectors");
  }
  std::string Where(SourceLocation l) const {
    auto& sm = ctx.getSourceManager();
    return File(l) + ":" + std::to_string(sm.getExpansionLineNumber(l));
  }
  void Report(const std::string& rule, SourceLocation l, const FunctionDecl* f, const std::string& what, const std::string& key = "") {
    out.findings.insert({rule, Where(l), f ? f->getQualifiedNameAsString() : "", what, key});
  }
  void Seen(const std::string& rule, SourceLocation l) { out.seen[rule].insert(Where(l)); }
};

inline const Expr* Strip(const Expr* e) {
  for (;;) {
    const Expr* s = e->IgnoreParenImpCasts();
    if (auto* x = dyn_cast<ExprWithCleanups>(s)) s = x->getSubExpr();
    else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(s)) s = x->getSubExpr();
    else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(s)) s = x->getSubExpr();
    else if (auto* x = dyn_cast<FullExpr>(s)) s = x->getSubExpr();
    if (s == e) return e;
    e = s;
  }
}

inline const CXXRecordDecl* Record(QualType t) {
  if (t.isNull()) return nullptr;
  return t.getNonReferenceType().getCanonicalType()->getAsCXXRecordDecl();
}
inline std::string RecordName(QualType t) {
  auto* r = Record(t);
  return r ? r->getQualifiedNameAsString() : "";
}
inline bool IsStatus(QualType t) {
  if (t.isNull() || t->isDependentType()) return false;
  std::string n = RecordName(t);
  return n == "absl::Status" || n == "absl::StatusOr";
}

// Conditions seen through what only renames them: named results, casts to bool, comparisons with true, predicates of one return.
class Conds {
 public:
  explicit Conds(const FunctionDecl* f) : body_(f->getBody()) {}
  bool Written(const VarDecl* v) {
    if (!scanned_) {
      scanned_ = true;
      Scan s(this);
      if (body_) s.TraverseStmt(const_cast<Stmt*>(body_));
    }
    return written_.count(v);
  }
  // The argument a predicate's parameter stands for, else the expression itself.
  const Expr* Arg(const Expr* e) {
    for (int i = 0; i < 4; ++i) {
      e = Strip(e);
      auto* r = dyn_cast<DeclRefExpr>(e);
      auto* p = r ? dyn_cast<ParmVarDecl>(r->getDecl()) : nullptr;
      auto it = p ? env_.find(p) : env_.end();
      if (it == env_.end()) return e;
      e = it->second;
    }
    return e;
  }
  // A simpler condition with the same meaning (flips `truth` where negated); null if there is none.
  const Expr* Simpler(const Expr* e, bool& truth) {
    e = Strip(e);
    if (auto* c = dyn_cast<ExplicitCastExpr>(e); c && c->getType()->isBooleanType()) return c->getSubExpr();
    if (auto* b = dyn_cast<BinaryOperator>(e); b && (b->getOpcode() == BO_EQ || b->getOpcode() == BO_NE))
      for (auto [x, y] : {std::pair{b->getLHS(), b->getRHS()}, std::pair{b->getRHS(), b->getLHS()}})
        if (auto* k = dyn_cast<CXXBoolLiteralExpr>(Strip(y))) {
          if (k->getValue() != (b->getOpcode() == BO_EQ)) truth = !truth;
          return x;
        }
    if (auto* r = dyn_cast<DeclRefExpr>(e)) {
      auto* v = dyn_cast<VarDecl>(r->getDecl());
      if (!v) return nullptr;
      if (auto* p = dyn_cast<ParmVarDecl>(v)) {
        auto it = env_.find(p);
        return it == env_.end() ? nullptr : it->second;
      }
      if (v->hasLocalStorage() && v->getInit() && v->getType()->isBooleanType() && (v->getType().isConstQualified() || !Written(v)) && ++depth_ < 64) return v->getInit();
      return nullptr;
    }
    if (auto* c = dyn_cast<CallExpr>(e)) {
      auto* f = c->getDirectCallee();
      if (!f || !f->getReturnType()->isBooleanType()) return nullptr;
      const unsigned skip = isa<CXXOperatorCallExpr>(c) && isa<CXXMethodDecl>(f) ? 1 : 0;  // a lambda called by name
      if (skip && cast<CXXOperatorCallExpr>(c)->getOperator() != OO_Call) return nullptr;
      if (isa<CXXMemberCallExpr>(c)) return nullptr;
      const FunctionDecl* d;
      if (!f->hasBody(d) || d->isDependentContext() || d->getNumParams() + skip != c->getNumArgs() || ++depth_ >= 64) return nullptr;
      auto* k = dyn_cast<CompoundStmt>(d->getBody());
      auto* r = k && k->size() == 1 ? dyn_cast<ReturnStmt>(*k->body_begin()) : nullptr;
      if (!r || !r->getRetValue()) return nullptr;
      for (unsigned i = 0; i < d->getNumParams(); ++i) env_[d->getParamDecl(i)] = c->getArg(i + skip);
      return r->getRetValue();
    }
    return nullptr;
  }

 private:
  class Scan : public RecursiveASTVisitor<Scan> {
   public:
    explicit Scan(Conds* c) : c_(c) {}
    bool VisitBinaryOperator(BinaryOperator* b) { return !b->isAssignmentOp() || Mark(b->getLHS()); }
    bool VisitUnaryOperator(UnaryOperator* u) { return !(u->isIncrementDecrementOp() || u->getOpcode() == UO_AddrOf) || Mark(u->getSubExpr()); }
    bool VisitCallExpr(CallExpr* c) {
      auto* f = c->getDirectCallee();
      for (unsigned i = 0; i < c->getNumArgs(); ++i)
        if (!f || i >= f->getNumParams() || (f->getParamDecl(i)->getType()->isReferenceType() && !f->getParamDecl(i)->getType().getNonReferenceType().isConstQualified()))
          if (c->getArg(i)->isLValue()) Mark(c->getArg(i));
      return true;
    }
    bool VisitLambdaExpr(LambdaExpr* l) {
      for (auto& c : l->captures())
        if (c.capturesVariable() && c.getCaptureKind() == LCK_ByRef) c_->written_.insert(dyn_cast<VarDecl>(c.getCapturedVar()));
      return true;
    }

   private:
    bool Mark(const Expr* e) {
      if (auto* r = dyn_cast<DeclRefExpr>(Strip(e))) c_->written_.insert(dyn_cast<VarDecl>(r->getDecl()));
      return true;
    }
    Conds* c_;
  };
  const Stmt* body_ = nullptr;
  bool scanned_ = false;
  int depth_ = 0;
  std::set<const VarDecl*> written_;
  std::map<const ParmVarDecl*, const Expr*> env_;

 public:
  void Fresh() { env_.clear(), depth_ = 0; }
};

void Status(Tu& t, const FunctionDecl* f);
void Access(Tu& t, const std::vector<const FunctionDecl*>& all);
void Streams(Tu& t, const std::vector<const FunctionDecl*>& all);
void Exits(Tu& t, const std::vector<const FunctionDecl*>& all);
void Decls(Tu& t, const std::vector<const FunctionDecl*>& all);
}  // namespace vast
