// Exit status: once something has gone wrong, a tool does not end with 0.  Abstract execution of the mains over {0, not 0, unknown}.
#include "common.h"

namespace vast {
namespace {
enum Val : char { kTop, kZero, kOne };  // unknown, zero / false, not zero / true
enum : unsigned { kReported = 1, kFailed = 2, kDifferent = 4, kMismatch = 8, kUnreadable = 16, kMalformed = 32 };
using Place = std::pair<const Decl*, const Decl*>;  // variable, field

struct S {
  std::map<Place, Val> vars;
  std::map<const Stmt*, Val> memo;
  std::map<std::string, Val> flags;
  unsigned events = 0;
  std::map<unsigned, const Stmt*> where;
  std::tuple<const std::map<Place, Val>&, const std::map<const Stmt*, Val>&, const std::map<std::string, Val>&, unsigned> Key() const { return {vars, memo, flags, events}; }
  bool operator<(const S& o) const { return Key() < o.Key(); }
  unsigned only = 0;
  void Event(unsigned e, const Stmt* at) {
    if (!(e & only)) return;
    events |= e;
    where.emplace(e, at);
  }
};
using Result = std::pair<Val, S>;
struct TooMuch {};

class Run {
 public:
  Run(Tu& t, unsigned only, bool coarse = false) : t_(t), only_(only), coarse_(coarse) {}
  unsigned raised = 0;
  std::vector<Result> Function(const FunctionDecl* f, S start, int depth) {
    auto& cfg = cfgs_[f];
    if (!cfg) {
      CFG::BuildOptions o;
      o.setAllAlwaysAdd();
      o.PruneTriviallyFalseEdges = false;
      cfg = CFG::buildCFG(f, f->getBody(), &t_.ctx, o);
    }
    std::vector<Result> out;
    if (!cfg) throw TooMuch();
    auto& live = live_[f];
    if (live.empty()) live = Live(f, *cfg);
    auto outer = std::move(start.memo);
    start.memo.clear();
    std::set<std::pair<const CFGBlock*, S>> seen;
    std::vector<std::pair<const CFGBlock*, S>> todo{{&cfg->getEntry(), start}};
    std::set<std::pair<Val, S>> results;
    while (todo.size()) {
      auto [b, s] = todo.back();
      todo.pop_back();
      if (b == &cfg->getExit()) {
        s.memo = outer;
        results.insert({f->isMain() ? kZero : kTop, s});
        continue;
      }
      std::vector<S> states{s};
      bool ended = false;
      for (auto& el : *b) {
        auto cs = el.getAs<CFGStmt>();
        if (!cs) continue;
        const Stmt* st = cs->getStmt();
        if (auto* u = dyn_cast<UnaryOperator>(st); !isa<DeclStmt, CallExpr, ReturnStmt>(st) && !(u && u->isIncrementDecrementOp()) && !(isa<BinaryOperator>(st) && cast<BinaryOperator>(st)->isAssignmentOp())) {
          for (auto& x : states)
            if (!x.memo.empty()) x.memo.erase(st);
          continue;
        }
        std::vector<S> next;
        const size_t n = states.size();
        for (auto& x : states) {
          if (auto* r = dyn_cast<ReturnStmt>(cs->getStmt())) {
            Val v = r->getRetValue() ? Eval(r->getRetValue(), x) : kTop;
            S y = x;
            y.memo = outer;
            if (f->isMain()) Done(f, r, v, y);
            results.insert({v, y});
            ended = true;
            continue;
          }
          Step(cs->getStmt(), x, next, depth);
        }
        if (ended) break;
        states = std::move(next);
        for (auto& x : states) Coarse(x);
        if (auto ps = t_.ctx.getParents(*cs->getStmt()); isa<DeclStmt>(cs->getStmt()) || (!ps.empty() && ps[0].get<CompoundStmt>()))
          for (auto& x : states) x.memo.clear();
        if (states.size() != n) {
          std::set<S> once(states.begin(), states.end());
          states.assign(once.begin(), once.end());
        }
        if (++work_ > 2000000 || states.size() > 4000) throw TooMuch();
      }
      if (ended || b->hasNoReturnElement()) continue;
      const Expr* cond = b->getTerminatorCondition() ? dyn_cast<Expr>(b->getTerminatorCondition()) : nullptr;
      const bool two = b->succ_size() == 2 && cond && !isa_and_nonnull<SwitchStmt>(b->getTerminatorStmt()) && !isa_and_nonnull<CXXForRangeStmt>(b->getTerminatorStmt());
      for (auto& x : states) {
        unsigned k = 0;
        for (auto& succ : b->succs()) {
          const unsigned edge = k++;
          const CFGBlock* n = succ.getReachableBlock();
          if (!n) continue;
          S y = x;
          if (two) {
            Val v = Eval(cond, y);
            if (v != kTop && (v == kOne) != (edge == 0)) continue;
            conds_ = std::make_unique<Conds>(f);
            if (!Learn(cond, edge == 0, y)) continue;
            Coarse(y);
            auto* term = b->getTerminatorStmt();
            if (isa_and_nonnull<AbstractConditionalOperator, BinaryOperator>(term)) y.memo[Strip(cond)] = edge == 0 ? kOne : kZero;
            else y.memo.clear();
          }
          for (auto it = y.vars.begin(); it != y.vars.end();) {
            auto* v = cast<VarDecl>(it->first.first);
            if (v->getDeclContext() == f && !live[n].count(v)) it = y.vars.erase(it);
            else ++it;
          }
          if (f->isMain() && n == &cfg->getExit()) Done(f, f->getBody(), kZero, y);
          if (seen.insert({n, y}).second) todo.push_back({n, y});
          if (seen.size() > 200000) throw TooMuch();
        }
      }
    }
    for (auto& r : results) out.push_back(r);
    return out;
  }
  std::set<std::string> sites;
  bool decided = true;

 private:
  void Coarse(S& s) {
    if (!coarse_) return;
    raised |= s.events;
    s.events = 0;
    s.where.clear();
    s.vars.clear();
    s.flags.clear();
  }
  using LiveSets = std::map<const CFGBlock*, std::set<const VarDecl*>>;
  // The function's own variables that can still be looked at; anything an address or a reference was taken of always can.
  static LiveSets Live(const FunctionDecl* f, const CFG& cfg) {
    LiveSets uses, decls, live;
    std::set<const VarDecl*> always;
    std::function<void(const Stmt*, bool)> visit = [&](const Stmt* s, bool kept) {
      if (!s) return;
      if (auto* l = dyn_cast<LambdaExpr>(s)) {
        for (auto& c : l->captures())
          if (c.capturesVariable())
            if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar())) always.insert(v->getCanonicalDecl());
        return;
      }
      if (auto* r = dyn_cast<DeclRefExpr>(s); r && kept)
        if (auto* v = dyn_cast<VarDecl>(r->getDecl())) always.insert(v->getCanonicalDecl());
      if (auto* u = dyn_cast<UnaryOperator>(s); u && u->getOpcode() == UO_AddrOf) kept = true;
      if (auto* d = dyn_cast<DeclStmt>(s)) {
        for (auto* x : d->decls())
          if (auto* v = dyn_cast<VarDecl>(x)) visit(v->getInit(), kept || v->getType()->isReferenceType() || v->getType()->isPointerType());
        return;
      }
      for (auto* c : s->children()) visit(c, kept);
    };
    visit(f->getBody(), false);
    for (auto* b : cfg) {
      std::function<void(const Stmt*)> refs = [&](const Stmt* s) {
        if (!s) return;
        if (auto* r = dyn_cast<DeclRefExpr>(s))
          if (auto* v = dyn_cast<VarDecl>(r->getDecl())) uses[b].insert(v->getCanonicalDecl());
        for (auto* c : s->children()) refs(c);
      };
      for (auto& el : *b)
        if (auto cs = el.getAs<CFGStmt>()) {
          if (auto* d = dyn_cast<DeclStmt>(cs->getStmt())) {
            for (auto* x : d->decls())
              if (auto* v = dyn_cast<VarDecl>(x)) decls[b].insert(v->getCanonicalDecl());
          }
          refs(cs->getStmt());
        }
      refs(b->getTerminatorCondition());
    }
    for (bool more = true; more;) {
      more = false;
      for (auto* b : cfg) {
        std::set<const VarDecl*> in = always;
        for (auto& s : b->succs())
          if (auto* n = s.getReachableBlock()) in.insert(live[n].begin(), live[n].end());
        in.insert(uses[b].begin(), uses[b].end());
        for (auto* v : decls[b])
          if (!always.count(v)) in.erase(v);
        if (in != live[b]) live[b] = std::move(in), more = true;
      }
    }
    return live;
  }
  void Done(const FunctionDecl* f, const Stmt* at, Val v, const S& s) {
    sites.insert(t_.Where(at->getBeginLoc()));
    t_.Seen("exit", at->getBeginLoc());
    if (v != kZero) return;
    auto flag = [&](const char* n) { auto i = s.flags.find(n); return i == s.flags.end() ? kTop : i->second; };
    auto say = [&](unsigned e, const std::string& what) {
      auto w = s.where.count(e) ? s.where.at(e) : at;
      t_.Report("exit-status", w->getBeginLoc(), f, "the program can end with 0 although " + what, what);
    };
    if (s.events & kReported) say(kReported, "an error was reported");
    if (s.events & kFailed) say(kFailed, "an operation failed");
    if (s.events & kDifferent) say(kDifferent, "the files differ");
    if (s.events & kMismatch) say(kMismatch, "a digest does not match");
    if ((s.events & kUnreadable) && flag("ignore_missing") != kOne) say(kUnreadable, "a file could not be read");
    if ((s.events & kMalformed) && flag("strict") != kZero) say(kMalformed, "a checksum line is malformed");
  }
  bool Tracked(const std::string& f) const { return (f == "ignore_missing" && only_ == kUnreadable) || (f == "strict" && only_ == kMalformed); }
  static bool Scalar(QualType t) { return t->isIntegralOrEnumerationType() || t->isBooleanType(); }
  bool Where(const Expr* e, Place& p) {
    e = Strip(e);
    if (auto* m = dyn_cast<MemberExpr>(e)) {
      Place q;
      if (!isa<FieldDecl>(m->getMemberDecl()) || !Where(m->getBase(), q) || q.second) return false;
      p = {q.first, m->getMemberDecl()->getCanonicalDecl()};
      return true;
    }
    if (auto* u = dyn_cast<UnaryOperator>(e); u && (u->getOpcode() == UO_AddrOf || u->getOpcode() == UO_Deref)) return Where(u->getSubExpr(), p);
    auto* r = dyn_cast<DeclRefExpr>(e);
    auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : isa<CXXThisExpr>(e) ? this_ : nullptr;
    if (!v || !v->hasLocalStorage()) return false;
    for (int i = 0; i < 8; ++i) {
      auto it = alias_.find(v);
      if (it == alias_.end()) break;
      v = it->second;
    }
    p = {v->getCanonicalDecl(), nullptr};
    return true;
  }
  // x.ok(), x.has_value(), bool(x), x.empty() ... of a variable: answers the same until x changes.
  bool Asked(const Expr* e, Place& p) {
    auto* m = dyn_cast<CXXMemberCallExpr>(Strip(e));
    auto* d = m ? m->getMethodDecl() : nullptr;
    if (!d || !d->isConst() || m->getNumArgs() || !m->getType()->isBooleanType() || !Where(m->getImplicitObjectArgument(), p) || p.second) return false;
    std::string n = d->getNameAsString();
    p.second = n == "ok" || n == "has_value" || isa<CXXConversionDecl>(d) ? p.first : d->getCanonicalDecl();
    return true;
  }
  void Fill(const VarDecl* v, const CXXRecordDecl* r, const Expr* init, S& s) {
    auto* il = init ? dyn_cast<InitListExpr>(Strip(init)) : nullptr;
    unsigned i = 0;
    for (auto* f : r->fields()) {
      const Expr* x = il && i < il->getNumInits() ? il->getInit(i) : f->getInClassInitializer();
      ++i;
      if (x && Scalar(f->getType()))
        if (Val k = Eval(x, s); k != kTop && !coarse_) s.vars[{v->getCanonicalDecl(), f->getCanonicalDecl()}] = k;
    }
  }
  Val Get(const Expr* e, const S& s) {
    Place p;
    if (!Where(e, p)) return kTop;
    auto it = s.vars.find(p);
    return it == s.vars.end() ? kTop : it->second;
  }
  void Put(const Expr* e, Val v, S& s) {
    Place p;
    if (!Where(e, p)) return;
    if (v == kTop) s.vars.erase(p);
    else s.vars[p] = v;
    if (!p.second && v == kTop)
      for (auto it = s.vars.begin(); it != s.vars.end();)
        if (it->first.first == p.first) it = s.vars.erase(it);
        else ++it;
  }
  static Val Not(Val v) { return v == kTop ? kTop : v == kZero ? kOne : kZero; }
  std::string FlagName(const Expr* e) {
    auto* c = dyn_cast<CallExpr>(Strip(e));
    if (!c || !c->getDirectCallee() || !c->getDirectCallee()->getIdentifier() || c->getDirectCallee()->getName() != "GetFlag" || !c->getType()->isBooleanType() || c->getNumArgs() != 1) return "";
    auto* r = dyn_cast<DeclRefExpr>(Strip(c->getArg(0)));
    std::string n = r ? r->getDecl()->getNameAsString() : "";
    return n.substr(0, 6) == "FLAGS_" ? n.substr(6) : "";
  }
  Val Eval(const Expr* e, const S& s) {
    e = Strip(e);
    if (auto it = s.memo.find(e); it != s.memo.end()) return it->second;
    if (auto* c = dyn_cast<ExplicitCastExpr>(e); c && Scalar(c->getType())) return Eval(c->getSubExpr(), s);
    if (auto* i = dyn_cast<InitListExpr>(e); i && Scalar(e->getType())) return i->getNumInits() == 0 ? kZero : Eval(i->getInit(0), s);
    if (isa<ImplicitValueInitExpr, CXXScalarValueInitExpr>(e)) return kZero;
    if (auto* d = dyn_cast<CXXDefaultInitExpr>(e)) return d->getExpr() ? Eval(d->getExpr(), s) : kTop;
    if (Val v = Get(e, s); v != kTop) return v;
    if (Place p; Asked(e, p)) {
      if (auto it = s.vars.find(p); it != s.vars.end()) return it->second;
    }
    if (auto f = FlagName(e); !f.empty()) {
      auto it = s.flags.find(f);
      return it == s.flags.end() ? kTop : it->second;
    }
    if (auto* u = dyn_cast<UnaryOperator>(e); u && u->getOpcode() == UO_LNot) return Not(Eval(u->getSubExpr(), s));
    if (auto* q = dyn_cast<ConditionalOperator>(e)) {
      Val c = Eval(q->getCond(), s);
      if (c == kOne) return Eval(q->getTrueExpr(), s);
      if (c == kZero) return Eval(q->getFalseExpr(), s);
      Val a = Eval(q->getTrueExpr(), s), b = Eval(q->getFalseExpr(), s);
      return a == b ? a : kTop;
    }
    if (auto* b = dyn_cast<BinaryOperator>(e)) {
      auto op = b->getOpcode();
      if (op == BO_Comma) return Eval(b->getRHS(), s);
      if (op == BO_Assign) return Get(b->getLHS(), s);
      Val x = Eval(b->getLHS(), s), y = Eval(b->getRHS(), s);
      if (op == BO_LAnd) return x == kZero || y == kZero ? kZero : x == kOne && y == kOne ? kOne : kTop;
      if (op == BO_LOr || op == BO_Or) return x == kOne || y == kOne ? kOne : x == kZero && y == kZero ? kZero : kTop;
      if (op == BO_And && (x == kZero || y == kZero)) return kZero;
      if (op == BO_Mul && (x == kZero || y == kZero)) return kZero;
      const bool uns = b->getLHS()->getType()->isUnsignedIntegerType() && b->getRHS()->getType()->isUnsignedIntegerType();
      if (op == BO_Add) return x == kZero ? y : y == kZero ? x : x == kOne && y == kOne && uns ? kOne : kTop;
      if (op == BO_EQ || op == BO_NE || op == BO_GT || op == BO_LT || op == BO_GE || op == BO_LE) {
        const Expr *l = b->getLHS(), *r = b->getRHS();
        if (Const(l, s) == 0 && Const(r, s) != 0) std::swap(l, r), std::swap(x, y), op = BinaryOperator::reverseComparisonOp(op);
        if (Const(r, s) == 1 && uns) {  // > 0 in another dress
          if (op == BO_GE) op = BO_GT, y = kZero;
          else if (op == BO_LT) op = BO_EQ, y = kZero;
        }
        if (y != kZero || x == kTop) {
          Expr::EvalResult c;
          if (!e->isValueDependent() && e->EvaluateAsInt(c, t_.ctx)) return c.Val.getInt() != 0 ? kOne : kZero;
          return kTop;
        }
        const bool nz = x == kOne;
        if (op == BO_EQ) return nz ? kZero : kOne;
        if (op == BO_NE) return nz ? kOne : kZero;
        if (op == BO_GT && l->getType()->isUnsignedIntegerOrEnumerationType()) return nz ? kOne : kZero;
        if (op == BO_LE && l->getType()->isUnsignedIntegerOrEnumerationType()) return nz ? kZero : kOne;
        return kTop;
      }
    }
    if (auto* c = dyn_cast<CallExpr>(e); c && c->getDirectCallee() && c->getDirectCallee()->isInStdNamespace() && c->getNumArgs() == 2 && c->getDirectCallee()->getIdentifier()) {
      Val x = Eval(c->getArg(0), s), y = Eval(c->getArg(1), s);
      if (c->getDirectCallee()->getName() == "max") return x == kOne && y == kOne ? kOne : x == kZero && y == kZero ? kZero : kTop;
    }
    Expr::EvalResult c;
    if (Scalar(e->getType()) && !e->isValueDependent() && !e->isTypeDependent() && e->EvaluateAsInt(c, t_.ctx)) return c.Val.getInt() != 0 ? kOne : kZero;
    return kTop;
  }
  // 0 or 1 for these constants, -1 for anything else
  int Const(const Expr* e, const S&) {
    Expr::EvalResult c;
    if (e->isValueDependent() || !e->EvaluateAsInt(c, t_.ctx)) return -1;
    return c.Val.getInt() == 0 ? 0 : c.Val.getInt() == 1 ? 1 : -1;
  }
  static bool Opt(QualType t) { return RecordName(t) == "std::optional"; }
  std::string Arg0(QualType t) {
    auto* s = dyn_cast_or_null<ClassTemplateSpecializationDecl>(Record(t));
    return s && s->getTemplateArgs().size() && s->getTemplateArgs()[0].getKind() == TemplateArgument::Type ? RecordName(s->getTemplateArgs()[0].getAsType()) : "";
  }
  bool Text(const Expr* e) { auto n = RecordName(e->getType()); return n == "std::basic_string" || n == "std::basic_string_view" || n == "std::__cxx11::basic_string"; }
  // A value taken out of an optional string.
  bool Taken(const Expr* e) {
    e = conds_ ? conds_->Arg(e) : Strip(e);
    if (auto* o = dyn_cast<CXXOperatorCallExpr>(e); o && o->getOperator() == OO_Star) return Opt(o->getArg(0)->getType()) && Text(o);
    if (auto* m = dyn_cast<CXXMemberCallExpr>(e); m && m->getMethodDecl()) {
      if (m->getMethodDecl()->getNameAsString() == "value") return Opt(m->getImplicitObjectArgument()->getType()) && Text(m);
      if (isa<CXXConversionDecl>(m->getMethodDecl())) return Taken(m->getImplicitObjectArgument());
    }
    if (auto* r = dyn_cast<DeclRefExpr>(e))
      if (auto* v = dyn_cast<VarDecl>(r->getDecl()); v && v->hasLocalStorage() && !isa<ParmVarDecl>(v) && v->getInit() && v->getInit() != e && Text(e)) {
        const Expr* i = Strip(v->getInit());
        if (auto* c = dyn_cast<CXXConstructExpr>(i); c && c->getNumArgs() >= 1) i = Strip(c->getArg(0));
        return !isa<DeclRefExpr>(i) && Taken(i);
      }
    return false;
  }
  void NoValue(const Expr* obj, S& s, const Stmt* at) {
    const Expr* e = conds_->Arg(obj);
    std::string n = Arg0(e->getType());
    if (n == "std::basic_string" || n == "std::__cxx11::basic_string") s.Event(kUnreadable, at);
    if (n.find("ChecksumLine") != std::string::npos) s.Event(kMalformed, at);
  }
  bool FromDiff(const Expr* e) {
    e = conds_->Arg(e);
    if (auto* o = dyn_cast<CXXOperatorCallExpr>(e); o && (o->getOperator() == OO_Arrow || o->getOperator() == OO_Star)) return FromDiff(o->getArg(0));
    if (auto* m = dyn_cast<CXXMemberCallExpr>(e); m && m->getMethodDecl() && m->getMethodDecl()->getNameAsString() == "value") return FromDiff(m->getImplicitObjectArgument());
    if (auto* c = dyn_cast<CallExpr>(e); c && c->getDirectCallee() && c->getDirectCallee()->getIdentifier()) return c->getDirectCallee()->getName().starts_with("FileDiff");
    if (auto* c = dyn_cast<CXXConstructExpr>(e); c && c->getNumArgs() == 1) return FromDiff(c->getArg(0));
    if (auto* r = dyn_cast<DeclRefExpr>(e))
      if (auto* v = dyn_cast<VarDecl>(r->getDecl()); v && v->hasLocalStorage() && v->getInit() && !isa<ParmVarDecl>(v)) return FromDiff(v->getInit());
    return false;
  }
  // What follows from the condition; false if it cannot be.
  bool Learn(const Expr* e, bool truth, S& s) {
    e = Strip(e);
    if (auto* u = dyn_cast<UnaryOperator>(e); u && u->getOpcode() == UO_LNot) return Learn(u->getSubExpr(), !truth, s);
    if (auto* r = dyn_cast<DeclRefExpr>(e); r && Scalar(e->getType())) Put(e, truth ? kOne : kZero, s);
    if (auto* m = dyn_cast<MemberExpr>(e); m && Scalar(e->getType())) Put(e, truth ? kOne : kZero, s);
    if (auto f = FlagName(e); !f.empty()) {
      if (!Tracked(f)) return true;
      auto [it, fresh] = s.flags.emplace(f, truth ? kOne : kZero);
      return fresh || it->second == (truth ? kOne : kZero);
    }
    if (auto* r = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      auto d = r->getDecomposedForm();
      return Equal(d.LHS, d.RHS, (d.Opcode == BO_EQ) == truth, s, e);
    }
    if (auto* o = dyn_cast<CXXOperatorCallExpr>(e); o && o->getNumArgs() == 2 && (o->getOperator() == OO_EqualEqual || o->getOperator() == OO_ExclaimEqual))
      return Equal(o->getArg(0), o->getArg(1), (o->getOperator() == OO_EqualEqual) == truth, s, e);
    if (bool t = truth; const Expr* x = conds_->Simpler(e, t)) return Learn(x, t, s);
    if (auto* b = dyn_cast<BinaryOperator>(e)) {
      if (b->getOpcode() == BO_LAnd || b->getOpcode() == BO_LOr) {
        const bool both = (b->getOpcode() == BO_LAnd) == truth;
        // The edges inside have already been followed; a decision of both sides is learned where it is certain.
        Val x = Eval(b->getLHS(), s);
        if (both) return Learn(b->getLHS(), truth, s) && Learn(b->getRHS(), truth, s);
        (void)x;
        return true;
      }
      auto op = b->getOpcode();
      const Expr *l = b->getLHS(), *r = b->getRHS();
      if (b->isComparisonOp() && Const(l, s) >= 0) std::swap(l, r), op = BinaryOperator::reverseComparisonOp(op);
      const int k = b->isComparisonOp() ? Const(r, s) : -1;
      if (k >= 0) {
        const bool uns = l->IgnoreParenImpCasts()->getType()->isUnsignedIntegerType();
        if (!truth) op = BinaryOperator::negateComparisonOp(op);
        if (k == 0 && (op == BO_EQ || (op == BO_LE && uns))) Put(l, kZero, s), Size(l, true, s, e);
        if (k == 0 && (op == BO_NE || op == BO_GT)) Put(l, kOne, s), Size(l, false, s, e);
        if (k == 1 && op == BO_LT && uns) Put(l, kZero, s), Size(l, true, s, e);
        if (k == 1 && op == BO_GE) Put(l, kOne, s), Size(l, false, s, e);
      }
      return true;
    }
    if (auto* m = dyn_cast<CXXMemberCallExpr>(e); m && m->getMethodDecl()) {
      const Expr* o = m->getImplicitObjectArgument();
      std::string n = m->getMethodDecl()->getNameAsString();
      if (Place p; Asked(e, p)) s.vars[p] = truth ? kOne : kZero;
      const Expr* a = conds_->Arg(o);
      if (n == "ok" && IsStatus(a->getType()) && !truth) s.Event(kFailed, e);
      if (Opt(a->getType()) && (n == "has_value" || isa<CXXConversionDecl>(m->getMethodDecl())) && !truth) NoValue(o, s, e);
      if (n == "empty" && FromDiff(o) && !truth) s.Event(kDifferent, e);
      return true;
    }
    return true;
  }
  void Size(const Expr* l, bool zero, S& s, const Stmt* at) {
    auto* m = dyn_cast<CXXMemberCallExpr>(Strip(l));
    if (!m || !m->getMethodDecl() || zero) return;
    std::string n = m->getMethodDecl()->getNameAsString();
    if ((n == "size" || n == "length") && FromDiff(m->getImplicitObjectArgument())) s.Event(kDifferent, at);
  }
  bool Equal(const Expr* x, const Expr* y, bool equal, S& s, const Stmt* at) {
    auto null = [](const Expr* e) { auto* r = Record(Strip(e)->getType()); return r && r->getNameAsString() == "nullopt_t"; };
    if (null(y) && Opt(x->getType()) && equal) NoValue(x, s, at);
    if (null(x) && Opt(y->getType()) && equal) NoValue(y, s, at);
    if (!equal && Text(conds_->Arg(x)) && Text(conds_->Arg(y)) && (Taken(x) || Taken(y))) s.Event(kMismatch, at);
    return true;
  }
  static const Expr* ChainRoot(const Expr* e) {
    for (;;) {
      e = Strip(e);
      auto* o = dyn_cast<CXXOperatorCallExpr>(e);
      if (!o || o->getOperator() != OO_LessLess || o->getNumArgs() != 2) return e;
      e = o->getArg(0);
    }
  }
  static bool Warns(const Stmt* s) {
    if (auto* l = dyn_cast_or_null<StringLiteral>(s)) return l->isOrdinary() && l->getString().contains_insensitive("warning");
    if (!s) return false;
    for (auto* c : s->children())
      if (Warns(c)) return true;
    return false;
  }
  void Step(const Stmt* st, S s, std::vector<S>& next, int depth) {
    s.memo.erase(st);
    if (auto* d = dyn_cast<DeclStmt>(st)) {
      for (auto* x : d->decls()) {
        auto* v = dyn_cast<VarDecl>(x);
        if (!v || !v->hasLocalStorage()) continue;
        if (v->getType()->isReferenceType() || v->getType()->isPointerType()) {
          Place p;
          if (v->getInit() && Where(v->getInit(), p) && !p.second) alias_[v] = cast<VarDecl>(p.first);
          continue;
        }
        for (auto it = s.vars.begin(); it != s.vars.end();)
          if (it->first.first == v->getCanonicalDecl()) it = s.vars.erase(it);
          else ++it;
        if (Scalar(v->getType())) {
          if (v->getInit())
            if (Val k = Eval(v->getInit(), s); k != kTop) s.vars[{v->getCanonicalDecl(), nullptr}] = k;
        } else if (auto* r = Record(v->getType()); r && r->hasDefinition() && t_.Mine(r->getLocation())) {
          Fill(v, r, v->getInit(), s);
        }
      }
      next.push_back(s);
      return;
    }
    if (auto* u = dyn_cast<UnaryOperator>(st); u && u->isIncrementDecrementOp()) {
      Put(u->getSubExpr(), u->isIncrementOp() ? kOne : kTop, s);
    } else if (auto* b = dyn_cast<BinaryOperator>(st); b && b->isAssignmentOp()) {
      Val r = Eval(b->getRHS(), s), l = Get(b->getLHS(), s);
      auto op = b->getOpcode();
      const bool uns = b->getLHS()->getType()->isUnsignedIntegerType();
      Val v = op == BO_Assign ? r
              : op == BO_OrAssign ? (l == kOne || r == kOne ? kOne : l == kZero && r == kZero ? kZero : kTop)
              : op == BO_AddAssign ? (r == kZero ? l : l == kZero ? r : l == kOne && r == kOne && uns ? kOne : uns && r == kOne ? kOne : uns && l == kOne ? kOne : kTop)
                                   : kTop;
      Put(b->getLHS(), v, s);
    } else if (auto* c = dyn_cast<CallExpr>(st)) {
      Call(c, s, next, depth);
      return;
    }
    next.push_back(s);
  }
  void Call(const CallExpr* c, S s, std::vector<S>& next, int depth) {
    if (auto f = FlagName(c); !f.empty()) {
      if (!s.flags.count(f) && Tracked(f)) {
        S x = s;
        x.flags[f] = kOne;
        next.push_back(x);
        s.flags[f] = kZero;
      }
      next.push_back(s);
      return;
    }
    if (auto* o = dyn_cast<CXXOperatorCallExpr>(c); o && o->getOperator() == OO_LessLess) {
      auto* r = dyn_cast<DeclRefExpr>(ChainRoot(o));
      if (r && r->getDecl()->getQualifiedNameAsString() == "std::cerr") {
        auto ps = t_.ctx.getParents(*c);
        const Expr* p = ps.empty() ? nullptr : ps[0].get<Expr>();
        if (!(p && isa<CXXOperatorCallExpr>(p) && ChainRoot(p) == r) && !Warns(c)) s.Event(kReported, c);
      }
      next.push_back(s);
      return;
    }
    const FunctionDecl* f = c->getDirectCallee();
    const FunctionDecl* d = nullptr;
    const bool object = isa<CXXOperatorCallExpr>(c) && isa_and_nonnull<CXXMethodDecl>(f);
    auto* member = dyn_cast<CXXMemberCallExpr>(c);
    Place self;
    const bool known = member && Where(member->getImplicitObjectArgument(), self) && !self.second;
    if (auto* o = dyn_cast<CXXOperatorCallExpr>(c); o && o->getOperator() == OO_Equal && o->getNumArgs() == 2) {
      Put(o->getArg(0), kTop, s);
      const Expr* v = Strip(o->getArg(1));
      if (auto* k = dyn_cast<CXXConstructExpr>(v); k && k->getNumArgs() == 1) v = Strip(k->getArg(0));
      auto* r = Record(o->getArg(0)->getType());
      const bool fresh = isa<InitListExpr>(v) || (isa<CXXConstructExpr>(v) && !cast<CXXConstructExpr>(v)->getNumArgs());
      if (Place p; fresh && r && r->hasDefinition() && t_.Mine(r->getLocation()) && Where(o->getArg(0), p) && !p.second) Fill(cast<VarDecl>(p.first), r, v, s);
      next.push_back(s);
      return;
    }
    auto& sm = t_.ctx.getSourceManager();
    if (f && f->hasBody(d) && !d->isDependentContext() && sm.isInMainFile(sm.getExpansionLoc(d->getLocation())) && depth < 6 && !stack_.count(d) && !isa<CXXConstructorDecl>(d) &&
        (Scalar(d->getReturnType()) || d->getReturnType()->isVoidType())) {
      std::vector<std::pair<const VarDecl*, const VarDecl*>> saved;
      for (unsigned i = 0; i < d->getNumParams() && i + object < c->getNumArgs(); ++i) {
        auto* p = d->getParamDecl(i);
        const Expr* a = c->getArg(i + object);
        auto it = alias_.find(p);
        saved.push_back({p, it == alias_.end() ? nullptr : it->second});
        alias_.erase(p);
        Place q;
        if ((p->getType()->isReferenceType() || p->getType()->isPointerType()) && Where(a, q) && !q.second) {
          if (q.first != p) alias_[p] = cast<VarDecl>(q.first);
        } else {
          Val v = Scalar(p->getType().getNonReferenceType()) ? Eval(a, s) : kTop;
          if (v == kTop) s.vars.erase({p->getCanonicalDecl(), nullptr});
          else s.vars[{p->getCanonicalDecl(), nullptr}] = v;
        }
      }
      stack_.insert(d);
      auto before = this_;
      const bool lambda = isa<CXXMethodDecl>(d) && cast<CXXMethodDecl>(d)->getParent()->isLambda();
      if (isa<CXXMethodDecl>(d) && !lambda) this_ = known ? cast<VarDecl>(self.first) : nullptr;
      auto old = std::move(conds_);
      std::map<const VarDecl*, const VarDecl*> names;
      for (auto& [p, v] : saved)
        if (auto it = alias_.find(p); it != alias_.end()) names.insert(*it);
      if (this_) names.insert({nullptr, this_});
      S key = s;
      key.memo.clear();
      key.where.clear();
      auto [at, fresh] = known_.try_emplace({d, names, key});
      if (fresh) at->second = Function(d, key, depth + 1);
      auto res = at->second;
      for (auto& [v, x] : res) {
        x.memo = s.memo;
        x.where.insert(s.where.begin(), s.where.end());
      }
      conds_ = std::move(old);
      this_ = before;
      stack_.erase(d);
      for (auto& [p, v] : saved) {
        alias_.erase(p);
        if (v) alias_[p] = v;
      }
      std::set<S> once;
      for (auto& [v, x] : res) {
        S y = x;
        // What belongs to the callee alone is over.
        for (auto it = y.vars.begin(); it != y.vars.end();) {
          auto* vd = dyn_cast<VarDecl>(it->first.first);
          if (vd && vd->getDeclContext() == d) it = y.vars.erase(it);
          else ++it;
        }
        if (v == kTop) y.memo.erase(c);
        else y.memo[c] = v;
        if (once.insert(y).second) next.push_back(y);
      }
      return;
    }
    // Unknown: what it may write to is unknown afterwards.
    if (member && member->getMethodDecl() && !member->getMethodDecl()->isConst() && !member->getMethodDecl()->isStatic()) {
      std::string n = member->getMethodDecl()->getNameAsString();
      if (n != "value" && n != "begin" && n != "end" && n != "data" && n != "front" && n != "back" && n != "status") Put(member->getImplicitObjectArgument(), kTop, s);
    }
    for (unsigned i = 0; i < c->getNumArgs(); ++i) {
      const ParmVarDecl* p = f && i >= object && i - object < f->getNumParams() ? f->getParamDecl(i - object) : nullptr;
      if (p && p->getType()->isReferenceType() && p->getType().getNonReferenceType().isConstQualified()) continue;
      if (p && !p->getType()->isReferenceType() && !p->getType()->isPointerType()) continue;
      if (object && i == 0) continue;
      Put(c->getArg(i), kTop, s);
    }
    next.push_back(s);
  }
  Tu& t_;
  const unsigned only_;
  const bool coarse_;  // which events there are at all: without values
  std::map<const FunctionDecl*, std::unique_ptr<CFG>> cfgs_;
  std::map<const VarDecl*, const VarDecl*> alias_;
  std::set<const FunctionDecl*> stack_;
  const VarDecl* this_ = nullptr;
  std::unique_ptr<Conds> conds_;
  std::map<const FunctionDecl*, LiveSets> live_;
  std::map<std::tuple<const FunctionDecl*, std::map<const VarDecl*, const VarDecl*>, S>, std::vector<Result>> known_;
  long work_ = 0;
};
}  // namespace

void Exits(Tu& t, const std::vector<const FunctionDecl*>& all) {
  for (auto* f : all) {
    if (!f->isMain()) continue;
    auto go = [&](unsigned e, bool coarse) {
      Run r(t, e, coarse);
      S s;
      s.only = e;
      try {
        r.Function(f, s, 0);
      } catch (const TooMuch&) {
        t.out.facts["exits-undecided"].insert(t.Where(f->getLocation()));
      }
      return r.raised;
    };
    const unsigned raised = go(2 * kMalformed - 1, true);
    for (unsigned e = kReported; e <= kMalformed; e *= 2)
      if (raised & e) go(e, false);
  }
}
}  // namespace vast
