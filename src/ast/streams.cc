// Streams: a read that ends is told apart from a read that failed, and what was written is known to have arrived.
#include "common.h"

namespace vast {
namespace {
bool Derives(const CXXRecordDecl* r, llvm::StringRef base) {
  if (!r || !r->getDefinition()) return false;
  r = r->getDefinition();
  if (r->getQualifiedNameAsString() == base) return true;
  for (auto& b : r->bases())
    if (Derives(b.getType()->getAsCXXRecordDecl(), base)) return true;
  return false;
}
bool In(QualType t) { return Derives(Record(t), "std::basic_istream"); }
bool OutFile(QualType t) { return Derives(Record(t), "std::basic_ofstream") || Derives(Record(t), "std::basic_fstream"); }
bool CFile(QualType t) {
  if (t.isNull()) return false;
  t = t.getNonReferenceType().getCanonicalType();
  if (t->isPointerType()) {
    auto* r = t->getPointeeType()->getAsCXXRecordDecl();
    return r && (r->getName() == "_IO_FILE" || r->getName() == "FILE");
  }
  auto* s = dyn_cast_or_null<ClassTemplateSpecializationDecl>(Record(t));
  return s && s->getQualifiedNameAsString() == "std::unique_ptr" && s->getTemplateArgs().size() && s->getTemplateArgs()[0].getKind() == TemplateArgument::Type &&
         CFile(t->getAs<RecordType>() ? s->getASTContext().getPointerType(s->getTemplateArgs()[0].getAsType()) : QualType());
}
// May this returned expression stand for a failure only?
bool Failure(const Expr* e) {
  if (!e) return false;
  e = Strip(e);
  if (auto* c = dyn_cast<CXXConstructExpr>(e); c && c->getNumArgs() >= 1) return Failure(c->getArg(0));
  if (auto* c = dyn_cast<CXXFunctionalCastExpr>(e)) return Failure(c->getSubExpr());
  if (auto* r = Record(e->getType()); r && r->getNameAsString() == "nullopt_t") return true;
  if (auto* b = dyn_cast<CXXBoolLiteralExpr>(e)) return !b->getValue();
  if (auto* i = dyn_cast<IntegerLiteral>(e)) return i->getValue() != 0;
  if (auto* r = dyn_cast<DeclRefExpr>(e))
    if (auto* v = dyn_cast<VarDecl>(r->getDecl()); v && (v->isConstexpr() || (v->getType().isConstQualified() && v->getInit())) && v->getInit() && !v->getInit()->isValueDependent()) return Failure(v->getInit());
  if (auto* u = dyn_cast<UnaryOperator>(e); u && u->getOpcode() == UO_Minus) return true;
  if (isa<CXXNullPtrLiteralExpr>(e)) return true;
  if (auto* c = dyn_cast<CallExpr>(e))
    if (auto* f = c->getDirectCallee()) {
      std::string n = f->getNameAsString();
      return n == "status" || (IsStatus(c->getType()) && n.size() > 5 && n.substr(n.size() - 5) == "Error");
    }
  return false;
}

enum : unsigned { kEnded = 1, kWritten = 2, kClosed = 4 };
using State = std::map<const VarDecl*, std::pair<unsigned, const Stmt*>>;
// What a call does to a stream it is given: bits it leaves on an untouched stream, bits each given bit turns into.
struct Effect {
  unsigned fresh = 0, ended = kEnded, written = kWritten, closed = kClosed;
  bool tells = false;
  unsigned On(unsigned old) const { return fresh | (old & kEnded ? ended : 0) | (old & kWritten ? written : 0) | (old & kClosed ? closed : 0); }
};

class Flow {
 public:
  using Open = std::map<const FunctionDecl*, std::map<unsigned, Effect>>;
  Flow(Tu& t, const FunctionDecl* f, const Open& open) : t_(t), f_(f), conds_(f), open_(open) {}
  std::map<unsigned, unsigned> left;  // parameters left with an unexplained end, or written
  bool tells = true;                  // a true result says that nothing is left unexplained
  void Run(bool report, const VarDecl* given = nullptr, unsigned bits = 0) {
    report_ = report;
    CFG::BuildOptions o;
    o.setAllAlwaysAdd();
    auto cfg = CFG::buildCFG(f_, f_->getBody(), &t_.ctx, o);
    if (!cfg) return;
    std::map<const CFGBlock*, State> in;
    std::vector<const CFGBlock*> todo{&cfg->getEntry()};
    in[&cfg->getEntry()] = {};
    if (given) in[&cfg->getEntry()][given] = {bits, f_->getBody()};
    while (todo.size()) {
      auto* b = todo.back();
      todo.pop_back();
      bool fail = false;
      State s = Block(b, in[b], fail);
      if (fail) continue;
      unsigned k = 0;
      const bool two = b->succ_size() == 2 && b->getTerminatorCondition() && !isa_and_nonnull<SwitchStmt>(b->getTerminatorStmt());
      for (auto& succ : b->succs()) {
        const unsigned edge = k++;
        const CFGBlock* n = succ.getReachableBlock();
        if (!n) continue;
        State x = s;
        conds_.Fresh();
        if (two) Learn(cast<Expr>(b->getTerminatorCondition()), edge == 0, x);
        auto [it, fresh] = in.emplace(n, x);
        bool grow = fresh;
        if (!fresh)
          for (auto& [v, e] : x) {
            auto [j, isnew] = it->second.emplace(v, e);
            if (isnew) grow = true;
            else if (e.first & ~j->second.first) j->second.first |= e.first, grow = true;
          }
        if (grow) todo.push_back(n);
      }
    }
    auto it = in.find(&cfg->getExit());
    if (it == in.end()) return;
    for (auto& [v, e] : it->second) {
      if (gone_.count(v)) continue;
      if (auto* p = dyn_cast<ParmVarDecl>(v)) {
        left[p->getFunctionScopeIndex()] |= e.first;
        continue;
      }
      if (e.first & kEnded) {
        if (report_)
          t_.Report("read-end", e.second->getBeginLoc(), f_, "the end of '" + v->getNameAsString() + "' is taken for the end of the data: no test for a failed read", v->getNameAsString());
      }
      if ((e.first & (kWritten | kClosed)) && report_)
        t_.Report("write-lost", e.second->getBeginLoc(), f_, "success is reported without a test that what was written to '" + v->getNameAsString() + "' arrived", v->getNameAsString());
    }
  }

 private:
  // Output that has to arrive: an owned file, or what a caller handed over (it decides).
  static bool Out(const VarDecl* v) { return OutFile(v->getType()) || (isa<ParmVarDecl>(v) && v->getType()->isReferenceType() && Derives(Record(v->getType()), "std::basic_ostream")); }
  const VarDecl* Var(const Expr* e) {
    e = Strip(e);
    if (auto* m = dyn_cast<CXXMemberCallExpr>(e)) {
      if (auto* d = m->getMethodDecl(); d && d->getIdentifier() && (d->getName() == "get" || d->getName() == "rdbuf") && m->getNumArgs() == 0 && CFile(m->getImplicitObjectArgument()->getType())) return Var(m->getImplicitObjectArgument());
      if (auto* d = m->getMethodDecl(); d && d->getIdentifier() && (In(m->getType()) || OutFile(m->getType()) || Derives(Record(m->getType()), "std::basic_ostream"))) return Var(m->getImplicitObjectArgument());
    }
    if (auto* c = dyn_cast<CXXOperatorCallExpr>(e); c && c->getNumArgs() == 2 && (c->getOperator() == OO_LessLess || c->getOperator() == OO_GreaterGreater)) return Var(c->getArg(0));
    if (auto* c = dyn_cast<CallExpr>(e); c && c->getDirectCallee() && c->getNumArgs() && c->getDirectCallee()->getIdentifier() && c->getDirectCallee()->getName() == "getline") return Var(c->getArg(0));
    e = conds_.Arg(e);
    auto* r = dyn_cast<DeclRefExpr>(e);
    auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr;
    if (!v || v->getType()->isDependentType()) return nullptr;
    if (v->hasLocalStorage() && !isa<ParmVarDecl>(v) && v->getType()->isReferenceType() && v->getInit() && ++deep_ < 16) {
      auto* w = Var(v->getInit());
      --deep_;
      if (w) return w;
    }
    return In(v->getType()) || Out(v) || CFile(v->getType()) ? v->getCanonicalDecl() : nullptr;
  }
  // A condition that shows the last operation on a stream to have worked.
  void Learn(const Expr* e, bool truth, State& s) {
    e = Strip(e);
    if (auto* u = dyn_cast<UnaryOperator>(e); u && u->getOpcode() == UO_LNot) return Learn(u->getSubExpr(), !truth, s);
    if (bool t = truth; const Expr* x = conds_.Simpler(e, t)) return Learn(x, t, s);
    if (auto* b = dyn_cast<BinaryOperator>(e)) {
      if (b->getOpcode() == BO_LAnd && truth) Learn(b->getLHS(), true, s), Learn(b->getRHS(), true, s);
      if (b->getOpcode() == BO_LOr && !truth) Learn(b->getLHS(), false, s), Learn(b->getRHS(), false, s);
      if (b->getOpcode() == BO_EQ || b->getOpcode() == BO_NE)
        for (auto* x : {b->getLHS(), b->getRHS()})
          if (auto* v = Byte(x); v && (b->getOpcode() == BO_EQ) != truth) Clear(s, v, kEnded);
      return;
    }
    if (auto* o = dyn_cast<CXXOperatorCallExpr>(e); o && o->getOperator() == OO_Exclaim) {
      if (auto* v = Var(o->getArg(0)); v && !truth) Clear(s, v, kEnded);
      return;
    }
    if (auto* c = dyn_cast<CallExpr>(e); c && truth && !isa<CXXMemberCallExpr>(c) && c->getDirectCallee())
      for (unsigned i = 0; i < c->getNumArgs(); ++i)
        if (auto* v = Var(c->getArg(i))) {
          bool known;
          if (Leaves(c, i, known).tells && known) Clear(s, v, kEnded);
        }
    if (auto* m = dyn_cast<CXXMemberCallExpr>(e); m && m->getMethodDecl()) {
      auto* v = Var(m->getImplicitObjectArgument());
      if (!v) return;
      if (isa<CXXConversionDecl>(m->getMethodDecl()) && truth) Clear(s, v, kEnded);
      auto n = m->getMethodDecl()->getIdentifier() ? m->getMethodDecl()->getName() : "";
      if ((n == "good" && truth) || (n == "fail" && !truth)) Clear(s, v, kEnded);
    }
  }
  // The stream a character or count was read from.
  const VarDecl* Byte(const Expr* e) {
    e = Strip(e);
    if (auto* b = dyn_cast<BinaryOperator>(e); b && b->getOpcode() == BO_Assign) return Byte(b->getRHS());
    if (auto* c = dyn_cast<CallExpr>(e)) return CRead(c);
    if (auto* r = dyn_cast<DeclRefExpr>(e))
      if (auto it = byte_.find(dyn_cast<VarDecl>(r->getDecl())); it != byte_.end()) return it->second;
    return nullptr;
  }
  const VarDecl* CRead(const CallExpr* c) {
    auto* f = c->getDirectCallee();
    if (!f || !f->getIdentifier()) return nullptr;
    auto n = f->getName();
    if (n != "fgetc" && n != "getc" && n != "fread" && n != "fgets" && n != "fscanf") return nullptr;
    for (auto* a : c->arguments())
      if (CFile(a->getType()))
        if (auto* v = Var(a)) return v;
    return nullptr;
  }
  void Clear(State& s, const VarDecl* v, unsigned bits) {
    auto it = s.find(v);
    if (it == s.end()) return;
    it->second.first &= ~bits;
    if (!it->second.first) s.erase(it);
  }
  void Set(State& s, const VarDecl* v, unsigned bits, const Stmt* at) {
    auto& e = s[v];
    e.first |= bits;
    e.second = at;
    if (report_) t_.Seen("stream", at->getBeginLoc());
  }
  // What the callee does to the stream given as argument i.  Known callees only.
  Effect Leaves(const CallExpr* c, unsigned i, bool& known) {
    auto at = [&](const std::map<unsigned, Effect>& m, unsigned i) { auto j = m.find(i); return j == m.end() ? Effect() : j->second; };
    if (auto* f = c->getDirectCallee()) {
      auto it = open_.find(f->getCanonicalDecl());
      known = it != open_.end();
      if (isa<CXXOperatorCallExpr>(c) && isa<CXXMethodDecl>(f)) {
        if (i == 0) return Effect();
        --i;
      }
      return known ? at(it->second, i) : Effect();
    }
    QualType t = c->getCallee()->getType().getCanonicalType();
    if (t->isPointerType()) t = t->getPointeeType();
    known = false;
    Effect any;
    any.ended = any.written = any.closed = 0;
    for (auto& [f, ps] : open_)
      if (t_.ctx.hasSameUnqualifiedType(f->getType().getCanonicalType(), t)) {
        Effect e = at(ps, i);
        known = true, any.fresh |= e.fresh, any.ended |= e.ended, any.written |= e.written, any.closed |= e.closed;
      }
    return any;
  }
  State Block(const CFGBlock* b, State s, bool& fail) {
    for (auto& el : *b) {
      auto cs = el.getAs<CFGStmt>();
      if (!cs) continue;
      const Stmt* st = cs->getStmt();
      if (auto* r = dyn_cast<ReturnStmt>(st)) {
        if (Failure(r->getRetValue())) fail = true;
        else if (r->getRetValue() && r->getRetValue()->getType()->isBooleanType()) {
          State x = s;
          conds_.Fresh();
          Learn(r->getRetValue(), true, x);
          for (auto& [v, e] : x)
            if (isa<ParmVarDecl>(v) && (e.first & kEnded)) tells = false;
        } else {
          tells = false;
        }
        continue;
      }
      if (isa<CXXThrowExpr>(st)) fail = true;
      if (auto* d = dyn_cast<DeclStmt>(st)) {
        for (auto* x : d->decls())
          if (auto* v = dyn_cast<VarDecl>(x)) {
            s.erase(v);
            if (auto* c = v->getInit() ? dyn_cast<CallExpr>(Strip(v->getInit())) : nullptr)
              if (auto* w = CRead(c)) byte_[v] = w;
          }
        continue;
      }
      if (auto* a = dyn_cast<BinaryOperator>(st); a && a->getOpcode() == BO_Assign) {
        auto* c = dyn_cast<CallExpr>(Strip(a->getRHS()));
        auto* r = dyn_cast<DeclRefExpr>(Strip(a->getLHS()));
        if (auto* w = c ? CRead(c) : nullptr)
          if (auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr) byte_[v] = w;
      }
      if (auto* l = dyn_cast<LambdaExpr>(st)) {
        for (auto& c : l->captures())
          if (c.capturesVariable())
            if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar())) gone_.insert(v->getCanonicalDecl());
        continue;
      }
      if (auto* u = dyn_cast<UnaryOperator>(st); u && u->getOpcode() == UO_AddrOf) {
        if (auto* v = Var(u->getSubExpr())) gone_.insert(v);
        continue;
      }
      auto* c = dyn_cast<CallExpr>(st);
      if (!c) continue;
      if (auto* v = CRead(c)) { Set(s, v, kEnded, c); continue; }
      if (auto* m = dyn_cast<CXXMemberCallExpr>(c)) {
        if (auto* v = Var(m->getImplicitObjectArgument())) {
          auto* d = m->getMethodDecl();
          auto n = d && d->getIdentifier() ? d->getName() : "";
          if (isa_and_nonnull<CXXConversionDecl>(d) || n == "good" || n == "fail" || n == "bad" || n == "rdstate") Clear(s, v, kClosed);
          if (n == "bad" || n == "eof" || n == "rdstate") Clear(s, v, kEnded);
          if (In(v->getType())) if (n == "read" || n == "get" || n == "getline" || n == "readsome" || n == "peek") Set(s, v, kEnded, m);
          if (n == "write" || n == "put") Set(s, v, kWritten, m);
          if (n == "flush" || n == "close")
            if (auto it = s.find(v); it != s.end() && (it->second.first & kWritten)) it->second.first = (it->second.first & ~kWritten) | kClosed;
          if (n == "clear" || n == "open") Clear(s, v, kEnded);
          if (n == "rdbuf" || n == "exceptions") if (n == "rdbuf" || m->getNumArgs()) {
            // Exceptions switched off are no news; switched on they report by themselves.
            Expr::EvalResult z;
            if (n == "rdbuf" || !m->getArg(0)->EvaluateAsInt(z, t_.ctx) || z.Val.getInt() != 0) gone_.insert(v);
          }
          continue;
        }
      }
      if (auto* o = dyn_cast<CXXOperatorCallExpr>(c)) {
        if (o->getNumArgs() == 2 && o->getOperator() == OO_GreaterGreater)
          if (auto* v = Var(o->getArg(0)); v && In(v->getType())) { Set(s, v, kEnded, o); continue; }
        if (o->getNumArgs() == 2 && o->getOperator() == OO_LessLess)
          if (auto* v = Var(o->getArg(0)); v && Out(v)) { Set(s, v, kWritten, o); continue; }
        if (o->getOperator() == OO_Exclaim)
          if (auto* v = Var(o->getArg(0))) { Clear(s, v, kClosed); continue; }
      }
      auto* f = c->getDirectCallee();
      const std::string n = f && f->getIdentifier() ? f->getName().str() : "";
      for (unsigned i = 0; i < c->getNumArgs(); ++i) {
        auto* v = Var(c->getArg(i));
        if (!v || !(In(c->getArg(i)->getType()) || OutFile(c->getArg(i)->getType()) || CFile(c->getArg(i)->getType()) || Derives(Record(c->getArg(i)->getType()), "std::basic_ostream"))) continue;
        if (n == "getline" && i == 0) { Set(s, v, kEnded, c); continue; }
        if (n == "ferror" || n == "feof") { Clear(s, v, kEnded); continue; }
        if (n == "fclose") continue;
        bool known;
        const Effect leaves = Leaves(c, i, known);
        if (report_) t_.Seen("stream", c->getBeginLoc());
        if (!known) {
          if (Out(v) && !In(v->getType())) Set(s, v, kWritten, c);
          else gone_.insert(v);
        } else {
          auto it = s.find(v);
          const unsigned old = it == s.end() ? 0 : it->second.first, now = leaves.On(old);
          if (now & ~old) Set(s, v, now, c);
          Clear(s, v, old & ~now);
        }
      }
    }
    return s;
  }
  Tu& t_;
  const FunctionDecl* f_;
  Conds conds_;
  const Open& open_;
  int deep_ = 0;
  std::map<const VarDecl*, const VarDecl*> byte_;
  std::set<const VarDecl*> gone_;
  bool report_ = false;
};
}  // namespace

void Streams(Tu& t, const std::vector<const FunctionDecl*>& all) {
  Flow::Open open;
  std::vector<const FunctionDecl*> mine;
  for (auto* f : all) {
    if (f->isDependentContext()) continue;
    mine.push_back(f);
    for (auto* p : f->parameters())
      if (p->getType()->isReferenceType() && (In(p->getType()) || OutFile(p->getType()) || Derives(Record(p->getType()), "std::basic_ostream"))) open[f->getCanonicalDecl()];
  }
  // Effects by iteration from "nothing is changed".
  for (int round = 0, grow = 1; grow && round < 12; ++round) {
    grow = 0;
    for (auto* f : mine) {
      auto it = open.find(f->getCanonicalDecl());
      if (it == open.end()) continue;
      for (auto* p : f->parameters()) {
        if (!p->getType()->isReferenceType() || !(In(p->getType()) || Derives(Record(p->getType()), "std::basic_ostream"))) continue;
        const unsigned i = p->getFunctionScopeIndex();
        Effect e;
        auto go = [&](unsigned bits) {
          Flow x(t, f, open);
          x.Run(false, bits ? p->getCanonicalDecl() : nullptr, bits);
          if (!bits) e.tells = x.tells && f->getReturnType()->isBooleanType();
          return x.left.count(i) ? x.left[i] : 0u;
        };
        e.fresh = go(0), e.ended = go(kEnded), e.written = go(kWritten), e.closed = go(kClosed);
        auto& old = it->second[i];
        if (old.fresh != e.fresh || old.ended != e.ended || old.written != e.written || old.closed != e.closed || old.tells != e.tells) old = e, grow = 1;
      }
    }
  }
  std::set<const FunctionDecl*> called;
  for (auto* f : mine) Flow(t, f, open).Run(true);
}
}  // namespace vast
