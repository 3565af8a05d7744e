// vpast ROOT [flags...] -- FILE...: syntax-tree and control-flow rules over the repository's sources.
#include <fstream>

#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "common.h"
#include "llvm/Support/raw_ostream.h"

namespace vast {
class Functions : public RecursiveASTVisitor<Functions> {
 public:
  explicit Functions(Tu& t) : t_(t) {}
  std::vector<const FunctionDecl*> all;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() || !f->getBody() || !t_.Mine(f->getLocation())) return true;
    t_.Seen("functions", f->getLocation());
    Status(t_, f);
    all.push_back(f);
    return true;
  }

 private:
  Tu& t_;
};

class Consumer : public ASTConsumer {
 public:
  Consumer(Out& o, std::string root) : out_(o), root_(std::move(root)) {}
  void HandleTranslationUnit(ASTContext& c) override {
    Tu t{c, out_, root_};
    Functions v(t);
    v.TraverseDecl(c.getTranslationUnitDecl());
    Access(t, v.all);
    Streams(t, v.all);
    Decls(t, v.all);
    Exits(t, v.all);
  }

 private:
  Out& out_;
  std::string root_;
};

class Action : public ASTFrontendAction {
 public:
  Action(Out& o, std::string r) : out_(o), root_(std::move(r)) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(out_, root_); }

 private:
  Out& out_;
  std::string root_;
};

class Factory : public tooling::FrontendActionFactory {
 public:
  Factory(Out& o, std::string r) : out_(o), root_(std::move(r)) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(out_, root_); }

 private:
  Out& out_;
  std::string root_;
};
}  // namespace vast

int main(int argc, char** argv) {
  std::string root = argv[1];
  std::vector<std::string> flags, files;
  bool rest = false;
  for (int i = 2; i < argc; ++i) {
    if (std::string(argv[i]) == "--") { rest = true; continue; }
    (rest ? files : flags).push_back(argv[i]);
  }
  clang::tooling::FixedCompilationDatabase db(root, flags);
  clang::tooling::ClangTool tool(db, files);
  tool.setPrintErrorMessage(false);
  vast::Out out;
  vast::Factory f(out, root);
  int rc = tool.run(&f);
  using namespace llvm;
  json::Array items;
  for (auto& x : out.findings)
    items.push_back(json::Object{{"rule", x.rule}, {"where", x.where}, {"function", x.function}, {"what", x.what}, {"key", x.key}});
  json::Object seen, facts;
  for (auto& [k, v] : out.seen) {
    json::Array a;
    for (auto& s : v) a.push_back(s);
    seen[k] = std::move(a);
  }
  for (auto& [k, v] : out.facts) {
    json::Array a;
    for (auto& s : v) a.push_back(s);
    facts[k] = std::move(a);
  }
  outs() << json::Value(json::Object{{"rc", rc}, {"findings", std::move(items)}, {"seen", std::move(seen)}, {"facts", std::move(facts)}}) << "\n";
  return 0;
}
