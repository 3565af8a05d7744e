#include "absint.h"
#include <unistd.h>
namespace vp {
int Effects(const std::string&);
int Pure(const std::string&, const std::vector<std::string>&);
int Dual(const std::vector<std::string>&);
int Stream(const std::vector<std::string>&);
int Cells(const std::vector<std::string>&);
int HashFn(const std::vector<std::string>&);
}
static int Run(int argc, char** argv) {
  std::vector<std::string> a(argv + 1, argv + argc);
  const char* opts[] = {"vpir", "-unroll-threshold=400000", "-unroll-max-percent-threshold-boost=100", "-unroll-full-max-count=2000",
                        "-unroll-max-iteration-count-to-analyze=200", "-unroll-max-upperbound=0"};
  llvm::cl::ParseCommandLineOptions(sizeof(opts) / sizeof(*opts), opts);
  if (a.size() >= 2 && a[0] == "effects") return vp::Effects(a[1]);
  if (a.size() >= 3 && a[0] == "pure") return vp::Pure(a[1], {a.begin() + 2, a.end()});
  if (a.size() >= 4 && a[0] == "dual") return vp::Dual({a.begin() + 1, a.end()});
  if (a.size() >= 3 && a[0] == "hashfn") return vp::HashFn({a.begin() + 1, a.end()});
  if (a.size() >= 2 && a[0] == "cells") return vp::Cells({a.begin() + 1, a.end()});
  if (a.size() >= 5 && a[0] == "stream") return vp::Stream({a.begin() + 1, a.end()});
  if (a.size() >= 3 && a[0] == "prepare") {
    llvm::LLVMContext ctx;
    auto m = vp::Load(ctx, a[1]);
    auto p = vp::PrepareEntries(*m, {a.begin() + 2, a.end()});
    for (auto& [n, k] : p.kernels) {
      llvm::outs() << "; kernel " << k.name << " weight " << k.weight << "\n";
      for (auto& r : k.reads) llvm::outs() << ";  reads arg" << r.arg << "+" << r.off << ".." << r.size << "\n";
      for (auto& r : k.writes) llvm::outs() << ";  writes arg" << r.arg << "+" << r.off << ".." << r.size << "\n";
    }
    llvm::StripDebugInfo(*p.m);
    for (auto it = a.begin() + 2; it != a.end(); ++it) p.m->getFunction(*it)->print(llvm::outs());
    return 0;
  }
  llvm::errs() << "usage\n";
  return 3;
}
int main(int argc, char** argv) {
  const int rc = Run(argc, argv);
  llvm::outs().flush();
  llvm::errs().flush();
  _exit(rc);  // cached modules outlive their contexts: skip destructors.
}
