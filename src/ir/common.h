// Shared helpers of the IR analyses. Everything here reads LLVM IR; nothing executes it.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"

namespace vp {
using namespace llvm;

inline std::unique_ptr<Module> Load(LLVMContext& ctx, const std::string& path) {
  auto buf = MemoryBuffer::getFile(path);
  if (!buf) {
    errs() << "cannot read " << path << "\n";
    exit(3);
  }
  auto mod = parseBitcodeFile((*buf)->getMemBufferRef(), ctx);
  if (!mod) {
    errs() << "cannot parse " << path << ": " << toString(mod.takeError()) << "\n";
    exit(3);
  }
  return std::move(*mod);
}

inline std::string ShortPath(StringRef file) {
  size_t p = file.find("/mbo/");
  if (p != StringRef::npos) return file.substr(p + 1).str();
  if (file.starts_with("mbo/")) return file.str();
  return file.str();
}

// Innermost source location; `inlined` adds the chain of call sites.
inline std::string Loc(const DebugLoc& dl) {
  if (!dl) return "?";
  auto* di = dl.get();
  return ShortPath(di->getFilename()) + ":" + std::to_string(di->getLine());
}
inline std::string Loc(const Instruction& inst) { return Loc(inst.getDebugLoc()); }

inline std::string Demangled(StringRef name) { return demangle(name.str()); }
inline std::string FnName(const Function& f) {
  std::string d = Demangled(f.getName());
  size_t p = d.find('(');
  (void)p;
  return d;
}

inline bool RunPasses(Module& m, const std::string& pipeline) {
  LoopAnalysisManager lam;
  FunctionAnalysisManager fam;
  CGSCCAnalysisManager cgam;
  ModuleAnalysisManager mam;
  PassBuilder pb;
  pb.registerModuleAnalyses(mam);
  pb.registerCGSCCAnalyses(cgam);
  pb.registerFunctionAnalyses(fam);
  pb.registerLoopAnalyses(lam);
  pb.crossRegisterProxies(lam, fam, cgam, mam);
  ModulePassManager mpm;
  if (auto err = pb.parsePassPipeline(mpm, pipeline)) {
    errs() << "bad pipeline: " << toString(std::move(err)) << "\n";
    exit(3);
  }
  mpm.run(m, mam);
  return true;
}

// clang -O1 -disable-llvm-passes leaves attributes that would block inlining only for optnone; make every body
// inlinable and internal so that the analyses see one self-contained function per entry.
inline void ForceInline(Module& m, const std::function<bool(const Function&)>& is_entry,
                        const std::function<bool(const Function&)>& keep = nullptr) {
  for (Function& f : m) {
    if (f.isDeclaration()) continue;
    f.removeFnAttr(Attribute::OptimizeNone);
    f.removeFnAttr(Attribute::NoInline);
    f.removeFnAttr(Attribute::OptimizeForSize);
    f.removeFnAttr(Attribute::MinSize);
    f.setComdat(nullptr);
    for (BasicBlock& b : f)
      if (Instruction* t = b.getTerminator()) t->setMetadata(LLVMContext::MD_loop, nullptr);  // e.g. unroll.disable at -O1
    if (is_entry(f)) continue;
    if (keep && keep(f)) {
      f.removeFnAttr(Attribute::AlwaysInline);
      f.addFnAttr(Attribute::NoInline);
      continue;
    }
    f.setLinkage(GlobalValue::InternalLinkage);
    if (!f.hasFnAttribute(Attribute::AlwaysInline)) f.addFnAttr(Attribute::AlwaysInline);
  }
}

struct Report {
  json::Array violations, undecided;
  json::Object stats;
  json::Array items;
  void Viol(json::Object o) { violations.push_back(std::move(o)); }
  void Undec(json::Object o) { undecided.push_back(std::move(o)); }
  void Print() {
    json::Object o;
    o["violations"] = std::move(violations);
    o["undecided"] = std::move(undecided);
    o["stats"] = std::move(stats);
    o["items"] = std::move(items);
    outs() << formatv("{0:2}", json::Value(std::move(o))) << "\n";
  }
};
}  // namespace vp
