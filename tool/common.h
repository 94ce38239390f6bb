// Shared helpers for the libo analysers (LLVM 18, opaque pointers).
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/BasicAliasAnalysis.h"
#include "llvm/Analysis/MemorySSA.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

inline std::unique_ptr<Module> loadModule(const std::string &path, LLVMContext &C) {
  SMDiagnostic Err;
  auto M = parseIRFile(path, Err, C);
  if (!M) {
    Err.print("libo-sa", errs());
    exit(3);
  }
  return M;
}

inline void runPasses(Module &M, const std::string &pipeline) {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO;
  PTO.LoopVectorization = false;
  PTO.SLPVectorization = false;
  PTO.LoopUnrolling = false;
  PTO.LoopInterleaving = false;
  PTO.InlinerThreshold = 20000;
  PassBuilder PB(nullptr, PTO);
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto E = PB.parsePassPipeline(MPM, pipeline)) {
    errs() << "bad pipeline: " << toString(std::move(E)) << "\n";
    exit(3);
  }
  MPM.run(M, MAM);
}

inline std::string where(const Instruction *I) {
  // innermost source position, then the chain of inlined callers
  if (const DebugLoc &DL = I->getDebugLoc()) {
    std::string s;
    const DILocation *L = DL.get();
    s = (L->getFilename() + ":" + Twine(L->getLine())).str();
    return s;
  }
  return "?:0";
}

inline std::string fnWhere(const Function &F) {
  if (auto *SP = F.getSubprogram())
    return (SP->getFilename() + ":" + Twine(SP->getLine())).str();
  return "?:0";
}

int cmd_nf(int argc, char **argv);
int cmd_effects(int argc, char **argv);
int cmd_null(int argc, char **argv);
int cmd_own(int argc, char **argv);
int cmd_tables(int argc, char **argv);
int cmd_misc(int argc, char **argv);
