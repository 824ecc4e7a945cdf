#pragma once
#include "llvm/IR/BasicBlock.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vf {
using namespace llvm;

struct Names {
  std::string ctx;  // declaration context, template arguments removed
  std::string base; // base name
  std::string full; // complete demangled name
  bool isStd = false;
};
const Names &names(const Function *F);
bool starts(const std::string &s, const char *p);
bool isVF(const Value *callee, const char *name);
Function *calledFn(const CallBase *CB);

struct NormOptions {
  unsigned peel = 0; // iterations of the outer loops to tell apart (same)
  bool early = false; // unroll and peel before the calls through pointers are resolved (same)
  bool vectors = false;  // vectors are built and resized by their own code (same)
  bool freshNew = false; // allocations do not touch what the program sees (same)
  std::set<std::string> keep; // functions (by full prefix or base) not inlined: kept as events
  bool nothrowAlloc = false;
  bool dropUnwind = false; // ignore the exceptions raised by opaque calls
  bool keepLogs = false;
  bool same = false;  // equal calls are equal values
  bool blank = false; // no text has a blank
  unsigned maxInsts = 400000;
};
struct NormStats {
  unsigned inlined = 0, opaque = 0, stripped = 0, devirt = 0, promoted = 0, unresolved = 0;
  std::set<std::string> opaqueNames, functions;
  std::set<std::string> unresolvedAt;
};
// Normalises entry in place: everything reachable is inlined, exceptions are
// explicit control flow and the library calls are havocs of what they are given.
void normalise(Module &M, Function &Entry, const NormOptions &O, NormStats &S);
void runPasses(Function &F, const char *pipeline);
void runModulePasses(Module &M, const char *pipeline);

std::string locOf(const Instruction *I, const std::string &root = "/repo");
std::string chainOf(const Instruction *I); // the calls it was inlined through

FunctionCallee vfFn(Module &M, const std::string &name, Type *ret, ArrayRef<Type *> args);

} // namespace vf
