// Partitioning of the traces: from a call of vf_split(v, n) to the end of the
// iteration of the loop around it, each value of v below n gets a copy of the code.
#include "vf.h"
#include "instr.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
namespace vf {
static CallInst *findSplit(Function &F) {
  for (auto &BB : F)
    for (auto &I : BB)
      if (auto *CI = dyn_cast<CallInst>(&I))
        if (auto *T = calledFn(CI))
          if (T->getName() == "vf_split")
            return CI;
  return nullptr;
}
bool splitCases(Function &F) {
  bool any = false;
  int guard = 0;
  while (auto *CI = findSplit(F)) {
    auto *n = dyn_cast<ConstantInt>(CI->getArgOperand(1));
    if (!n || n->getZExtValue() > 64 || ++guard > 40 || F.getInstructionCount() > 60000) {
      CI->eraseFromParent();
      continue;
    }
    if (!any)
      runPasses(F, "reg2mem");
    any = true;
    auto *pre = CI->getParent();
    auto *V = CI->getArgOperand(0);
    auto *post = pre->splitBasicBlock(CI->getNextNode(), "split");
    CI->eraseFromParent();
    // what crosses the cut goes through memory
    std::vector<Instruction *> cross;
    for (auto &I : *pre)
      if (!I.isTerminator() && !isa<AllocaInst>(I))
        for (auto *U : I.users())
          if (cast<Instruction>(U)->getParent() != pre) {
            cross.push_back(&I);
            break;
          }
    for (auto *I : cross)
      DemoteRegToStack(*I, false, &*F.getEntryBlock().getFirstInsertionPt());
    DominatorTree DT(F);
    LoopInfo LI(DT);
    Loop *L = LI.getLoopFor(pre);
    // they all go back to the head of the loop through one block
    BasicBlock *back = nullptr;
    if (L) {
      back = BasicBlock::Create(F.getContext(), "back", &F);
      std::vector<BasicBlock *> ls;
      for (auto *P : predecessors(L->getHeader()))
        if (L->contains(P))
          ls.push_back(P);
      for (auto *P : ls)
        P->getTerminator()->replaceSuccessorWith(L->getHeader(), back);
      BranchInst::Create(L->getHeader(), back);
    }
    std::vector<BasicBlock *> region{post};
    std::set<BasicBlock *> in{post};
    for (size_t i = 0; i < region.size(); ++i)
      for (auto *S : successors(region[i]))
        if ((!L || (L->contains(S) && S != L->getHeader() && S != back)) && in.insert(S).second)
          region.push_back(S);
    std::vector<BasicBlock *> heads;
    for (uint64_t k = 0; k < n->getZExtValue(); ++k) {
      ValueToValueMapTy VM;
      std::vector<BasicBlock *> copies;
      for (auto *B : region) {
        auto *N = CloneBasicBlock(B, VM, "." + std::to_string(k), &F);
        VM[B] = N;
        copies.push_back(N);
      }
      remapInstructionsInBlocks(copies, VM);
      heads.push_back(copies[0]);
    }
    auto *T = pre->getTerminator();
    auto *SW = SwitchInst::Create(V, post, heads.size(), T);
    for (size_t k = 0; k < heads.size(); ++k)
      SW->addCase(cast<ConstantInt>(ConstantInt::get(V->getType(), k)), heads[k]);
    SW->setDebugLoc(T->getDebugLoc());
    T->eraseFromParent();
  }
  return any;
}
} // namespace vf
