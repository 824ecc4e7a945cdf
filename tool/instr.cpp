// Fat pointers: every access of the normalised function gets an obligation
// vf_check(offset, length, size of the object).
#include "instr.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"

namespace vf {

struct Instrument {
  Function &F;
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I64, *Void, *Ptr;
  InstrInfo &R;
  std::map<Value *, Meta> metas;
  std::map<Value *, Value *> regionSize; // nondet pointer -> size
  std::map<Value *, std::set<Value *>> rootsOf;

  Instrument(Function &f, InstrInfo &r) : F(f), M(*f.getParent()), C(f.getContext()), DL(M.getDataLayout()), R(r) {
    I64 = Type::getInt64Ty(C);
    Void = Type::getVoidTy(C);
    Ptr = PointerType::getUnqual(C);
  }
  Constant *k(uint64_t v) { return ConstantInt::get(I64, v); }

  void findRoots(Value *V, std::set<Value *> &out, std::set<Value *> &seen) {
    if (!seen.insert(V).second)
      return;
    if (auto *G = dyn_cast<GEPOperator>(V))
      return findRoots(G->getPointerOperand(), out, seen);
    if (auto *P = dyn_cast<PHINode>(V)) {
      for (auto &U : P->incoming_values())
        findRoots(U.get(), out, seen);
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(V)) {
      findRoots(S->getTrueValue(), out, seen);
      findRoots(S->getFalseValue(), out, seen);
      return;
    }
    if (auto *Fz = dyn_cast<FreezeInst>(V))
      return findRoots(Fz->getOperand(0), out, seen);
    if (isa<UndefValue>(V))
      return;
    out.insert(V);
  }
  const std::set<Value *> &roots(Value *V) {
    auto it = rootsOf.find(V);
    if (it != rootsOf.end())
      return it->second;
    std::set<Value *> seen;
    auto &s = rootsOf[V];
    findRoots(V, s, seen);
    return s;
  }
  // size of the object at the root of a chain
  Value *rootSize(Value *V, bool &known) {
    known = true;
    auto it = regionSize.find(V);
    if (it != regionSize.end())
      return it->second;
    if (auto *A = dyn_cast<AllocaInst>(V)) {
      if (A->isStaticAlloca())
        return k(DL.getTypeAllocSize(A->getAllocatedType()) * cast<ConstantInt>(A->getArraySize())->getZExtValue());
    }
    if (auto *G = dyn_cast<GlobalVariable>(V))
      return k(DL.getTypeAllocSize(G->getValueType()));
    if (auto *CB = dyn_cast<CallBase>(V))
      if (auto *T = calledFn(CB))
        if (starts(names(T).base, "operator new") && CB->arg_size() >= 1)
          return CB->getArgOperand(0);
    if (isa<ConstantPointerNull>(V))
      return k(0);
    known = false;
    return k(0);
  }

  std::map<Value *, Value *> nnOf;
  Value *rootNN(Value *V) {
    if (isa<ConstantPointerNull>(V))
      return k(0);
    if (isa<AllocaInst>(V) || isa<GlobalValue>(V) || regionSize.count(V))
      return k(1);
    if (auto *CB = dyn_cast<CallBase>(V))
      if (auto *T = calledFn(CB))
        if (starts(names(T).base, "operator new"))
          return k(1);
    Value *&r = nnOf[V];
    if (r)
      return r;
    if (auto *I = dyn_cast<Instruction>(V)) {
      BasicBlock::iterator at = I->isTerminator() ? BasicBlock::iterator() : std::next(I->getIterator());
      if (isa<PHINode>(I))
        at = I->getParent()->getFirstInsertionPt();
      IRBuilder<> B(I->getParent(), at);
      auto *C2 = B.CreateICmpNE(V, ConstantPointerNull::get(PointerType::getUnqual(C)));
      ownCmps.insert(C2);
      return r = B.CreateZExt(C2, I64, "isnn");
    }
    if (auto *A = dyn_cast<Argument>(V)) {
      IRBuilder<> B(&*A->getParent()->getEntryBlock().getFirstInsertionPt());
      auto *C2 = B.CreateICmpNE(V, ConstantPointerNull::get(PointerType::getUnqual(C)));
      ownCmps.insert(C2);
      return r = B.CreateZExt(C2, I64, "isnn");
    }
    return r = k(1);
  }
  std::set<Value *> ownCmps;
  Meta meta(Value *V) {
    auto it = metas.find(V);
    if (it != metas.end())
      return it->second;
    Meta m;
    if (auto *G = dyn_cast<GEPOperator>(V)) {
      Meta s = meta(G->getPointerOperand());
      m = s;
      Value *off = nullptr;
      if (auto *I = dyn_cast<GetElementPtrInst>(V)) {
        IRBuilder<> B(I);
        B.SetCurrentDebugLocation(I->getDebugLoc());
        off = gepOffset(B, G);
        m.off = isZero(s.off) ? off : isZero(off) ? s.off : B.CreateAdd(s.off, off);
      } else {
        APInt o(64, 0);
        if (G->accumulateConstantOffset(DL, o)) {
          auto *so = dyn_cast<ConstantInt>(s.off);
          m.off = so ? (Value *)ConstantInt::get(I64, so->getValue() + o) : (Value *)UndefValue::get(I64);
        } else
          m.off = UndefValue::get(I64);
      }
      return metas[V] = m;
    }
    if (auto *Fz = dyn_cast<FreezeInst>(V))
      return metas[V] = meta(Fz->getOperand(0));
    if (isa<PHINode>(V) || isa<SelectInst>(V)) {
      auto &rs = roots(V);
      bool single = rs.size() == 1;
      auto *I = cast<Instruction>(V);
      if (auto *P = dyn_cast<PHINode>(V)) {
        IRBuilder<> B(P);
        PHINode *o = B.CreatePHI(I64, P->getNumIncomingValues(), "off"), *s = nullptr, *n = nullptr;
        m.off = o;
        if (single) {
          bool kn;
          m.base = *rs.begin();
          m.size = rootSize(m.base, kn);
          m.nn = rootNN(m.base);
          m.known = kn;
        } else {
          s = B.CreatePHI(I64, P->getNumIncomingValues(), "size");
          n = B.CreatePHI(I64, P->getNumIncomingValues(), "nn");
          m.base = V;
          m.size = s;
          m.nn = n;
          m.known = true;
          for (auto *r : rs) {
            bool kn;
            rootSize(r, kn);
            m.known &= kn;
          }
        }
        metas[V] = m;
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
          Value *iv = P->getIncomingValue(i);
          if (isa<UndefValue>(iv)) {
            o->addIncoming(UndefValue::get(I64), P->getIncomingBlock(i));
            if (s) {
              s->addIncoming(UndefValue::get(I64), P->getIncomingBlock(i));
              n->addIncoming(UndefValue::get(I64), P->getIncomingBlock(i));
            }
            continue;
          }
          Meta im = meta(iv);
          o->addIncoming(im.off, P->getIncomingBlock(i));
          if (s) {
            s->addIncoming(im.size, P->getIncomingBlock(i));
            n->addIncoming(im.nn, P->getIncomingBlock(i));
          }
        }
        return m;
      }
      auto *S = cast<SelectInst>(V);
      Meta a = meta(S->getTrueValue()), b = meta(S->getFalseValue());
      IRBuilder<> B(I);
      m.off = a.off == b.off ? a.off : B.CreateSelect(S->getCondition(), a.off, b.off);
      if (single) {
        m.base = a.base;
        m.size = a.size;
        m.nn = a.nn;
        m.known = a.known;
      } else {
        m.base = V;
        m.size = a.size == b.size ? a.size : B.CreateSelect(S->getCondition(), a.size, b.size);
        m.nn = a.nn == b.nn ? a.nn : B.CreateSelect(S->getCondition(), a.nn, b.nn);
        m.known = a.known && b.known;
      }
      return metas[V] = m;
    }
    m.base = V;
    m.off = k(0);
    m.nn = rootNN(V);
    bool kn;
    m.size = rootSize(V, kn);
    m.known = kn;
    return metas[V] = m;
  }
  static bool isZero(Value *V) {
    auto *c = dyn_cast<ConstantInt>(V);
    return c && c->isZero();
  }
  Value *gepOffset(IRBuilder<> &B, GEPOperator *G) {
    Value *off = k(0);
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      Value *idx = it.getOperand();
      Value *t;
      if (auto *ST = it.getStructTypeOrNull())
        t = k(DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()));
      else {
        uint64_t sz = DL.getTypeAllocSize(it.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(idx))
          t = ConstantInt::get(I64, ci->getSExtValue() * (int64_t)sz);
        else {
          t = B.CreateSExtOrTrunc(idx, I64);
          if (sz != 1)
            t = B.CreateMul(t, k(sz));
        }
      }
      off = isZero(off) ? t : isZero(t) ? off : B.CreateAdd(off, t);
    }
    return off;
  }

  void check(Instruction *At, Value *P, Value *len, bool write) {
    if (isZero(len))
      return;
    bool kn;
    (void)kn;
    Meta m = meta(P);
    if (!m.known) {
      // tables of functions and library objects
      R.unknown++;
      if (!obliged(At)) {
        R.skipped++;
        return;
      }
    }
    if (auto *A = dyn_cast<AllocaInst>(m.base))
      (void)A;
    IRBuilder<> B(At);
    B.SetCurrentDebugLocation(At->getDebugLoc());
    auto *L = B.CreateZExtOrTrunc(len, I64);
    auto *CI = B.CreateCall(vfFn(M, write ? "vf_check_w" : "vf_check_r", Void, {I64, I64, I64}), {m.off, L, m.size});
    CI->setDebugLoc(At->getDebugLoc());
    CI->setMetadata("vf.what", MDNode::get(C, MDString::get(C, what(At, write) + kindOf(P) +
                                                                   (m.known ? "" : " through an unknown pointer"))));
    R.checks++;
    acc.push_back({At, P, L, write, m});
  }
  static std::string what(Instruction *At, bool write) {
    if (auto *CB = dyn_cast<CallInst>(At)) {
      if (isVF(CB->getCalledOperand(), "vf_use"))
        return "use";
      if (isVF(CB->getCalledOperand(), "vf_write"))
        return "fill";
    }
    return write ? "write" : "read";
  }
  std::string kindOf(Value *P) {
    bool reg = true, heap = true, stack = true;
    for (auto *r : roots(P)) {
      if (isa<ConstantPointerNull>(r))
        continue;
      auto *CB = dyn_cast<CallBase>(r);
      reg &= CB && isVF(CB->getCalledOperand(), "vf_ptr");
      heap &= CB && calledFn(CB) && starts(names(calledFn(CB)).base, "operator new");
      stack &= isa<AllocaInst>(r);
    }
    return reg ? " of a region" : heap ? " of the heap" : stack ? " of the stack" : "";
  }
  // 1: region, 2: heap, 3: stack, 4: constant, 0: several
  int kindCode(Value *P) {
    int r = -1;
    for (auto *x : roots(P)) {
      if (isa<ConstantPointerNull>(x))
        continue;
      auto *CB = dyn_cast<CallBase>(x);
      int c = 0;
      if (CB && isVF(CB->getCalledOperand(), "vf_ptr")) c = 1;
      else if (CB && calledFn(CB) && starts(names(calledFn(CB)).base, "operator new")) c = 2;
      else if (isa<AllocaInst>(x)) c = 3;
      else if (isa<GlobalValue>(x)) c = 4;
      r = r < 0 || r == c ? c : 0;
    }
    return r < 0 ? 0 : r;
  }
  // the loads of the regions whose content is constant, as functions of the offset
  void constantRegions() {
    std::set<Value *> cst;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallInst>(&I))
        if (isVF(CB->getCalledOperand(), "vf_const"))
          cst.insert(CB->getArgOperand(0));
    if (cst.empty())
      return;
    for (auto &a : acc) {
      auto *L = dyn_cast<LoadInst>(a.At);
      if (!L || !cst.count(a.m.base) || !L->getType()->isIntegerTy())
        continue;
      IRBuilder<> B(L);
      auto FC = vfFn(M, "vf_mem.i" + std::to_string(L->getType()->getIntegerBitWidth()), L->getType(), {I64, I64});
      cast<Function>(FC.getCallee())->setMemoryEffects(MemoryEffects::none());
      Value *id = nullptr;
      // one number per region: the regions are told apart by the call that made them
      id = baseOf(a.m.base);
      auto *c = B.CreateCall(FC, {id, a.m.off});
      c->setDebugLoc(L->getDebugLoc());
      L->replaceAllUsesWith(c);
      loaded[c] = {kindCode(a.P), a.m.off};
      a.val = c;
    }
  }
  std::map<Value *, std::pair<int, Value *>> loaded;
  // The monitors of the probe are called at each access.
  void monitors() {
    auto fn = [&](const char *n) {
      auto *f = M.getFunction(n);
      return f && !f->isDeclaration() ? f : nullptr;
    };
    Function *mL = fn("vfm_load"), *mS = fn("vfm_store"), *mM = fn("vfm_set"), *mC = fn("vfm_copy"), *mF = fn("vfm_fill"), *mT0 = fn("vfm_throw");
    for (auto &a : acc)
      if (auto *L = dyn_cast<LoadInst>(a.At))
        if (!loaded.count(L))
          loaded[L] = {kindCode(a.P), a.m.off};
    for (auto *f : {mL, mS, mM, mC, mF, mT0})
      if (f) {
        for (bool ch = true; ch;) {
          ch = false;
          for (auto &I : instructions(*f))
            if (auto *CB = dyn_cast<CallInst>(&I))
              if (auto *g = CB->getCalledFunction())
                if (!g->isDeclaration()) {
                  InlineFunctionInfo IFI;
                  if (!InlineFunction(*CB, IFI).isSuccess()) {
                    errs() << "a function of the monitors is not inlined\n";
                    exit(3);
                  }
                  ch = true;
                  break;
                }
        }
        runPasses(*f, "sroa,simplifycfg,early-cse");
      }
    std::vector<CallInst *> calls;
    auto i32 = [&](int v) { return ConstantInt::get(Type::getInt32Ty(C), v); };
    for (auto &a : acc) {
      IRBuilder<> B(a.At);
      int kc = kindCode(a.P);
      if (kc > 2)
        continue;
      auto val = [&](Value *v) -> Value * {
        if (v->getType()->isIntegerTy() && v->getType()->getIntegerBitWidth() <= 64)
          return B.CreateZExt(v, I64);
        if (v->getType()->isDoubleTy())
          return B.CreateBitCast(v, I64);
        return k(0);
      };
      auto call = [&](Function *f, std::vector<Value *> as) {
        auto *c = B.CreateCall(f, as);
        c->setDebugLoc(a.At->getDebugLoc());
        calls.push_back(c);
      };
      if (auto *L = dyn_cast<LoadInst>(a.At)) {
        if (!mL) continue;
        Value *v = a.val ? a.val : L;
        B.SetInsertPoint(a.At->getNextNode());
        call(mL, {i32(kc), a.m.off, a.Len, val(v), a.m.size});
      } else if (auto *S = dyn_cast<StoreInst>(a.At)) {
        if (!mS) continue;
        Value *v = S->getValueOperand();
        auto it = loaded.find(v);
        call(mS, {i32(kc), a.m.off, a.Len, val(v), i32(it == loaded.end() ? 0 : it->second.first), it == loaded.end() ? k(0) : it->second.second, a.m.size});
      } else if (auto *MS = dyn_cast<MemSetInst>(a.At)) {
        if (mM) call(mM, {i32(kc), a.m.off, a.Len, val(MS->getValue()), a.m.size});
      } else if (auto *MT = dyn_cast<MemTransferInst>(a.At)) {
        if (mC && a.write) {
          Meta s = meta(MT->getRawSource());
          call(mC, {i32(kc), a.m.off, a.Len, i32(kindCode(MT->getRawSource())), s.off, a.m.size});
        }
      } else if (auto *CB = dyn_cast<CallInst>(a.At)) {
        if (mF && isVF(CB->getCalledOperand(), "vf_write")) call(mF, {i32(kc), a.m.off, a.Len, a.m.size});
      }
    }
    if (auto *mT = fn("vfm_throw")) {
      std::vector<CallInst *> at;
      for (auto &I : instructions(F))
        if (auto *CI = dyn_cast<CallInst>(&I))
          if (auto *T = CI->getCalledFunction())
            if (T->getName().starts_with("vf_throw"))
              at.push_back(CI);
      for (auto *CI : at) {
        auto *c = CallInst::Create(mT, {}, "", CI);
        c->setDebugLoc(CI->getDebugLoc());
        calls.push_back(c);
      }
    }
    R.monitored = calls.size();
    for (auto *c : calls) {
      InlineFunctionInfo IFI;
      auto r = InlineFunction(*c, IFI);
      if (!r.isSuccess()) {
        errs() << "a monitor is not inlined: " << r.getFailureReason() << "\n";
        exit(3);
      }
    }
  }
  // the variables of the monitors
  void ghosts() {
    std::map<uint64_t, AllocaInst *> var;
    IRBuilder<> E(&F.getEntryBlock(), F.getEntryBlock().begin());
    std::vector<CallInst *> cs;
    for (auto &I : instructions(F))
      if (auto *CI = dyn_cast<CallInst>(&I))
        if (isVF(CI->getCalledOperand(), "vf_get") || isVF(CI->getCalledOperand(), "vf_set"))
          cs.push_back(CI);
    for (auto *CI : cs) {
      auto *id = dyn_cast<ConstantInt>(CI->getArgOperand(0));
      if (!id) {
        errs() << "vf_get of a variable\n";
        exit(3);
      }
      auto *&a = var[id->getZExtValue()];
      if (!a) {
        // the ones from 64 on have 32 bits
        Type *t = id->getZExtValue() < 64 ? I64 : Type::getInt32Ty(C);
        a = E.CreateAlloca(t, nullptr, "ghost" + std::to_string(id->getZExtValue()));
        E.CreateStore(ConstantInt::get(t, 0), a);
      }
      IRBuilder<> B(CI);
      if (isVF(CI->getCalledOperand(), "vf_get"))
        CI->replaceAllUsesWith(B.CreateZExt(B.CreateLoad(a->getAllocatedType(), a), I64));
      else
        B.CreateStore(B.CreateTrunc(CI->getArgOperand(1), a->getAllocatedType()), a);
      CI->eraseFromParent();
    }
    R.ghostVars = var.size();
    // The cuts: at the head of a loop that changes a variable it may always have
    // a given value. Each is asserted, then relied on; the ones that are not
    // proved are removed, until all are.
    std::map<uint64_t, std::set<uint64_t>> cand;
    std::map<uint64_t, std::pair<uint64_t, uint64_t>> candPhi; // or the value of a variable of the program: its width, the depth of the loop
    for (auto &I : make_early_inc_range(instructions(F)))
      if (auto *CI = dyn_cast<CallInst>(&I))
        if (isVF(CI->getCalledOperand(), "vf_cut")) {
          auto *id = dyn_cast<ConstantInt>(CI->getArgOperand(0)), *v = dyn_cast<ConstantInt>(CI->getArgOperand(1));
          if (id && v)
            cand[id->getZExtValue()].insert(v->getZExtValue());
          CI->eraseFromParent();
        } else if (isVF(CI->getCalledOperand(), "vf_cut_phi")) {
          auto arg = [&](unsigned i) { return cast<ConstantInt>(CI->getArgOperand(i))->getZExtValue(); };
          candPhi[arg(0)] = {arg(1), arg(2)};
          CI->eraseFromParent();
        }
    if (cand.empty() && candPhi.empty())
      return;
    runPasses(F, "simplifycfg,loop-simplify,loop(loop-rotate),simplifycfg");
    DominatorTree DT(F);
    LoopInfo LI(DT);
    auto VA = vfFn(M, "vf_assert", Type::getVoidTy(C), {Type::getInt1Ty(C), Type::getInt32Ty(C)});
    unsigned n = 0, group = 0;
    std::vector<std::function<void()>> todo;
    std::map<Loop *, std::set<PHINode *>> taken;
    for (auto *L : LI.getLoopsInPreorder())
      for (auto &[id, a] : var) {
        bool changed = false;
        for (auto *U : a->users())
          if (auto *S = dyn_cast<StoreInst>(U))
            changed |= L->contains(S->getParent());
        if (!changed)
          continue;
        std::vector<Value *> vs;
        for (auto v : cand[id])
          vs.push_back(k(v));
        auto cp = candPhi.find(id);
        if (!R.noPhi && cp != candPhi.end() && L->getLoopDepth() == cp->second.second) {
          std::vector<PHINode *> ps;
          for (auto &P : L->getHeader()->phis())
            if (P.getType()->isIntegerTy() && P.getType()->getIntegerBitWidth() == cp->second.first)
              ps.push_back(&P);
          // the loop has one variable for each: which ones is chosen for the loop
          auto &used = taken[L];
          size_t free = ps.size() - std::min(ps.size(), used.size());
          if (free) {
            size_t radix = R.choiceRadix;
            size_t pick = R.choice / radix % free;
            R.choiceRadix *= free;
            for (auto *P : ps)
              if (!used.count(P) && !pick--) {
                used.insert(P);
                vs.push_back(P);
                break;
              }
          }
        }
        struct Cut {
          Value *v;
          unsigned no;
        };
        std::vector<Cut> cuts;
        for (auto *v : vs) {
          unsigned no = n++;
          R.cutGroup[no] = group;
          if (isa<PHINode>(v))
            R.phiCuts.insert(no);
          if (!R.droppedCuts.count(no))
            cuts.push_back({v, no});
        }
        group++;
        if (cuts.empty())
          continue;
        todo.push_back([&, this, cuts, a = a, H = L->getHeader()] {
          IRBuilder<> B(&*H->getFirstInsertionPt());
          auto *x = B.CreateLoad(a->getAllocatedType(), a);
          Value *first = nullptr, *all = nullptr;
          for (auto &c : cuts) {
            Value *w = B.CreateZExtOrTrunc(c.v, a->getAllocatedType());
            B.CreateCall(VA, {B.CreateICmpEQ(x, w), ConstantInt::get(Type::getInt32Ty(C), CUT0 + c.no)});
            if (!first)
              B.CreateStore(first = w, a);
            else {
              auto *e = B.CreateICmpEQ(first, w);
              all = all ? B.CreateAnd(all, e) : e;
            }
          }
          if (all) {
            auto *T = SplitBlockAndInsertIfThen(B.CreateNot(all), &*B.GetInsertPoint(), true);
            ReplaceInstWithInst(T, ReturnInst::Create(C));
          }
        });
      }
    for (auto &f : todo)
      f();
    R.cuts = n;
  }
  struct Acc {
    Instruction *At;
    Value *P, *Len;
    bool write;
    Meta m;
    Value *val = nullptr;
  };
  std::vector<Acc> acc;

  // accesses with no debug location under the sources (pure library code) are
  // not obligations of the repository when the object is unknown
  bool obliged(Instruction *I) {
    const DILocation *L = I->getDebugLoc().get();
    if (!L)
      return false;
    std::string f = L->getFilename().str();
    return f.find("/include/c++/") == std::string::npos && f.find("/boost/") == std::string::npos;
  }

  void splitAtAssumes() {
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &BB : F) {
        for (auto &I : BB)
          if (auto *CI = dyn_cast<CallInst>(&I))
            if (isVF(CI->getCalledOperand(), "vf_assume") &&
                !(isa<BranchInst>(CI->getNextNode()) && BB.getTerminator()->getNumSuccessors() == 1 &&
                  BB.getTerminator()->getSuccessor(0)->getSinglePredecessor())) {
              SplitBlock(&BB, CI->getNextNode());
              ch = true;
              break;
            }
        if (ch)
          break;
      }
    }
  }

  void run() {
    EliminateUnreachableBlocks(F);
    std::vector<Instruction *> is;
    for (auto &I : instructions(F))
      is.push_back(&I);
    Constant *big = k(0x7fffffffffffffffull);
    for (auto *I : is)
      if (auto *CB = dyn_cast<CallInst>(I)) {
        if (isVF(CB->getCalledOperand(), "vf_region")) {
          Value *p = CB->getArgOperand(0);
          IRBuilder<> B(CB);
          B.CreateCall(vfFn(M, "vf_assume", Void, {Type::getInt1Ty(C)}), {B.CreateICmpULE(CB->getArgOperand(1), big)});
          if (!isa<AllocaInst>(p) && !isa<PHINode>(p))
            regionSize[p] = CB->getArgOperand(1);
        } else if (auto *T = calledFn(CB))
          if (starts(names(T).base, "operator new") && CB->arg_size() >= 1) {
            IRBuilder<> B(CB->getNextNode());
            B.CreateCall(vfFn(M, "vf_assume", Void, {Type::getInt1Ty(C)}), {B.CreateICmpULE(CB->getArgOperand(0), big)});
          }
      }
    for (auto *I : is) {
      if (auto *L = dyn_cast<LoadInst>(I))
        check(I, L->getPointerOperand(), k(DL.getTypeStoreSize(L->getType())), false);
      else if (auto *S = dyn_cast<StoreInst>(I))
        check(I, S->getPointerOperand(), k(DL.getTypeStoreSize(S->getValueOperand()->getType())), true);
      else if (auto *MS = dyn_cast<MemSetInst>(I))
        check(I, MS->getRawDest(), MS->getLength(), true);
      else if (auto *MT = dyn_cast<MemTransferInst>(I)) {
        check(I, MT->getRawDest(), MT->getLength(), true);
        check(I, MT->getRawSource(), MT->getLength(), false);
      } else if (auto *CB = dyn_cast<CallInst>(I)) {
        Function *T = calledFn(CB);
        if (!T)
          continue;
        StringRef N = T->getName();
        if (N == "memcmp" || N == "bcmp") {
          check(I, CB->getArgOperand(0), CB->getArgOperand(2), false);
          check(I, CB->getArgOperand(1), CB->getArgOperand(2), false);
        } else if (N == "memchr") {
          check(I, CB->getArgOperand(0), CB->getArgOperand(2), false);
        } else if (isVF(T, "vf_use")) {
          check(I, CB->getArgOperand(0), CB->getArgOperand(1), false);
        } else if (isVF(T, "vf_write")) {
          check(I, CB->getArgOperand(0), CB->getArgOperand(1), true);
        }
      }
    }
    // pointer comparisons and differences over the same object
    for (auto *I : is) {
      if (auto *Cm = dyn_cast<ICmpInst>(I)) {
        if (!Cm->getOperand(0)->getType()->isPointerTy())
          continue;
        Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
        if (isa<ConstantPointerNull>(a))
          std::swap(a, b);
        if (isa<ConstantPointerNull>(b)) {
          if (!Cm->isEquality() || isa<ConstantPointerNull>(a) || ownCmps.count(Cm))
            continue;
          Meta x = meta(a);
          IRBuilder<> B(Cm);
          Value *n = B.CreateICmp(Cm->getPredicate(), x.nn, k(0));
          if (n != Cm)
            Cm->replaceAllUsesWith(n);
          continue;
        }
        Meta x = meta(a), y = meta(b);
        if (x.base == y.base && !isa<PHINode>(x.base) && !isa<SelectInst>(x.base)) {
          IRBuilder<> B(Cm);
          Value *n = B.CreateICmp(Cm->getPredicate(), x.off, y.off);
          Cm->replaceAllUsesWith(n);
        }
      } else if (auto *P2 = dyn_cast<PtrToIntInst>(I)) {
        if (P2->getType() != I64)
          continue;
        Meta x = meta(P2->getPointerOperand());
        if (x.base == P2->getPointerOperand() && !isa<GlobalValue>(x.base))
          continue;
        IRBuilder<> B(P2);
        Value *n;
        if (auto *BI = dyn_cast<Instruction>(x.base)) {
          IRBuilder<> BB2(BI->getParent(), isa<PHINode>(BI) ? BI->getParent()->getFirstInsertionPt()
                                                          : std::next(BI->getIterator()));
          Value *&pb = baseInt[x.base];
          if (!pb)
            pb = BB2.CreatePtrToInt(x.base, I64);
          n = B.CreateAdd(pb, x.off);
        } else
          n = B.CreateAdd(baseOf(x.base), x.off);
        P2->replaceAllUsesWith(n);
      }
    }
    // the addresses of the globals
    for (auto &I : instructions(F)) {
      if (isa<PHINode>(I))
        continue;
      for (auto &U : I.operands()) {
        auto *CE = dyn_cast<ConstantExpr>(U.get());
        if (CE)
          if (Value *n = addr(CE, &I))
            U.set(n);
      }
    }
    for (auto &f : R.afterAccesses)
      f(*this);
    constantRegions();
    monitors();
    ghosts();
  }
  Value *baseOf(Value *V) {
    Value *&pb = baseInt[V];
    if (!pb) {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      pb = B.CreateCall(vfFn(M, "vf_base", I64, {}));
    }
    return pb;
  }
  // an integer made of addresses of globals
  Value *addr(ConstantExpr *CE, Instruction *At) {
    if (CE->getType() != I64)
      return nullptr;
    IRBuilder<> B(At);
    if (CE->getOpcode() == Instruction::PtrToInt) {
      APInt o(64, 0);
      Value *b = CE->getOperand(0)->stripAndAccumulateConstantOffsets(DL, o, true);
      return B.CreateAdd(baseOf(b), ConstantInt::get(I64, o));
    }
    if (CE->getOpcode() == Instruction::Add || CE->getOpcode() == Instruction::Sub) {
      Value *x[2];
      for (int i = 0; i < 2; ++i) {
        x[i] = CE->getOperand(i);
        if (auto *c = dyn_cast<ConstantExpr>(x[i]))
          x[i] = addr(c, At);
        if (!x[i])
          return nullptr;
      }
      return B.CreateBinOp((Instruction::BinaryOps)CE->getOpcode(), x[0], x[1]);
    }
    return nullptr;
  }
  std::map<Value *, Value *> baseInt;
};

// header phis that advance by a constant are functions of one counter per loop
static void counters(Function &F, InstrInfo &R) {
  runPasses(F, "loop-simplify");
  DominatorTree DT(F);
  LoopInfo LI(DT);
  LLVMContext &C = F.getContext();
  Type *I64 = Type::getInt64Ty(C);
  for (Loop *L : LI.getLoopsInPreorder()) {
    BasicBlock *H = L->getHeader(), *Pre = L->getLoopPreheader(), *Latch = L->getLoopLatch();
    if (!Pre || !Latch)
      continue;
    std::vector<std::pair<PHINode *, int64_t>> todo;
    for (auto &P : H->phis()) {
      if (!P.getType()->isIntegerTy() || P.getType()->getIntegerBitWidth() < 8)
        continue;
      Value *n = P.getIncomingValueForBlock(Latch);
      int64_t step = 0;
      bool ok = false;
      for (int d = 0; d < 8; ++d) {
        if (n == &P) {
          ok = true;
          break;
        }
        auto *BO = dyn_cast<BinaryOperator>(n);
        if (!BO)
          break;
        auto *ci = dyn_cast<ConstantInt>(BO->getOperand(1));
        if (!ci || ci->getBitWidth() > 64)
          break;
        if (BO->getOpcode() == Instruction::Add)
          step += ci->getSExtValue();
        else if (BO->getOpcode() == Instruction::Sub)
          step -= ci->getSExtValue();
        else
          break;
        n = BO->getOperand(0);
      }
      if (ok && step)
        todo.push_back({&P, step});
    }
    if (todo.empty())
      continue;
    PHINode *J = PHINode::Create(I64, 2, "cnt", &H->front());
    IRBuilder<> BL(Latch->getTerminator());
    Value *J1 = BL.CreateAdd(J, ConstantInt::get(I64, 1), "cnt.next");
    J->addIncoming(ConstantInt::get(I64, 0), Pre);
    J->addIncoming(J1, Latch);
    R.counters.insert(J);
    for (auto &[P, step] : todo) {
      IRBuilder<> B(H, H->getFirstInsertionPt());
      Value *j = J;
      Type *T = P->getType();
      if (T != I64)
        j = B.CreateTrunc(J, T);
      Value *s = step == 1 ? j : B.CreateMul(j, ConstantInt::get(T, step, true));
      Value *v = B.CreateAdd(P->getIncomingValueForBlock(Pre), s);
      P->replaceAllUsesWith(v);
      P->eraseFromParent();
      R.nCounted++;
    }
  }
}

void instrument(Function &F, InstrInfo &R) {
  for (auto &I : make_early_inc_range(instructions(F)))
    if (auto *CI = dyn_cast<CallInst>(&I))
      if (auto *T = calledFn(CI))
        if (T->getName() == "strlen") {
          StringRef s;
          if (getConstantStringInfo(CI->getArgOperand(0), s)) {
            CI->replaceAllUsesWith(ConstantInt::get(CI->getType(), s.size()));
            CI->eraseFromParent();
          }
        }
  Instrument I(F, R);
  I.run();
  if (R.ghosts)
    R.ghosts(F, [&](Value *V) { return I.meta(V); });
  if (R.monitored || R.ghostVars) {
    const char *simp = "sroa,simplifycfg,early-cse,newgvn,instcombine<no-verify-fixpoint>,sccp,simplifycfg,jump-threading,correlated-propagation,newgvn,instcombine<no-verify-fixpoint>,simplifycfg";
    runPasses(F, simp);
    foldBytes(F, false);
    runPasses(F, simp);
    if (!getenv("VF_NOSPLIT") && splitCases(F)) {
      runPasses(F, simp);
      foldBytes(F, false);
      runPasses(F, simp);
    }
    foldBytes(F, true);
  }
  runPasses(F, "sroa,sccp,early-cse,instsimplify,simplifycfg,sccp,jump-threading,simplifycfg,adce");
  if (!getenv("VF_NOIV")) runPasses(F, "loop-simplify,lcssa,loop(indvars),sccp,early-cse,instsimplify,sccp,simplifycfg,adce");
  counters(F, R);
  runPasses(F, "early-cse,adce");
  Instrument S(F, R);
  S.splitAtAssumes();
}

} // namespace vf
