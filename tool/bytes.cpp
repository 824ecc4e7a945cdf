// Values with at most 256 possible values: which of them reach each block, and
// what the expressions made of one of them are worth there.
#include "instr.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Transforms/Utils/Local.h"
#include <bitset>
#include <optional>
namespace vf {
namespace {
using Set = std::bitset<256>;
struct Bytes {
  Function &F;
  const DataLayout &DL;
  Value *X = nullptr;
  unsigned W = 0;
  std::map<Value *, bool> dep; // an expression of X and of constants
  Bytes(Function &f) : F(f), DL(f.getParent()->getDataLayout()) {}
  bool of(Value *V, int d = 0) {
    if (V == X || isa<Constant>(V))
      return true;
    auto it = dep.find(V);
    if (it != dep.end())
      return it->second;
    auto *I = dyn_cast<Instruction>(V);
    bool ok = false;
    if (I && d < 24 && !isa<PHINode>(I) && (isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<ICmpInst>(I) || isa<SelectInst>(I) || isa<GetElementPtrInst>(I) || isa<FreezeInst>(I) || isa<LoadInst>(I) || isa<IntrinsicInst>(I))) {
      ok = !isa<LoadInst>(I) || !cast<LoadInst>(I)->isVolatile();
      if (auto *II = dyn_cast<IntrinsicInst>(I))
        ok = !II->mayHaveSideEffects() && !II->getType()->isVoidTy() && !II->mayReadFromMemory();
      if (ok)
        for (auto &o : I->operands())
          if (!isa<Function>(o.get()))
            ok = ok && of(o.get(), d + 1);
    }
    return dep[V] = ok;
  }
  bool uses(Value *V, int d = 0) {
    if (V == X)
      return true;
    auto *I = dyn_cast<Instruction>(V);
    if (!I || d > 24)
      return false;
    for (auto &o : I->operands())
      if (uses(o.get(), d + 1))
        return true;
    return false;
  }
  std::map<std::pair<Value *, unsigned>, Constant *> memo;
  Constant *eval(Value *V, unsigned x) {
    if (V == X)
      return ConstantInt::get(X->getType(), x);
    if (auto *c = dyn_cast<Constant>(V))
      return c;
    auto k = std::make_pair(V, x);
    auto it = memo.find(k);
    if (it != memo.end())
      return it->second;
    auto *I = cast<Instruction>(V);
    std::vector<Constant *> ops;
    Constant *r = nullptr;
    for (auto &o : I->operands()) {
      auto *c = isa<Function>(o.get()) ? cast<Constant>(o.get()) : eval(o.get(), x);
      if (!c)
        return memo[k] = nullptr;
      ops.push_back(c);
    }
    if (auto *S = dyn_cast<SelectInst>(I)) {
      if (auto *b = dyn_cast<ConstantInt>(ops[0]))
        r = b->isOne() ? ops[1] : ops[2];
      (void)S;
    } else if (isa<FreezeInst>(I))
      r = isa<ConstantInt>(ops[0]) ? ops[0] : nullptr;
    else if (auto *L = dyn_cast<LoadInst>(I))
      r = ConstantFoldLoadFromConstPtr(ops[0], L->getType(), DL);
    else if (auto *C = dyn_cast<ICmpInst>(I))
      r = ConstantFoldCompareInstOperands(C->getPredicate(), ops[0], ops[1], DL);
    else
      r = ConstantFoldInstOperands(I, ops, DL);
    if (r && isa<UndefValue>(r))
      r = nullptr;
    return memo[k] = r;
  }
  // the expressions as a * (X & m) + b
  void canon(const std::map<BasicBlock *, Set> &at) {
    static const unsigned masks[] = {0x0F, 0xF0, 0xFF, 0x01, 0x03, 0x07, 0x1F, 0x3F, 0x7F, 0x80, 0xC0, 0xE0, 0xF8, 0xFE};
    std::vector<std::pair<Instruction *, const Set *>> todo;
    for (auto &[B, s] : at)
      if (s.any())
        for (auto &I : *B) {
          if (&I == X || !I.getType()->isIntegerTy() || I.getType()->getIntegerBitWidth() < 2 || I.getType()->getIntegerBitWidth() > 64 || !of(&I) || !uses(&I))
            continue;
          bool top = false;
          for (auto *U : I.users())
            top |= !of(U);
          if (top)
            todo.push_back({&I, &s});
        }
    for (auto &[I, s] : todo) {
      unsigned w = I->getType()->getIntegerBitWidth();
      std::vector<std::pair<unsigned, APInt>> t;
      for (unsigned i = 0; i < W; ++i)
        if ((*s)[i]) {
          auto *v = dyn_cast_or_null<ConstantInt>(eval(I, i));
          if (!v)
            break;
          t.push_back({i, v->getValue()});
        }
      if (t.size() != s->count() || t.size() < 2)
        continue;
      for (unsigned m : masks) {
        if (m >= W)
          continue;
        // two points give the line
        unsigned x0 = t[0].first & m, x1 = x0;
        APInt y0 = t[0].second, y1 = y0;
        unsigned best = 256;
        for (auto &[x, y] : t)
          if ((x & m) > x0 && (x & m) - x0 < best) {
            best = (x & m) - x0;
            x1 = x & m;
            y1 = y;
          }
        if (x1 == x0)
          continue;
        APInt d = y1 - y0, a(w, 0);
        int64_t dx = x1 - x0, dd = d.getSExtValue();
        if (dd % dx)
          continue;
        a = APInt(w, (uint64_t)(dd / dx), true);
        APInt b = y0 - a * APInt(w, x0);
        bool ok = true;
        for (auto &[x, y] : t)
          ok = ok && a * APInt(w, x & m) + b == y;
        if (!ok)
          continue;
        IRBuilder<> E(I);
        Value *v = m == W - 1 ? X : E.CreateAnd(X, ConstantInt::get(X->getType(), m));
        v = E.CreateZExtOrTrunc(v, I->getType());
        if (v == I)
          break;
        bool nuw = true;
        for (auto &[x, y] : t) {
          bool o1, o2;
          APInt p = a.umul_ov(APInt(w, x & m), o1);
          (void)p.uadd_ov(b, o2);
          nuw = nuw && !o1 && !o2;
        }
        v = E.CreateMul(v, ConstantInt::get(I->getType(), a), "", nuw);
        v = E.CreateAdd(v, ConstantInt::get(I->getType(), b), "", nuw);
        I->replaceUsesWithIf(v, [&](Use &U) { return !of(U.getUser()); });
        break;
      }
    }
  }
  bool run(Value *x, bool last) {
    X = x;
    W = 1u << x->getType()->getIntegerBitWidth();
    dep.clear();
    memo.clear();
    DominatorTree DT(F);
    auto *D = isa<Instruction>(x) ? cast<Instruction>(x)->getParent() : &F.getEntryBlock();
    std::map<BasicBlock *, Set> at;
    Set all;
    for (unsigned i = 0; i < W; ++i)
      all.set(i);
    at[D] = all;
    auto edge = [&](BasicBlock *P, unsigned si) {
      Set s = at[P], r;
      auto *T = P->getTerminator();
      Value *c = nullptr;
      if (auto *B = dyn_cast<BranchInst>(T)) {
        if (B->isConditional())
          c = B->getCondition();
      } else if (auto *S = dyn_cast<SwitchInst>(T))
        c = S->getCondition();
      if (!c || !of(c))
        return s;
      for (unsigned i = 0; i < W; ++i)
        if (s[i]) {
          auto *v = dyn_cast_or_null<ConstantInt>(eval(c, i));
          if (!v) {
            r.set(i);
            continue;
          }
          unsigned to = isa<BranchInst>(T) ? (v->isOne() ? 0 : 1) : cast<SwitchInst>(T)->findCaseValue(v)->getSuccessorIndex();
          if (to == si)
            r.set(i);
        }
      return r;
    };
    std::vector<BasicBlock *> w{D};
    while (!w.empty()) {
      auto *B = w.back();
      w.pop_back();
      auto *T = B->getTerminator();
      for (unsigned i = 0; i < T->getNumSuccessors(); ++i) {
        auto *S = T->getSuccessor(i);
        if (S == D || !DT.dominates(D, S))
          continue;
        Set n = at[S] | edge(B, i);
        if (n != at[S]) {
          at[S] = n;
          w.push_back(S);
        }
      }
    }
    if (last) {
      canon(at);
      return false;
    }
    bool ch = false;
    auto worth = [&](Value *V, const Set &s) -> Constant * {
      if (!V->getType()->isIntegerTy() || isa<Constant>(V) || !of(V) || s.none())
        return nullptr;
      Constant *r = nullptr;
      for (unsigned i = 0; i < W; ++i)
        if (s[i]) {
          auto *v = eval(V, i);
          if (!v || !isa<ConstantInt>(v) || (r && r != v))
            return nullptr;
          r = v;
        }
      return r;
    };
    for (auto &[B, s] : at) {
      if (s.none())
        continue;
      for (auto &I : *B) {
        if (isa<PHINode>(&I))
          continue;
        if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          Value *c = SW->getCondition();
          if (isa<Constant>(c) || !of(c))
            continue;
          std::set<ConstantInt *> vs;
          bool ok = true;
          for (unsigned i = 0; i < W && ok; ++i)
            if (s[i]) {
              auto *v = dyn_cast_or_null<ConstantInt>(eval(c, i));
              ok = v;
              if (v)
                vs.insert(v);
            }
          if (!ok)
            continue;
          if (vs.size() == 1) {
            SW->setCondition(*vs.begin());
            ch = true;
            continue;
          }
          for (auto it = SW->case_begin(); it != SW->case_end();)
            if (!vs.count(it->getCaseValue())) {
              it->getCaseSuccessor()->removePredecessor(B);
              it = SW->removeCase(it);
              ch = true;
            } else
              ++it;
          continue;
        }
        for (auto &o : I.operands())
          if (!isa<Function>(o.get()) && o.get() != X)
            if (auto *c = worth(o.get(), s)) {
              o.set(c);
              ch = true;
            }
      }
      auto *T = B->getTerminator();
      for (unsigned i = 0; i < T->getNumSuccessors(); ++i) {
        auto *S = T->getSuccessor(i);
        for (auto &P : S->phis())
          for (unsigned j = 0; j < P.getNumIncomingValues(); ++j)
            if (P.getIncomingBlock(j) == B && T->getNumSuccessors() == 1)
              if (auto *c = worth(P.getIncomingValue(j), s)) {
                P.setIncomingValue(j, c);
                ch = true;
              }
      }
    }
    return ch;
  }
};
} // namespace
void foldBytes(Function &F, bool last) {
  for (int round = 0; round < 6; ++round) {
    std::vector<WeakTrackingVH> xs;
    for (auto &I : instructions(F))
      if (I.getType()->isIntegerTy() && I.getType()->getIntegerBitWidth() <= 8 && I.getType()->getIntegerBitWidth() > 1 &&
          (isa<LoadInst>(I) || isa<CallInst>(I) || isa<PHINode>(I)))
        xs.push_back(&I);
    bool ch = false;
    Bytes B(F);
    for (auto &x : xs)
      if (x)
        ch |= B.run(x, last);
    if (last) {
      runPasses(F, "early-cse,adce,newgvn");
      return;
    }
    if (!ch)
      return;
    runPasses(F, "simplifycfg,sccp,early-cse,instcombine<no-verify-fixpoint>,simplifycfg");
  }
}
} // namespace vf
