// An interval analysis of the floating-point values, refined by the branches
// that dominate them: it decides which values reach the conversions to integers.
#include "fpr.h"
#include "instr.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include <cfloat>
#include <cmath>
using namespace llvm;
namespace vf {
namespace {
const double INF = HUGE_VAL;
struct R {
  double lo = -INF, hi = INF;
  bool nan = true;
};
R join(R a, R b) { return {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan || b.nan}; }
R mk(double lo, double hi, bool nan, bool exact = false) {
  if (std::isnan(lo)) lo = -INF, nan = true;
  if (std::isnan(hi)) hi = INF, nan = true;
  if (!exact) lo = std::nextafter(lo, -INF), hi = std::nextafter(hi, INF);
  return {lo, hi, nan};
}
bool inf(R a) { return std::isinf(a.lo) || std::isinf(a.hi); }
bool has0(R a) { return a.lo <= 0 && a.hi >= 0; }
bool isConvFn(StringRef n) {
  return n == "lround" || n == "llround" || n == "lrint" || n == "llrint" || n.starts_with("llvm.lround") || n.starts_with("llvm.llround") ||
         n.starts_with("llvm.lrint") || n.starts_with("llvm.llrint");
}

struct Ana {
  DominatorTree DT;
  Ana(Function &F) : DT(F) {}
  // the edge from -> to, with the condition of its branch, or null
  static Value *edgeCond(BasicBlock *From, BasicBlock *To, bool &truth) {
    auto *B = dyn_cast<BranchInst>(From->getTerminator());
    if (!B || !B->isConditional() || B->getSuccessor(0) == B->getSuccessor(1))
      return nullptr;
    truth = B->getSuccessor(0) == To;
    return B->getCondition();
  }
  void apply(Value *V, Value *C, bool t, R &r, int d) {
    Value *a, *b;
    if (auto *BO = dyn_cast<BinaryOperator>(C)) {
      a = BO->getOperand(0), b = BO->getOperand(1);
      if (BO->getOpcode() == Instruction::And && t) return apply(V, a, t, r, d), apply(V, b, t, r, d);
      if (BO->getOpcode() == Instruction::Or && !t) return apply(V, a, t, r, d), apply(V, b, t, r, d);
      if (BO->getOpcode() == Instruction::Xor) {
        if (auto *c = dyn_cast<ConstantInt>(b))
          return apply(V, a, t ^ c->isOne(), r, d);
      }
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(C)) {
      auto *ct = dyn_cast<ConstantInt>(S->getTrueValue());
      auto *cf = dyn_cast<ConstantInt>(S->getFalseValue());
      if (cf && cf->isZero() && t) return apply(V, S->getCondition(), true, r, d), apply(V, S->getTrueValue(), true, r, d);
      if (ct && ct->isOne() && !t) return apply(V, S->getCondition(), false, r, d), apply(V, S->getFalseValue(), false, r, d);
      return;
    }
    if (auto *F = dyn_cast<FreezeInst>(C))
      return apply(V, F->getOperand(0), t, r, d);
    auto *F = dyn_cast<FCmpInst>(C);
    if (!F)
      return;
    for (int side = 0; side < 2; ++side) {
      Value *x = F->getOperand(side), *y = F->getOperand(1 - side);
      auto P = side ? F->getSwappedPredicate() : F->getPredicate();
      if (!t) P = FCmpInst::getInversePredicate(P);
      bool abs = false;
      if (x != V) {
        auto *II = dyn_cast<IntrinsicInst>(x);
        if (!II || II->getIntrinsicID() != Intrinsic::fabs || II->getArgOperand(0) != V)
          continue;
        abs = true;
      }
      R o = range(y, F->getParent(), d + 1);
      if (FCmpInst::isOrdered(P))
        r.nan = false;
      if (P == FCmpInst::FCMP_ORD || P == FCmpInst::FCMP_UNO) {
        continue;
      }
      if (o.nan && FCmpInst::isUnordered(P)) // true without any relation
        continue;
      switch (P) {
      case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULT: case FCmpInst::FCMP_ULE:
        r.hi = std::min(r.hi, o.hi);
        if (abs) r.lo = std::max(r.lo, -o.hi);
        break;
      case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGT: case FCmpInst::FCMP_UGE:
        if (!abs) r.lo = std::max(r.lo, o.lo);
        break;
      case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ:
        r.hi = std::min(r.hi, o.hi);
        r.lo = std::max(r.lo, abs ? -o.hi : o.lo);
        break;
      case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE:
        if (abs && o.lo == INF) r.lo = std::max(r.lo, -DBL_MAX), r.hi = std::min(r.hi, DBL_MAX);
        break;
      default:
        break;
      }
    }
  }
  R range(Value *V, BasicBlock *At, int d = 0) {
    R r = base(V, At, d);
    for (auto *N = DT.getNode(At); N && N->getIDom(); N = N->getIDom()) {
      BasicBlock *BB = N->getBlock(), *P = BB->getSinglePredecessor();
      bool t;
      if (P)
        if (auto *C = edgeCond(P, BB, t))
          apply(V, C, t, r, d);
    }
    return r;
  }
  R base(Value *V, BasicBlock *At, int d) {
    if (d > 24)
      return {};
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      double x = C->getValueAPF().convertToDouble();
      return std::isnan(x) ? R{INF, -INF, true} : R{x, x, false};
    }
    auto *I = dyn_cast<Instruction>(V);
    if (!I)
      return {};
    auto op = [&](unsigned i) { return range(I->getOperand(i), At, d + 1); };
    switch (I->getOpcode()) {
    case Instruction::SIToFP: {
      unsigned n = I->getOperand(0)->getType()->getIntegerBitWidth();
      return mk(-std::ldexp(1, n - 1), std::ldexp(1, n - 1), false);
    }
    case Instruction::UIToFP:
      return mk(0, std::ldexp(1, I->getOperand(0)->getType()->getIntegerBitWidth()), false);
    case Instruction::FPExt: case Instruction::Freeze:
      return op(0);
    case Instruction::FPTrunc: {
      R a = op(0);
      return {-INF, INF, a.nan};
    }
    case Instruction::FNeg: {
      R a = op(0);
      return {-a.hi, -a.lo, a.nan};
    }
    case Instruction::FAdd: return add(op(0), op(1));
    case Instruction::FSub: {
      R b = op(1);
      return add(op(0), {-b.hi, -b.lo, b.nan});
    }
    case Instruction::FMul: return mul(op(0), op(1));
    case Instruction::FDiv: {
      R a = op(0), b = op(1);
      if (has0(b) || inf(b)) return {};
      double q[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
      return mk(*std::min_element(q, q + 4), *std::max_element(q, q + 4), a.nan || b.nan);
    }
    case Instruction::Select: {
      auto *S = cast<SelectInst>(I);
      R a = range(S->getTrueValue(), At, d + 1), b = range(S->getFalseValue(), At, d + 1);
      if (S->getTrueValue()->getType()->isFloatingPointTy()) {
        apply(S->getTrueValue(), S->getCondition(), true, a, d + 1);
        apply(S->getFalseValue(), S->getCondition(), false, b, d + 1);
      }
      return join(a, b);
    }
    case Instruction::PHI: {
      auto *P = cast<PHINode>(I);
      R r{INF, -INF, false};
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
        auto *B = P->getIncomingBlock(i);
        if (P->getIncomingValue(i) == P || DT.dominates(P->getParent(), B)) {
          if (P->getIncomingValue(i) == P) continue;
          return {};
        }
        R x = range(P->getIncomingValue(i), B, d + 1);
        bool t;
        if (auto *C = edgeCond(B, P->getParent(), t))
          apply(P->getIncomingValue(i), C, t, x, d);
        r = join(r, x);
      }
      return r;
    }
    case Instruction::Call: {
      auto *CB = cast<CallInst>(I);
      auto *F = CB->getCalledFunction();
      StringRef n = F ? F->getName() : "";
      auto is = [&](const char *a) { return n == a || n.starts_with(("llvm." + std::string(a) + ".").c_str()); };
      if (is("round") || is("trunc") || is("floor") || is("ceil") || is("rint") || is("nearbyint") || is("roundeven")) {
        R a = op(0);
        return mk(std::floor(a.lo), std::ceil(a.hi), a.nan, true);
      }
      if (is("fabs")) {
        R a = op(0);
        return mk(has0(a) ? 0 : std::min(std::fabs(a.lo), std::fabs(a.hi)), std::max(std::fabs(a.lo), std::fabs(a.hi)), a.nan, true);
      }
      if (is("fmuladd") || is("fma"))
        return add(mul(op(0), op(1)), op(2));
      if (is("fmod")) {
        R a = op(0), b = op(1);
        if (has0(b) || inf(a)) return {};
        double m = std::max(std::fabs(b.lo), std::fabs(b.hi));
        return {a.lo < 0 ? -m : 0, a.hi > 0 ? m : 0, a.nan || b.nan};
      }
      if (is("minnum") || is("fmin") || is("maxnum") || is("fmax")) {
        R a = op(0), b = op(1);
        bool mn = n.contains("min");
        R r = mn ? R{std::min(a.lo, b.lo), std::min(a.hi, b.hi), false} : R{std::max(a.lo, b.lo), std::max(a.hi, b.hi), false};
        if (a.nan) r = join(r, b);
        if (b.nan) r = join(r, a);
        r.nan = a.nan && b.nan;
        return r;
      }
      return {};
    }
    default:
      return {};
    }
  }
  R add(R a, R b) {
    bool nan = a.nan || b.nan || (std::isinf(a.lo) && b.hi == INF) || (a.hi == INF && std::isinf(b.lo));
    return mk(a.lo + b.lo, a.hi + b.hi, nan);
  }
  R mul(R a, R b) {
    bool nan = a.nan || b.nan || (inf(a) && has0(b)) || (inf(b) && has0(a));
    double q[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    for (double &x : q)
      if (std::isnan(x)) return {};
    return mk(*std::min_element(q, q + 4), *std::max_element(q, q + 4), nan);
  }
  R irange(Value *V, BasicBlock *At, int d = 0) {
    if (d > 24) return {};
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      double x = C->getSExtValue();
      return {x, x, false};
    }
    auto *I = dyn_cast<Instruction>(V);
    if (!I) return {};
    switch (I->getOpcode()) {
    case Instruction::FPToSI: case Instruction::FPToUI: return range(I->getOperand(0), At, d + 1);
    case Instruction::SExt: case Instruction::Freeze: return irange(I->getOperand(0), At, d + 1);
    case Instruction::Trunc: {
      R a = irange(I->getOperand(0), At, d + 1);
      double m = std::ldexp(1, I->getType()->getIntegerBitWidth() - 1);
      return a.lo >= -m && a.hi < m ? a : R{};
    }
    case Instruction::ZExt: {
      R a = irange(I->getOperand(0), At, d + 1);
      return a.lo >= 0 ? a : R{};
    }
    case Instruction::Add: return add(irange(I->getOperand(0), At, d + 1), irange(I->getOperand(1), At, d + 1));
    case Instruction::Sub: {
      R b = irange(I->getOperand(1), At, d + 1);
      return add(irange(I->getOperand(0), At, d + 1), {-b.hi, -b.lo, b.nan});
    }
    case Instruction::Mul: return mul(irange(I->getOperand(0), At, d + 1), irange(I->getOperand(1), At, d + 1));
    case Instruction::Select: {
      return join(irange(I->getOperand(1), At, d + 1), irange(I->getOperand(2), At, d + 1));
    }
    case Instruction::PHI: {
      auto *P = cast<PHINode>(I);
      R r{INF, -INF, false};
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
        if (DT.dominates(P->getParent(), P->getIncomingBlock(i))) return {};
        r = join(r, irange(P->getIncomingValue(i), P->getIncomingBlock(i), d + 1));
      }
      return r;
    }
    case Instruction::Call:
      if (auto *F = cast<CallInst>(I)->getCalledFunction())
        if (isConvFn(F->getName())) {
          R a = range(I->getOperand(0), At, d + 1);
          return {std::floor(a.lo), std::ceil(a.hi), a.nan};
        }
      return {};
    default: return {};
    }
  }
};
} // namespace

// Before the normalisation: what each conversion and each count of days gets.
void markConversions(Module &M) {
  auto &C = M.getContext();
  auto *V = Type::getVoidTy(C);
  auto conv = M.getOrInsertFunction("vf_conv", V, Type::getDoubleTy(C));
  auto day = M.getOrInsertFunction("vf_day", V, Type::getInt64Ty(C));
  for (auto f : {conv, day}) {
    cast<Function>(f.getCallee())->setDoesNotThrow();
  }
  for (auto &F : M) {
    if (F.isDeclaration() || F.getName().starts_with("vf_"))
      continue;
    const auto &fn = names(&F);
    if (fn.ctx.rfind("boost", 0) == 0 || fn.ctx.rfind("fmt", 0) == 0 || fn.ctx.rfind("spdlog", 0) == 0)
      continue;
    std::vector<Instruction *> is;
    for (auto &BB : F)
      for (auto &I : BB)
        is.push_back(&I);
    for (auto *I : is) {
      IRBuilder<> B(I);
      auto arg = [&](Value *x) { return x->getType()->isDoubleTy() ? x : B.CreateFPExt(x, B.getDoubleTy()); };
      if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
        if (I->getOperand(0)->getType()->isDoubleTy() || I->getOperand(0)->getType()->isFloatTy())
          B.CreateCall(conv, {arg(I->getOperand(0))});
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        auto *G = CB->getCalledFunction();
        if (!G) continue;
        if (isConvFn(G->getName()) && CB->arg_size() == 1 && (CB->getArgOperand(0)->getType()->isDoubleTy() || CB->getArgOperand(0)->getType()->isFloatTy()))
          B.CreateCall(conv, {arg(CB->getArgOperand(0))});
        const auto &g = names(G);
        if (g.ctx.rfind("boost::date_time::int_adapter", 0) == 0 && g.base == "int_adapter" && CB->arg_size() == 2 &&
            CB->getArgOperand(1)->getType()->isIntegerTy(64))
          B.CreateCall(day, {CB->getArgOperand(1)});
      }
    }
  }
}

std::vector<ConvInfo> conversionRanges(Function &F) {
  Ana A(F);
  std::vector<ConvInfo> r;
  for (auto &BB : F)
    for (auto &I : BB)
      if (auto *CI = dyn_cast<CallInst>(&I))
        if (auto *G = CI->getCalledFunction()) {
          bool d = G->getName() == "vf_day";
          if (!d && G->getName() != "vf_conv")
            continue;
          R x = d ? A.irange(CI->getArgOperand(0), &BB) : A.range(CI->getArgOperand(0), &BB);
          r.push_back({d ? "days" : "conversion", locOf(CI), chainOf(CI), x.lo, x.hi, x.nan});
        }
  return r;
}
} // namespace vf
