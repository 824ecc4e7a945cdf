#include "prove.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Support/KnownBits.h"
#include <algorithm>

namespace vf {

static Z zpow2(unsigned n) {
  Z r = 1;
  r <<= n;
  return r;
}
static Z toZ(const APInt &a, bool sgn) {
  SmallString<40> s;
  a.toString(s, 10, sgn);
  return Z(std::string(s.c_str()));
}
static unsigned width(Value *V) {
  return V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : 64;
}

Prover::Prover(Function &f) : F(f), DT(f), LI(DT) {}

int Prover::newAtom(Value *V, const Z &l, const Z &h) {
  atomVal.push_back(V);
  lo.push_back(l);
  hi.push_back(h);
  return (int)atomVal.size() - 1;
}
int Prover::atom(Value *V) {
  auto it = atomOf.find(V);
  if (it != atomOf.end())
    return it->second;
  Z h = zpow2(width(V)) - 1;
  if (V->hasName() && V->getName().starts_with("cnt") && isa<PHINode>(V))
    h = zpow2(62); // a loop does not run for 2^62 iterations
  if (V->getType()->isPointerTy())
    h = zpow2(63);
  Z l = 0;
  if (V->getType()->isIntegerTy() && width(V) > 1) {
    // the values a web of copies takes
    std::vector<Value *> wl{V};
    std::set<Value *> seen;
    Z wmin = -1, wmax = 0;
    while (!wl.empty() && seen.size() < 2000) {
      Value *x = wl.back();
      wl.pop_back();
      if (!seen.insert(x).second || isa<UndefValue>(x))
        continue;
      if (auto *P = dyn_cast<PHINode>(x)) {
        for (auto &U : P->incoming_values())
          wl.push_back(U.get());
        continue;
      }
      if (auto *S = dyn_cast<SelectInst>(x)) {
        wl.push_back(S->getTrueValue());
        wl.push_back(S->getFalseValue());
        continue;
      }
      if (auto *Z0 = dyn_cast<FreezeInst>(x)) {
        wl.push_back(Z0->getOperand(0));
        continue;
      }
      KnownBits kb = computeKnownBits(x, F.getParent()->getDataLayout());
      Z a = 0, b = zpow2(width(V)) - 1;
      if (!kb.hasConflict()) {
        a = toZ(kb.getMinValue(), false);
        b = toZ(kb.getMaxValue(), false);
      }
      if (wmin < 0 || a < wmin)
        wmin = a;
      if (b > wmax)
        wmax = b;
    }
    if (wl.empty() && wmin >= 0) {
      l = wmin;
      if (wmax < h)
        h = wmax;
      if (l > h)
        l = 0;
    }
  }
  return atomOf[V] = newAtom(V, l, h);
}
BasicBlock *Prover::ctxOf(Value *V) {
  if (auto *I = dyn_cast<Instruction>(V))
    return I->getParent();
  return &F.getEntryBlock();
}
bool Prover::range(const Lin &l, Z &a, Z &b) {
  a = b = l.k;
  for (auto &[x, c] : l.c)
    if (c > 0) {
      a += c * lo[x];
      b += c * hi[x];
    } else {
      a += c * hi[x];
      b += c * lo[x];
    }
  return true;
}

// linear form equal to V modulo 2^width
Lin Prover::raw(Value *V) {
  auto it = rawMemo.find(V);
  if (it != rawMemo.end())
    return it->second;
  Lin r;
  bool done = false;
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    r = Lin(toZ(CI->getValue(), true));
    done = true;
  } else if (auto *BO = dyn_cast<BinaryOperator>(V)) {
    Value *a = BO->getOperand(0), *b = BO->getOperand(1);
    switch (BO->getOpcode()) {
    case Instruction::Add:
      r = raw(a) + raw(b);
      done = true;
      break;
    case Instruction::Sub:
      r = raw(a) - raw(b);
      done = true;
      break;
    case Instruction::Mul: {
      auto *c = dyn_cast<ConstantInt>(b);
      Value *o = a;
      if (!c) {
        c = dyn_cast<ConstantInt>(a);
        o = b;
      }
      if (c) {
        r = raw(o).scaled(toZ(c->getValue(), true));
        done = true;
      }
    } break;
    case Instruction::Shl:
      if (auto *c = dyn_cast<ConstantInt>(b))
        if (c->getValue().ult(width(V))) {
          r = raw(a).scaled(zpow2(c->getZExtValue()));
          done = true;
        }
      break;
    case Instruction::Or:
      if (cast<PossiblyDisjointInst>(BO)->isDisjoint()) {
        r = raw(a) + raw(b);
        done = true;
      }
      break;
    default:
      break;
    }
  } else if (auto *T = dyn_cast<TruncInst>(V)) {
    if (T->getSrcTy()->isIntegerTy() && !T->getType()->isIntegerTy(1)) {
      r = raw(T->getOperand(0));
      done = true;
    }
  } else if (auto *S = dyn_cast<SExtInst>(V)) {
    // only exact when the operand is known
    (void)S;
  }
  if (!done)
    r = lin(V);
  else {
    // reduce the coefficients modulo 2^width to the symmetric range
    Z m = zpow2(width(V)), h = m / 2;
    auto red = [&](Z &z) {
      Z q;
      mpz_fdiv_r(q.get_mpz_t(), z.get_mpz_t(), m.get_mpz_t());
      if (q >= h)
        q -= m;
      z = q;
    };
    red(r.k);
    for (auto i = r.c.begin(); i != r.c.end();) {
      red(i->second);
      if (i->second == 0)
        i = r.c.erase(i);
      else
        ++i;
    }
  }
  return rawMemo[V] = r;
}

// linear form equal to the (unsigned) value of V
Lin Prover::lin(Value *V) {
  auto it = linMemo.find(V);
  if (it != linMemo.end())
    return it->second;
  if (linActive.count(V))
    return Lin::atom(atom(V));
  unsigned w = width(V);
  Z M = zpow2(w);
  Lin r;
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    r = Lin(toZ(CI->getValue(), false));
    return linMemo[V] = r;
  }
  if (isa<ConstantPointerNull>(V))
    return linMemo[V] = Lin(Z(0));
  linActive.insert(V);
  bool done = false;
  auto modular = [&](const Lin &rw) {
    Z a, b;
    range(rw, a, b);
    if (a >= 0 && b < M)
      return rw;
    // prove that it doesn't wrap
    BasicBlock *B = ctxOf(V);
    bool nonneg = a >= 0 || prove(Lin(Z(0)) - rw, B, 2, 20);
    bool below = b < M || prove(rw - Lin(M - 1), B, 2, 20);
    if (nonneg && below)
      return rw;
    // V = rw - M*K
    auto key = std::make_pair(V, 0);
    int kk;
    auto ka = auxOf.find(key);
    Z kl, kh;
    mpz_fdiv_q(kl.get_mpz_t(), a.get_mpz_t(), M.get_mpz_t());
    mpz_fdiv_q(kh.get_mpz_t(), b.get_mpz_t(), M.get_mpz_t());
    if (nonneg && kl < 0)
      kl = 0;
    if (below && kh > 0)
      kh = 0;
    if (ka == auxOf.end())
      kk = auxOf[key] = newAtom(nullptr, kl, kh);
    else {
      kk = ka->second;
      lo[kk] = kl;
      hi[kk] = kh;
    }
    Lin l = rw;
    l.add(Lin::atom(kk), -M);
    auxDef[kk] = {l, M};
    return l;
  };
  if (auto *BO = dyn_cast<BinaryOperator>(V)) {
    switch (BO->getOpcode()) {
    case Instruction::Add:
    case Instruction::Sub:
      r = modular(raw(V));
      done = true;
      break;
    case Instruction::Mul:
      if (isa<ConstantInt>(BO->getOperand(0)) || isa<ConstantInt>(BO->getOperand(1))) {
        r = modular(raw(V));
        done = true;
      }
      break;
    case Instruction::Shl:
      if (auto *c = dyn_cast<ConstantInt>(BO->getOperand(1)))
        if (c->getValue().ult(w)) {
          r = modular(raw(V));
          done = true;
        }
      break;
    case Instruction::Or:
      if (cast<PossiblyDisjointInst>(BO)->isDisjoint()) {
        r = modular(raw(V));
        done = true;
      }
      break;
    case Instruction::Xor:
      if (auto *c = dyn_cast<ConstantInt>(BO->getOperand(1)))
        if (c->isMinusOne() && w > 1) {
          r = Lin(M - 1) - lin(BO->getOperand(0));
          done = true;
        }
      break;
    case Instruction::SDiv:
    case Instruction::AShr:
    case Instruction::UDiv:
    case Instruction::LShr: {
      auto *c = dyn_cast<ConstantInt>(BO->getOperand(1));
      if (!c || c->isZero())
        break;
      Z d = (BO->getOpcode() == Instruction::SDiv || BO->getOpcode() == Instruction::UDiv)
                ? toZ(c->getValue(), false)
                : zpow2(c->getZExtValue());
      Lin x = lin(BO->getOperand(0));
      bool div = x.k % d == 0;
      for (auto &[a, q] : x.c)
        div &= q % d == 0;
      bool sg = BO->getOpcode() == Instruction::SDiv || BO->getOpcode() == Instruction::AShr;
      if (sg) {
        Z a, b;
        range(x, a, b);
        if (b >= M / 2 && !prove(x - Lin(M / 2 - 1), BO->getParent(), 2, 20))
          break;
        if (a < 0)
          break;
      }
      if (div) {
        r.k = x.k / d;
        for (auto &[a, q] : x.c)
          r.c[a] = q / d;
        done = true;
      }
      break;
    }
    default:
      break;
    }
  } else if (auto *Z1 = dyn_cast<ZExtInst>(V)) {
    r = lin(Z1->getOperand(0));
    done = true;
  } else if (auto *S = dyn_cast<SExtInst>(V)) {
    Lin x = lin(S->getOperand(0));
    unsigned w0 = width(S->getOperand(0));
    Z a, b;
    range(x, a, b);
    if (b < zpow2(w0 - 1) || (w0 > 1 && prove(x - Lin(zpow2(w0 - 1) - 1), S->getParent(), 2, 20))) {
      r = x;
      done = true;
    }
  } else if (auto *T = dyn_cast<TruncInst>(V)) {
    if (T->getSrcTy()->isIntegerTy() && w > 1) {
      Lin x = lin(T->getOperand(0));
      Z a, b;
      range(x, a, b);
      if (b < M && a >= 0)
        r = x;
      else
        r = modular(raw(V));
      done = true;
    }
  } else if (auto *Fz = dyn_cast<FreezeInst>(V)) {
    r = lin(Fz->getOperand(0));
    done = true;
  } else if (auto *P = dyn_cast<PHINode>(V)) {
    // all incoming values equal
    if (P->getNumIncomingValues() == 1) {
      r = lin(P->getIncomingValue(0));
      done = true;
    }
  }
  linActive.erase(V);
  if (!done)
    r = Lin::atom(atom(V));
  return linMemo[V] = r;
}

void Prover::resetMemo() {
  linMemo.clear();
  rawMemo.clear();
  own.clear();
  after.clear();
  memo.clear();
}

// definitional facts of an atom
void Prover::defs(int a, Facts &out) {
  Value *V = atomVal[a];
  if (!V) {
    auto it = auxDef.find(a);
    if (it != auxDef.end()) {
      out.push_back({Lin(Z(0)) - it->second.first, false});
      out.push_back({it->second.first - Lin(it->second.second - 1), false});
    }
    return;
  }
  Lin v = Lin::atom(a);
  auto le = [&](const Lin &l) { out.push_back({l, false}); };
  if (auto *BO = dyn_cast<BinaryOperator>(V)) {
    Value *x = BO->getOperand(0), *y = BO->getOperand(1);
    auto *c = dyn_cast<ConstantInt>(y);
    switch (BO->getOpcode()) {
    case Instruction::And:
      if (width(V) == 1)
        return;
      le(v - lin(x));
      le(v - lin(y));
      break;
    case Instruction::Or:
      if (width(V) == 1)
        return;
      le(lin(x) - v);
      le(lin(y) - v);
      le(v - lin(x) - lin(y));
      break;
    case Instruction::LShr:
    case Instruction::UDiv:
      if (c && !c->isZero()) {
        Z d = BO->getOpcode() == Instruction::UDiv ? toZ(c->getValue(), false) : zpow2(c->getZExtValue());
        le(v.scaled(d) - lin(x));
        le(lin(x) - v.scaled(d) - Lin(d - 1));
      } else
        le(v - lin(x));
      break;
    case Instruction::AShr:
    case Instruction::SDiv:
      if (c && !c->isZero() && !c->isNegative()) {
        Lin X = lin(x);
        Z A, B;
        range(X, A, B);
        Z M = zpow2(width(V));
        if (B < M / 2 || prove(X - Lin(M / 2 - 1), BO->getParent(), 2, 20)) {
          Z d = BO->getOpcode() == Instruction::SDiv ? toZ(c->getValue(), false) : zpow2(c->getZExtValue());
          le(v.scaled(d) - X);
          le(X - v.scaled(d) - Lin(d - 1));
        }
      }
      break;
    case Instruction::URem:
      le(v - lin(x));
      if (c)
        le(v - Lin(toZ(c->getValue(), false) - 1));
      else
        le(v + Lin(Z(1)) - lin(y));
      break;
    default:
      break;
    }
  } else if (auto *II = dyn_cast<IntrinsicInst>(V)) {
    auto A = [&](int i) { return lin(II->getArgOperand(i)); };
    switch (II->getIntrinsicID()) {
    case Intrinsic::umin:
      le(v - A(0));
      le(v - A(1));
      break;
    case Intrinsic::umax:
      le(A(0) - v);
      le(A(1) - v);
      break;
    case Intrinsic::usub_sat:
      le(v - A(0));
      le(A(0) - A(1) - v);
      break;
    default:
      break;
    }
  } else if (auto *L = dyn_cast<LoadInst>(V)) {
    if (auto *MD = L->getMetadata(LLVMContext::MD_range)) {
      auto *h = mdconst::extract<ConstantInt>(MD->getOperand(1));
      le(v - Lin(toZ(h->getValue(), false) - 1));
    }
  }
}

// What a merge of comparisons says of the merged values
const Prover::Facts &Prover::liftPhi(PHINode *P, bool val) {
  auto key = std::make_pair(P, val);
  auto it = lifted.find(key);
  if (it != lifted.end())
    return it->second;
  lifted[key]; // nothing while it is being computed
  BasicBlock *X = P->getParent();
  unsigned n = P->getNumIncomingValues();
  if (n > 24)
    return lifted[key];
  std::vector<Facts> own(n), edge(n);
  std::vector<char> skip(n);
  for (unsigned i = 0; i < n; ++i) {
    auto *c = dyn_cast<ConstantInt>(P->getIncomingValue(i));
    if (c) {
      skip[i] = c->isOne() != val;
    } else
      factsOfCond(P->getIncomingValue(i), val, own[i], 1);
    edgeFacts(P->getIncomingBlock(i), X, edge[i]);
  }
  std::set<Lin> seen;
  Facts res;
  for (unsigned i = 0; i < n; ++i)
    for (auto &f : own[i]) {
      if (f.ne || f.l.c.size() > 4)
        continue;
      Lin l;
      l.k = f.l.k;
      bool ok = true, phi = false;
      for (auto &[x, co] : f.l.c) {
        int to = -1;
        for (auto &Q : X->phis())
          if (Q.getType()->isIntegerTy() && width(&Q) >= 8) {
            Lin q = lin(Q.getIncomingValueForBlock(P->getIncomingBlock(i)));
            if (q.k == 0 && q.c.size() == 1 && q.c.begin()->first == x && q.c.begin()->second == 1) {
              to = atom(&Q);
              phi = true;
              break;
            }
          }
        if (to < 0) {
          auto *I = atomVal[x] ? dyn_cast<Instruction>(atomVal[x]) : nullptr;
          if (!atomVal[x] || (I && (I->getParent() == X || !DT.dominates(I->getParent(), X)))) {
            ok = false;
            break;
          }
          to = x;
        }
        l.add(Lin::atom(to), co);
      }
      if (!ok || !phi || !seen.insert(l).second || seen.size() > 8)
        continue;
      for (unsigned j = 0; ok && j < n; ++j) {
        if (skip[j])
          continue;
        Lin s;
        s.k = l.k;
        for (auto &[x, co] : l.c) {
          auto *Q = atomVal[x] ? dyn_cast<PHINode>(atomVal[x]) : nullptr;
          s.add(Q && Q->getParent() == X ? lin(Q->getIncomingValueForBlock(P->getIncomingBlock(j))) : Lin::atom(x), co);
        }
        Query q;
        q.facts = own[j];
        q.facts.insert(q.facts.end(), edge[j].begin(), edge[j].end());
        q.facts.push_back({Lin(Z(1)) - s, false});
        int budget = 10;
        ok = refute(std::move(q), 2, budget);
      }
      if (ok)
        res.push_back({l, false});
    }
  return lifted[key] = res;
}
void Prover::factsOfCond(Value *Cv, bool val, Facts &out, int depth) {
  if (depth > 6)
    return;
  if (auto *Fz = dyn_cast<FreezeInst>(Cv))
    return factsOfCond(Fz->getOperand(0), val, out, depth + 1);
  if (auto *c = dyn_cast<ConstantInt>(Cv)) {
    if (c->isOne() != val)
      out.push_back({Lin(Z(1)), false}); // contradiction
    return;
  }
  if (auto *BO = dyn_cast<BinaryOperator>(Cv)) {
    if (BO->getOpcode() == Instruction::Xor) {
      if (auto *c = dyn_cast<ConstantInt>(BO->getOperand(1)))
        return factsOfCond(BO->getOperand(0), val != c->isOne(), out, depth + 1);
    }
    if ((BO->getOpcode() == Instruction::And && val) || (BO->getOpcode() == Instruction::Or && !val)) {
      factsOfCond(BO->getOperand(0), val, out, depth + 1);
      factsOfCond(BO->getOperand(1), val, out, depth + 1);
      return;
    }
  }
  if (auto *S = dyn_cast<SelectInst>(Cv)) {
    auto *t = dyn_cast<ConstantInt>(S->getTrueValue()), *f = dyn_cast<ConstantInt>(S->getFalseValue());
    // c ? x : false
    if (f && f->isZero() && val) {
      factsOfCond(S->getCondition(), true, out, depth + 1);
      factsOfCond(S->getTrueValue(), true, out, depth + 1);
      return;
    }
    // c ? true : x
    if (t && t->isOne() && !val) {
      factsOfCond(S->getCondition(), false, out, depth + 1);
      factsOfCond(S->getFalseValue(), false, out, depth + 1);
      return;
    }
    // c ? false : x
    if (t && t->isZero() && val) {
      factsOfCond(S->getCondition(), false, out, depth + 1);
      factsOfCond(S->getFalseValue(), true, out, depth + 1);
      return;
    }
    // c ? x : true
    if (f && f->isOne() && !val) {
      factsOfCond(S->getCondition(), true, out, depth + 1);
      factsOfCond(S->getTrueValue(), false, out, depth + 1);
      return;
    }
  }
  if (auto *P = dyn_cast<PHINode>(Cv)) {
    // only one incoming edge can give this value
    if (LI.isLoopHeader(P->getParent()))
      return;
    int idx = -1;
    for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
      auto *c = dyn_cast<ConstantInt>(P->getIncomingValue(i));
      if (c && c->isOne() != val)
        continue;
      if (idx >= 0) {
        auto &l = liftPhi(P, val);
        out.insert(out.end(), l.begin(), l.end());
        return;
      }
      idx = i;
    }
    if (idx < 0)
      return;
    BasicBlock *B = P->getIncomingBlock(idx);
    Facts f;
    blockFacts(B, f);
    edgeFacts(B, P->getParent(), f);
    out.insert(out.end(), f.begin(), f.end());
    factsOfCond(P->getIncomingValue(idx), val, out, depth + 1);
    return;
  }
  auto *C = dyn_cast<ICmpInst>(Cv);
  if (!C) {
    // the truth value itself
    if (Cv->getType()->isIntegerTy(1)) {
      Lin l = Lin::atom(atom(Cv));
      if (val)
        out.push_back({Lin(Z(1)) - l, false});
      else
        out.push_back({l, false});
    }
    return;
  }
  if (!C->getOperand(0)->getType()->isIntegerTy() && !C->getOperand(0)->getType()->isPointerTy())
    return;
  auto pred = val ? C->getPredicate() : C->getInversePredicate();
  Lin a = lin(C->getOperand(0)), b = lin(C->getOperand(1));
  unsigned w = width(C->getOperand(0));
  if (ICmpInst::isSigned(pred)) {
    Z h = zpow2(w - 1), al, ah, bl, bh;
    range(a, al, ah);
    range(b, bl, bh);
    auto nonneg = [&](const Lin &l, const Z &top) { return top < h || prove(l - Lin(h - 1), C->getParent(), 1, 10); };
    auto *cb = dyn_cast<ConstantInt>(C->getOperand(1));
    bool an = nonneg(a, ah), bn = !(cb && cb->isNegative()) && nonneg(b, bh);
    if (an && bn)
      pred = ICmpInst::getUnsignedPredicate(pred);
    else if (cb && cb->isMinusOne() && pred == ICmpInst::ICMP_SGT) { // a >= 0
      out.push_back({a - Lin(h - 1), false});
      return;
    } else if (cb && cb->isZero() && pred == ICmpInst::ICMP_SGE) {
      out.push_back({a - Lin(h - 1), false});
      return;
    } else if (cb && cb->isZero() && pred == ICmpInst::ICMP_SLT) {
      out.push_back({Lin(h) - a, false});
      return;
    } else if (cb && bn && !cb->isNegative() && (pred == ICmpInst::ICMP_SGT || pred == ICmpInst::ICMP_SGE)) {
      out.push_back({a - Lin(h - 1), false});
      out.push_back({b - a + Lin(Z(pred == ICmpInst::ICMP_SGT ? 1 : 0)), false});
      return;
    } else
      return;
  }
  switch (pred) {
  case ICmpInst::ICMP_EQ:
    out.push_back({a - b, false});
    out.push_back({b - a, false});
    break;
  case ICmpInst::ICMP_NE:
    out.push_back({a - b, true});
    break;
  case ICmpInst::ICMP_ULT:
    out.push_back({a - b + Lin(Z(1)), false});
    break;
  case ICmpInst::ICMP_ULE:
    out.push_back({a - b, false});
    break;
  case ICmpInst::ICMP_UGT:
    out.push_back({b - a + Lin(Z(1)), false});
    break;
  case ICmpInst::ICMP_UGE:
    out.push_back({b - a, false});
    break;
  default:
    break;
  }
}

void Prover::edgeFacts(BasicBlock *P, BasicBlock *S, Facts &out) {
  auto *T = P->getTerminator();
  if (auto *Br = dyn_cast<BranchInst>(T)) {
    if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
      factsOfCond(Br->getCondition(), Br->getSuccessor(0) == S, out);
  } else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
    Lin c = lin(Sw->getCondition());
    std::vector<Z> vals;
    bool def = Sw->getDefaultDest() == S;
    for (auto &cs : Sw->cases())
      if (cs.getCaseSuccessor() == S)
        vals.push_back(toZ(cs.getCaseValue()->getValue(), false));
    if (def) {
      if (vals.empty())
        for (auto &cs : Sw->cases())
          out.push_back({c - Lin(toZ(cs.getCaseValue()->getValue(), false)), true});
    } else if (!vals.empty()) {
      Z mn = *std::min_element(vals.begin(), vals.end()), mx = *std::max_element(vals.begin(), vals.end());
      out.push_back({c - Lin(mx), false});
      out.push_back({Lin(mn) - c, false});
    }
  }
  if (P->getTerminator()->getNumSuccessors() == 0)
    return;
}

const Prover::Facts &Prover::ownFacts(BasicBlock *B) {
  auto it = own.find(B);
  if (it != own.end())
    return it->second;
  own[B]; // recursion: no facts
  Facts f;
  if (BasicBlock *P = B->getSinglePredecessor()) {
    edgeFacts(P, B, f);
    // an assumption made at the end of the predecessor
    for (auto &I : *P)
      if (auto *CI = dyn_cast<CallInst>(&I))
        if (isVF(CI->getCalledOperand(), "vf_assume"))
          factsOfCond(CI->getArgOperand(0), true, f);
  }
  return own[B] = f;
}

// obligations met in a block hold after it: the first one that does not hold
// on an execution is reported, the others can rely on it
void Prover::checkFacts(BasicBlock *B, Facts &out, Instruction *upTo) {
  auto it = after.find(B);
  if (it != after.end() && !upTo) {
    out.insert(out.end(), it->second.begin(), it->second.end());
    return;
  }
  if (!upTo)
    after[B];
  Facts f;
  std::set<Lin> seen;
  for (auto &I : *B) {
    if (&I == upTo)
      break;
    if (auto *CI = dyn_cast<CallInst>(&I))
      if (auto *T = calledFn(CI))
        if (T->getName().starts_with("vf_check_")) {
          Lin l = lin(CI->getArgOperand(0)) + lin(CI->getArgOperand(1)) - lin(CI->getArgOperand(2));
          if (!l.isConst() && seen.insert(l).second)
            f.push_back({l, false});
        } else if (T->getName().starts_with("vf_assert") && !isa<ConstantInt>(CI->getArgOperand(0)))
          factsOfCond(CI->getArgOperand(0), true, f);
  }
  out.insert(out.end(), f.begin(), f.end());
  if (!upTo)
    after[B] = f;
}

void Prover::blockFacts(BasicBlock *B, Facts &out) {
  auto *N = DT.getNode(B);
  while (N) {
    if (N->getBlock() != B)
      checkFacts(N->getBlock(), out);
    auto &f = ownFacts(N->getBlock());
    out.insert(out.end(), f.begin(), f.end());
    auto it = inv.find(N->getBlock());
    if (it != inv.end())
      for (size_t i = 0; i < it->second.size(); ++i)
        if (it->second[i].second) {
          auto &id = invId[{N->getBlock(), (int)i}];
          if (!id)
            id = (int)invId.size();
          out.push_back({it->second[i].first, false, id});
        }
    N = N->getIDom();
  }
  out.insert(out.end(), extra.begin(), extra.end());
}

// The ways to reach a block: through the edges of the joins that dominate it, and
// through the operands of the disjunctions taken.
void Prover::ways(BasicBlock *B, std::vector<std::vector<Facts>> &out) {
  auto disj = [&](Value *c, bool val, std::vector<std::vector<Facts>> &out) {
    if (auto *Fz = dyn_cast<FreezeInst>(c))
      c = Fz->getOperand(0);
    Value *a = nullptr, *b = nullptr;
    if (auto *BO = dyn_cast<BinaryOperator>(c)) {
      if (BO->getOpcode() == (val ? Instruction::Or : Instruction::And))
        a = BO->getOperand(0), b = BO->getOperand(1);
    } else if (auto *S = dyn_cast<SelectInst>(c)) {
      auto *t = dyn_cast<ConstantInt>(S->getTrueValue()), *f = dyn_cast<ConstantInt>(S->getFalseValue());
      if (val ? t && t->isOne() : f && f->isZero())
        a = S->getCondition(), b = val ? S->getFalseValue() : S->getTrueValue();
    }
    if (!a)
      return;
    std::vector<Facts> alt(2);
    factsOfCond(a, val, alt[0]);
    factsOfCond(a, !val, alt[1]);
    factsOfCond(b, val, alt[1]);
    out.push_back(alt);
  };
  // the ways to get to a join
  std::function<void(BasicBlock *, std::vector<Facts> &, int)> comings = [&](BasicBlock *X, std::vector<Facts> &alt, int depth) {
    std::set<BasicBlock *> seen;
    auto *stop = DT.getNode(X)->getIDom();
    for (auto *P : predecessors(X)) {
      if (!seen.insert(P).second || !DT.getNode(P))
        continue;
      Facts base;
      blockFacts(P, base);
      checkFacts(P, base);
      edgeFacts(P, X, base);
      for (auto &Ph : X->phis())
        if (Ph.getType()->isIntegerTy() && !Ph.getType()->isIntegerTy(1)) {
          Lin d = lin(&Ph) - lin(Ph.getIncomingValueForBlock(P));
          base.push_back({d, false});
          base.push_back({Lin(Z(0)) - d, false});
        }
      // the disjunctions on the way to it
      std::vector<std::vector<Facts>> more;
      auto cond = [&](BasicBlock *A, BasicBlock *S) {
        if (auto *Br = dyn_cast<BranchInst>(A->getTerminator()))
          if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
            disj(Br->getCondition(), Br->getSuccessor(0) == S, more);
      };
      cond(P, X);
      int k = 0;
      for (auto *M = DT.getNode(P); M && M != stop && k < 4; M = M->getIDom(), ++k)
        if (auto *A = M->getBlock()->getSinglePredecessor())
          cond(A, M->getBlock());
      std::vector<Facts> all{base};
      if (more.empty() && depth < 3 && DT.getNode(P) != stop && !LI.isLoopHeader(P) && pred_size(P) > 1 && pred_size(P) <= 24) {
        std::vector<Facts> sub;
        comings(P, sub, depth + 1);
        all.clear();
        for (auto &s : sub) {
          all.push_back(base);
          all.back().insert(all.back().end(), s.begin(), s.end());
        }
      } else if (!more.empty() && more.size() <= 2)
        for (auto &d : more) {
          std::vector<Facts> nx;
          for (auto &a : all)
            for (auto &e : d) {
              nx.push_back(a);
              nx.back().insert(nx.back().end(), e.begin(), e.end());
            }
          all = nx;
        }
      alt.insert(alt.end(), all.begin(), all.end());
    }
  };
  int n = 0;
  for (auto *N = DT.getNode(B); N && n < 12 && out.size() < 6; N = N->getIDom(), ++n) {
    auto *X = N->getBlock();
    if (auto *P = X->getSinglePredecessor()) {
      if (auto *Br = dyn_cast<BranchInst>(P->getTerminator()))
        if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
          disj(Br->getCondition(), Br->getSuccessor(0) == X, out);
    } else if (!LI.isLoopHeader(X) && pred_size(X) > 1 && pred_size(X) <= 24) {
      std::vector<Facts> alt;
      comings(X, alt, 0);
      out.push_back(alt);
    }
  }
}
// At the head of a loop: on each edge to it, with the values the phis get there
bool Prover::proveAtHead(Value *C, BasicBlock *H) {
  if (!LI.isLoopHeader(H) || isa<Constant>(C))
    return false;
  Loop *L = LI.getLoopFor(H);
  if (auto *Ph = dyn_cast<PHINode>(C)) {
    if (Ph->getParent() != H)
      return false;
    for (auto *P : predecessors(H)) {
      extra.clear();
      checkFacts(P, extra);
      edgeFacts(P, H, extra);
      seedsMore = extra;
      bool ok = proveCond(Ph->getIncomingValueForBlock(P), P);
      seedsMore.clear();
      if (!ok)
        return false;
    }
    return true;
  }
  Facts neg;
  factsOfCond(C, false, neg);
  if (neg.empty())
    return false;
  for (auto &f : neg)
    for (auto &[x, co] : f.l.c) {
      Value *v = atomVal[x];
      if (!v)
        return false;
      auto *I = dyn_cast<Instruction>(v);
      if (I && L->contains(I) && !(isa<PHINode>(I) && I->getParent() == H))
        return false;
    }
  extra.clear();
  for (auto *P : predecessors(H)) {
    Facts sub;
    for (auto &f : neg) {
      Lin l;
      l.k = f.l.k;
      for (auto &[x, co] : f.l.c) {
        auto *Ph = dyn_cast<PHINode>(atomVal[x]);
        if (Ph && Ph->getParent() == H)
          l.add(lin(Ph->getIncomingValueForBlock(P)), co);
        else
          l.add(Lin::atom(x), co);
      }
      sub.push_back({l, f.ne});
    }
    auto none = [&](const Facts &s) {
      Query q;
      blockFacts(P, q.facts);
      checkFacts(P, q.facts);
      edgeFacts(P, H, q.facts);
      q.facts.insert(q.facts.end(), s.begin(), s.end());
      int budget = 600;
      return refute(std::move(q), 9, budget);
    };
    bool ok;
    if (sub.size() == 1 && sub[0].ne)
      ok = none({{Lin(Z(1)) - sub[0].l, false}}) && none({{sub[0].l + Lin(Z(1)), false}});
    else
      ok = none(sub);
    if (!ok)
      return false;
  }
  return true;
}
bool Prover::proveAssert(CallInst *CI) {
  auto *B = CI->getParent();
  auto *C = CI->getArgOperand(0);
  Facts before;
  checkFacts(B, before, CI);
  extra = before;
  wide = true;
  bool ok = proveCond(C, B) || (!isa<Constant>(C) && unreachable(B)) || proveAtHead(C, B);
  if (!ok) {
    std::vector<std::vector<Facts>> ws;
    ways(B, ws);
    for (auto &w : ws) {
      bool all = true;
      for (auto &alt : w) {
        extra = before;
        extra.insert(extra.end(), alt.begin(), alt.end());
        seedsMore = alt;
        if (!proveCond(C, B) && !unreachable(B)) {
          bool one = false;
          for (auto &w2 : ws)
            if (&w2 != &w && !one) {
              bool a2 = true;
              for (auto &alt2 : w2) {
                extra = before;
                extra.insert(extra.end(), alt.begin(), alt.end());
                extra.insert(extra.end(), alt2.begin(), alt2.end());
                seedsMore = alt2;
                if (!proveCond(C, B) && !unreachable(B)) {
                  a2 = false;
                  break;
                }
              }
              one = a2;
            }
          if (!one) {
            all = false;
            break;
          }
        }
      }
      if (all) {
        ok = true;
        break;
      }
    }
  }
  extra.clear();
  seedsMore.clear();
  wide = false;
  return ok;
}

static void normalizeFact(Lin &l, bool ne) {
  // divide by the gcd of the coefficients (integers)
  if (l.c.empty())
    return;
  Z g = 0;
  for (auto &[a, c] : l.c)
    mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t());
  if (g > 1) {
    if (ne && l.k % g != 0) {
      l = Lin(Z(1)); // always different
      return;
    }
    for (auto &[a, c] : l.c)
      c /= g;
    Z q;
    mpz_cdiv_q(q.get_mpz_t(), l.k.get_mpz_t(), g.get_mpz_t());
    l.k = q;
  }
}

bool Prover::refute(Query q, int depth, int &budget) {
  if (--budget < 0)
    return false;
  // cone: the last facts (goal) are at the end
  Facts all = q.facts;
  std::set<std::pair<Lin, bool>> seen;
  Facts fs;
  for (auto &f : all) {
    normalizeFact(f.l, f.ne);
    if (f.l.isConst()) {
      if (!f.ne && f.l.k > 0)
        return true;
      if (f.ne && f.l.k == 0)
        return true;
      continue;
    }
    if (seen.insert({f.l, f.ne}).second)
      fs.push_back(f);
  }
  std::set<int> cone;
  std::vector<char> used(fs.size(), 0);
  for (auto &f : fs)
    ;
  // seeds: atoms of the goal facts (marked by splitDone containing nothing); we
  // use the last fact as the seed
  if (fs.empty())
    return false;
  std::vector<int> work;
  auto addAtom = [&](int a) {
    if (cone.insert(a).second)
      work.push_back(a);
  };
  Facts conFacts;
  for (auto &[a, c] : all.back().l.c)
    addAtom(a);
  for (auto &l : q.seeds)
    for (auto &[a, c] : l.c)
      addAtom(a);
  // contradictions may also come from the last facts added by the splits
  std::map<int, std::vector<size_t>> byAtom;
  for (size_t i = 0; i < fs.size(); ++i)
    for (auto &[a, c] : fs[i].l.c)
      byAtom[a].push_back(i);
  std::set<int> defDone;
  std::map<int, int> dist;
  for (int a : work)
    dist[a] = 0;
  size_t head = 0;
  Facts use;
  while (head < work.size()) {
    int a = work[head++];
    int d = dist[a];
    if (d > 5 || use.size() > 160)
      continue;
    auto addFact = [&](const Fact &f) {
      use.push_back(f);
      for (auto &[b, c] : f.l.c)
        if (cone.insert(b).second) {
          work.push_back(b);
          dist[b] = d + 1;
        }
    };
    for (size_t i : byAtom[a])
      if (!used[i]) {
        used[i] = 1;
        addFact(fs[i]);
      }
    if (defDone.insert(a).second) {
      Facts df;
      defs(a, df);
      for (auto &f : df) {
        normalizeFact(f.l, f.ne);
        if (f.l.isConst()) {
          if (!f.ne && f.l.k > 0)
            return true;
          continue;
        }
        addFact(f);
      }
    }
  }
  auto infeasible = [&](const Lin *extra) {
    ++nLP;
    LP lp;
    std::map<int, int> var;
    auto v = [&](int a) {
      auto it = var.find(a);
      if (it != var.end())
        return it->second;
      int x = lp.newVar();
      lp.setLo(x, Q(lo[a]));
      lp.setHi(x, Q(hi[a]));
      return var[a] = x;
    };
    auto add = [&](const Lin &l, int id) {
      std::map<int, Q> row;
      for (auto &[a, c] : l.c)
        row[v(a)] = Q(c);
      lp.addLe(row, Q(-l.k), id);
    };
    for (auto &f : use)
      if (!f.ne)
        for (auto &[a, c] : f.l.c)
          v(a);
    for (auto &f : use)
      if (!f.ne)
        add(f.l, f.inv);
    if (extra)
      add(*extra, -1);
    if (lp.feasible())
      return false;
    for (int id : lp.core)
      if (id >= 0)
        deps.insert(id);
    return true;
  };
  if (infeasible(nullptr))
    return true;
  // disequalities that became one sided
  bool ch = true;
  int guard = 0;
  while (ch && guard++ < 6) {
    ch = false;
    for (size_t i = 0; i < use.size(); ++i)
      if (use[i].ne) {
        Lin up = use[i].l + Lin(Z(1));                 // l <= -1
        Lin dn = Lin(Z(1)) - use[i].l;                 // l >= 1
        bool noLess = infeasible(&up), noMore = infeasible(&dn);
        if (noLess && noMore)
          return true;
        if (noLess) {
          use.push_back({dn, false});
          use[i].ne = false;
          use[i].l = dn;
          ch = true;
        } else if (noMore) {
          use.push_back({up, false});
          use[i].ne = false;
          use[i].l = up;
          ch = true;
        }
      }
    if (ch && infeasible(nullptr))
      return true;
  }
  // wrap counts
  Facts tight;
  std::map<int, std::pair<Z, Z>> kr;
  {
    bool chg = false;
    int n = 0;
    for (int a : work)
      if (!atomVal[a] && dist[a] <= 3 && n < 4) {
        Z l = lo[a], h = hi[a];
        for (auto &f : use)
          if (!f.ne && f.l.c.size() == 1 && f.l.c.begin()->first == a) {
            auto &c = f.l.c.begin()->second;
            Z q;
            if (c > 0) { // a <= -k/c
              Z m = -f.l.k;
              mpz_fdiv_q(q.get_mpz_t(), m.get_mpz_t(), c.get_mpz_t());
              if (q < h)
                h = q;
            } else {
              Z m = f.l.k, d = -c;
              mpz_cdiv_q(q.get_mpz_t(), m.get_mpz_t(), d.get_mpz_t());
              if (q > l)
                l = q;
            }
          }
        if (l < h) {
          ++n;
          Lin up = Lin::atom(a) + Lin(Z(1)), dn = Lin(Z(1)) - Lin::atom(a);
          if (l < 0 && infeasible(&up))
            l = 0;
          if (h > 0 && infeasible(&dn))
            h = 0;
          if (l > lo[a]) {
            tight.push_back({Lin(l) - Lin::atom(a), false});
            chg = true;
          }
          if (h < hi[a]) {
            tight.push_back({Lin::atom(a) - Lin(h), false});
            chg = true;
          }
        }
        kr[a] = {l, h};
      }
    use.insert(use.end(), tight.begin(), tight.end());
    if (chg && infeasible(nullptr))
      return true;
  }
  if (depth <= 0 || budget <= 0)
    return false;
  // --- splits, nearest atoms first
  std::vector<int> order(work.begin(), work.end());
  auto withFacts = [&](const Facts &extra, int splitKey) {
    Query n;
    n.facts = extra;
    n.facts.insert(n.facts.end(), tight.begin(), tight.end());
    n.facts.insert(n.facts.end(), q.facts.begin(), q.facts.end());
    n.splitDone = q.splitDone;
    n.splitDone.insert(splitKey);
    n.seeds = q.seeds;
    int few = wide ? 0 : 4;
    for (auto &f : extra)
      if (few++ < 4)
        n.seeds.push_back(f.l);
    return n;
  };
  int tried = 0;
  for (int a : order) {
    if (budget <= 0 || tried >= 6)
      return false;
    if (q.splitDone.count(a) || dist[a] > 4)
      continue;
    Value *V = atomVal[a];
    if (!V) {
      // wrap count
      auto it = kr.find(a);
      if (it == kr.end() || it->second.first == it->second.second)
        continue;
      ++tried;
      auto [l, h] = it->second;
      std::vector<Facts> parts;
      if (h - l <= 2) {
        for (Z k = l; k <= h; ++k)
          parts.push_back({{Lin::atom(a) - Lin(k), false}, {Lin(k) - Lin::atom(a), false}});
      } else {
        parts.push_back({{Lin::atom(a) + Lin(Z(1)), false}});
        parts.push_back({{Lin::atom(a), false}, {Lin(Z(0)) - Lin::atom(a), false}});
        parts.push_back({{Lin(Z(1)) - Lin::atom(a), false}});
      }
      bool all2 = true;
      for (auto &f : parts)
        if (!refute(withFacts(f, a), depth - 1, budget)) {
          all2 = false;
          break;
        }
      if (all2)
        return true;
      return false; // exhaustive: no other split order would help much
    }
    std::vector<Facts> branches;
    if (auto *S = dyn_cast<SelectInst>(V)) {
      for (int t = 0; t < 2; ++t) {
        Facts f;
        factsOfCond(S->getCondition(), t == 0, f);
        Lin e = Lin::atom(a) - lin(t == 0 ? S->getTrueValue() : S->getFalseValue());
        f.push_back({e, false});
        f.push_back({Lin(Z(0)) - e, false});
        branches.push_back(f);
      }
    } else if (auto *II = dyn_cast<IntrinsicInst>(V)) {
      auto id = II->getIntrinsicID();
      if (id == Intrinsic::umin || id == Intrinsic::umax) {
        for (int t = 0; t < 2; ++t) {
          Lin e = Lin::atom(a) - lin(II->getArgOperand(t));
          Facts f{{e, false}, {Lin(Z(0)) - e, false}};
          branches.push_back(f);
        }
      } else if (id == Intrinsic::usub_sat) {
        Lin e = Lin::atom(a) - lin(II->getArgOperand(0)) + lin(II->getArgOperand(1));
        branches.push_back({{e, false}, {Lin(Z(0)) - e, false}});
        branches.push_back({{Lin::atom(a), false}});
      }
    } else if (auto *P = dyn_cast<PHINode>(V)) {
      if (!LI.isLoopHeader(P->getParent()) && P->getNumIncomingValues() <= 24) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
          BasicBlock *B = P->getIncomingBlock(i);
          Facts f;
          // all the phis of the block in the cone
          for (auto &P2 : P->getParent()->phis()) {
            auto it = atomOf.find(&P2);
            if (it == atomOf.end() || !cone.count(it->second))
              continue;
            Value *iv = P2.getIncomingValueForBlock(B);
            if (isa<UndefValue>(iv) || !iv->getType()->isIntegerTy())
              continue;
            Lin e = Lin::atom(it->second) - lin(iv);
            f.push_back({e, false});
            f.push_back({Lin(Z(0)) - e, false});
          }
          edgeFacts(B, P->getParent(), f);
          blockFacts(B, f);
          branches.push_back(f);
        }
      }
    } else if (isa<ZExtInst>(V) || isa<ICmpInst>(V)) {
      if (V->getType()->isIntegerTy(1) && isa<ICmpInst>(V)) {
        for (int t = 0; t < 2; ++t) {
          Facts f;
          factsOfCond(V, t, f);
          Lin e = Lin::atom(a) - Lin(Z(t));
          f.push_back({e, false});
          f.push_back({Lin(Z(0)) - e, false});
          branches.push_back(f);
        }
      }
    }
    if (branches.empty())
      continue;
    ++tried;
    bool allOk = true;
    std::set<int> block;
    for (auto &f : branches) {
      Query n = withFacts(f, a);
      if (auto *P = dyn_cast<PHINode>(V))
        for (auto &P2 : P->getParent()->phis()) {
          auto it = atomOf.find(&P2);
          if (it != atomOf.end())
            n.splitDone.insert(it->second);
        }
      if (!refute(std::move(n), depth - 1, budget)) {
        allOk = false;
        break;
      }
    }
    if (allOk)
      return true;
  }
  // split a disequality
  int nd = 0;
  for (auto &f : use)
    if (f.ne && nd++ < 2) {
      Facts f1{{f.l + Lin(Z(1)), false}}, f2{{Lin(Z(1)) - f.l, false}};
      Query n1 = withFacts(f1, -1), n2 = withFacts(f2, -1);
      auto drop = [&](Query &n) {
        for (auto &x : n.facts)
          if (x.ne) {
            Lin y = x.l;
            normalizeFact(y, true);
            if (y == f.l) {
              x.ne = false;
              x.l = Lin(Z(-1));
            }
          }
      };
      drop(n1);
      drop(n2);
      if (refute(n1, depth - 1, budget) && refute(n2, depth - 1, budget))
        return true;
    }
  return false;
}

bool Prover::prove(const Lin &le, BasicBlock *B, int depth, int budget, const Facts *more) {
  if (le.isConst())
    return le.k <= 0;
  Z a, b;
  range(le, a, b);
  if (b <= 0)
    return true;
  Query q;
  blockFacts(B, q.facts);
  if (more)
    q.facts.insert(q.facts.end(), more->begin(), more->end());
  q.facts.push_back({Lin(Z(1)) - le, false}); // le >= 1
  return refute(std::move(q), depth, budget);
}

bool Prover::proveEdge(const Lin &le, BasicBlock *P, BasicBlock *S, int depth, int budget) {
  if (le.isConst() && le.k <= 0)
    return true;
  Z a, b;
  range(le, a, b);
  if (b <= 0)
    return true;
  Query q;
  blockFacts(P, q.facts);
  checkFacts(P, q.facts);
  edgeFacts(P, S, q.facts);
  q.facts.push_back({Lin(Z(1)) - le, false});
  return refute(std::move(q), depth, budget);
}

bool Prover::unreachable(BasicBlock *B) {
  // contradiction among the facts of the block, seeded by each own fact
  auto *N = DT.getNode(B);
  if (!N)
    return true;
  Facts base;
  blockFacts(B, base);
  std::vector<Fact> seeds;
  for (int up = 0; N && up < 6; ++up, N = N->getIDom())
    for (auto &f : ownFacts(N->getBlock()))
      if (!f.ne)
        seeds.push_back(f);
      else
        seeds.push_back(f);
  seeds.insert(seeds.begin(), seedsMore.begin(), seedsMore.end());
  int n = 0;
  for (auto &s : seeds) {
    if (n++ > 6 + (int)seedsMore.size())
      break;
    Query q;
    q.facts = base;
    q.facts.push_back(s);
    int budget = 60;
    if (refute(std::move(q), 4, budget))
      return true;
  }
  return false;
}

bool Prover::proveCond(Value *C, BasicBlock *B) {
  if (auto *c = dyn_cast<ConstantInt>(C)) {
    if (c->isOne())
      return true;
    return unreachable(B);
  }
  // conjunctions
  if (auto *S = dyn_cast<SelectInst>(C)) {
    auto *f = dyn_cast<ConstantInt>(S->getFalseValue());
    if (f && f->isZero())
      return proveCond(S->getCondition(), B) && proveCond(S->getTrueValue(), B);
  }
  if (auto *BO = dyn_cast<BinaryOperator>(C))
    if (BO->getOpcode() == Instruction::And)
      return proveCond(BO->getOperand(0), B) && proveCond(BO->getOperand(1), B);
  Facts neg;
  factsOfCond(C, false, neg);
  if (neg.empty())
    return false;
  if (neg.size() == 2 && !neg[0].ne && !neg[1].ne) {
    // negation of a != : equality
    Query q;
    blockFacts(B, q.facts);
    q.facts.push_back(neg[0]);
    q.facts.push_back(neg[1]);
    int budget = 160;
    return refute(std::move(q), 5, budget);
  }
  if (neg.size() == 1 && neg[0].ne) {
    // a == b : both inequalities
    Lin d = neg[0].l;
    return prove(d, B, 6, 200) && prove(Lin(Z(0)) - d, B, 6, 200);
  }
  Query q;
  blockFacts(B, q.facts);
  for (auto &f : neg)
    q.facts.push_back(f);
  int budget = 200;
  return refute(std::move(q), 6, budget);
}

std::string Prover::str(const Lin &l) {
  std::string s;
  raw_string_ostream os(s);
  for (auto &[a, c] : l.c) {
    os << " " << (c > 0 ? "+" : "") << c.get_str() << "*";
    if (!atomVal[a])
      os << "K" << a;
    else
      atomVal[a]->printAsOperand(os, false);
  }
  os << " " << (l.k >= 0 ? "+" : "") << l.k.get_str();
  return os.str();
}

// constants that reach a phi through phis and selects
std::set<Z> Prover::sizesAt(Value *V) {
  std::set<Z> out;
  std::set<Value *> seen;
  std::vector<Value *> w{V};
  while (!w.empty()) {
    Value *x = w.back();
    w.pop_back();
    if (!seen.insert(x).second || seen.size() > 400)
      continue;
    if (auto *P = dyn_cast<PHINode>(x))
      for (auto &U : P->incoming_values())
        w.push_back(U.get());
    else if (auto *S = dyn_cast<SelectInst>(x)) {
      w.push_back(S->getTrueValue());
      w.push_back(S->getFalseValue());
    } else if (auto *c = dyn_cast<ConstantInt>(x))
      if (!c->isZero())
        out.insert(toZ(c->getValue(), false));
  }
  return out;
}

void Prover::invariants(ProveResult &R) {
  // which atoms are related to each loop header?
  std::vector<Loop *> loops;
  for (Loop *L : LI.getLoopsInPreorder())
    loops.push_back(L);
  R.loops = loops.size();
  // obligations and comparisons
  for (Loop *L : loops) {
    BasicBlock *H = L->getHeader();
    std::vector<int> phis;
    std::map<int, PHINode *> phiOf;
    for (auto &P : H->phis())
      if (P.getType()->isIntegerTy() && width(&P) >= 8) {
        int a = atom(&P);
        phis.push_back(a);
        phiOf[a] = &P;
      }
    if (phis.empty())
      continue;
    std::set<Lin> cands;
    std::set<int> phiSet(phis.begin(), phis.end());
    // expressions compared with the phis (in conditions and in obligations)
    std::map<int, std::set<Lin>> bounds;
    auto consider = [&](const Lin &a, const Lin &b) {
      // a versus b: a - b ; for each header phi with coefficient +-1
      Lin d = a - b;
      std::vector<int> ps;
      for (auto &[x, c] : d.c)
        if (phiSet.count(x))
          ps.push_back(x);
      if (ps.empty() || ps.size() > 3)
        return;
      // every other atom must be available at the header
      Lin l;
      bool ok = true;
      for (auto &[x, c] : d.c) {
        if (phiSet.count(x)) {
          l.c[x] = c;
          continue;
        }
        Value *V = atomVal[x];
        bool avail = V && (!isa<Instruction>(V) || (DT.dominates(cast<Instruction>(V)->getParent(), H) &&
                                                    cast<Instruction>(V)->getParent() != H));
        if (avail)
          l.c[x] = c;
        else
          ok = false;
      }
      if (ok) {
        l.k = 0;
        cands.insert(l);                 // sum <= 0
        cands.insert(Lin(Z(0)) - l);     // sum >= 0
        if (d.k != 0 && abs(d.k) < 100000) {
          Lin l2 = l;
          l2.k = d.k;
          cands.insert(l2);
          cands.insert(Lin(Z(0)) - l2);
        }
      }
      // pairwise between a phi and each available atom
      for (int p : ps)
        for (auto &[x, c] : d.c) {
          if (x == p)
            continue;
          Value *V = atomVal[x];
          bool avail = phiSet.count(x) ||
                       (V && (!isa<Instruction>(V) || (DT.dominates(cast<Instruction>(V)->getParent(), H) &&
                                                       cast<Instruction>(V)->getParent() != H)));
          if (avail) {
            cands.insert(Lin::atom(p) - Lin::atom(x));
            cands.insert(Lin::atom(x) - Lin::atom(p));
          }
        }
    };
    for (auto &BB : F) {
      if (!DT.dominates(H, &BB))
        continue;
      for (auto &I : BB) {
        if (auto *C = dyn_cast<ICmpInst>(&I)) {
          if (!C->getOperand(0)->getType()->isIntegerTy() || width(C->getOperand(0)) < 8)
            continue;
          Lin a = lin(C->getOperand(0)), b = lin(C->getOperand(1));
          consider(a, b);
          consider(raw(C->getOperand(0)), raw(C->getOperand(1)));
          // in a comparison x + n <= m, x <= m is often the invariant
          for (auto *op : {C->getOperand(0), C->getOperand(1)})
            if (auto *BO = dyn_cast<BinaryOperator>(op))
              if (BO->getOpcode() == Instruction::Add || BO->getOpcode() == Instruction::Sub) {
                Lin o = op == C->getOperand(0) ? b : a;
                consider(lin(BO->getOperand(0)), o);
                consider(lin(BO->getOperand(1)), o);
                consider(lin(BO->getOperand(0)), lin(BO->getOperand(1)));
              }
        } else if (auto *CI = dyn_cast<CallInst>(&I)) {
          auto *T = calledFn(CI);
          if (T && T->getName().starts_with("vf_check")) {
            Lin off = lin(CI->getArgOperand(0)), len = lin(CI->getArgOperand(1)), sz = lin(CI->getArgOperand(2));
            consider(off, sz);
            consider(off + len, sz);
            Lin ro = raw(CI->getArgOperand(0)), rl = raw(CI->getArgOperand(1)), rs = raw(CI->getArgOperand(2));
            consider(ro, rs);
            consider(ro + rl, rs);
          } else if (T && T->getIntrinsicID() == Intrinsic::umin) {
            consider(lin(CI->getArgOperand(0)), lin(CI->getArgOperand(1)));
          }
        } else if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
          if (BO->getOpcode() == Instruction::Sub && width(BO) == 64)
            consider(lin(BO->getOperand(0)), lin(BO->getOperand(1)));
        }
      }
    }
    // with the entry value
    for (int p : phis) {
      PHINode *P = phiOf[p];
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
        if (!L->contains(P->getIncomingBlock(i))) {
          Value *iv = P->getIncomingValue(i);
          if (isa<UndefValue>(iv))
            continue;
          Lin e = lin(iv);
          cands.insert(Lin::atom(p) - e);
          cands.insert(e - Lin::atom(p));
        }
      // constants it is given in the loop
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
        if (auto *ci = dyn_cast<ConstantInt>(P->getIncomingValue(i))) {
          cands.insert(Lin::atom(p) - Lin(toZ(ci->getValue(), false)));
          cands.insert(Lin(toZ(ci->getValue(), false)) - Lin::atom(p));
        }
    }
    // between the phis that have the same latch history (sizes and lengths)
    if (phis.size() <= 14)
      for (int p : phis)
        for (int p2 : phis)
          if (p != p2 && width(phiOf[p]) == 64 && width(phiOf[p2]) == 64)
            cands.insert(Lin::atom(p) - Lin::atom(p2));
    // capacities
    for (int p : phis)
      if (phiOf[p]->getName().starts_with("size"))
        for (int p2 : phis)
          if (p != p2 && width(phiOf[p2]) == 64) {
            cands.insert(Lin::atom(p2) - Lin::atom(p));
            if (phiOf[p2]->getName().starts_with("nn"))
              for (Z c : sizesAt(phiOf[p]))
                cands.insert(Lin::atom(p2).scaled(c) - Lin::atom(p));
          }
    for (auto &g : extraCands) {
      std::vector<Lin> v;
      g(L, v);
      for (auto &l : v)
        cands.insert(l);
    }
    auto &v = inv[H];
    for (auto &l : cands) {
      Z a, b;
      range(l, a, b);
      if (b <= 0)
        continue; // trivial
      v.push_back({l, true});
      R.candidates++;
    }
  }
  // Houdini
  std::map<int, std::set<int>> needs; // candidate -> the candidates its proof uses
  std::set<int> gone;
  auto idOf = [&](BasicBlock *H, size_t i) {
    auto &id = invId[{H, (int)i}];
    if (!id)
      id = (int)invId.size();
    return id;
  };
  for (bool ch = true; ch;) {
    ch = false;
    R.rounds++;
    // entry and back edges
    for (auto &HB : F) {
      BasicBlock *H = &HB;
      auto itI = inv.find(H);
      if (itI == inv.end())
        continue;
      auto &cs = itI->second;
      resetMemo();
      for (size_t ci = 0; ci < cs.size(); ++ci) {
        auto &c = cs[ci];
        if (!c.second)
          continue;
        int me = idOf(H, ci);
        if (needs.count(me)) {
          bool stale = false;
          for (int d : needs[me])
            stale |= gone.count(d) > 0;
          if (!stale)
            continue;
        }
        deps.clear();
        for (auto *P : predecessors(H)) {
          // substitute the phis
          Lin l;
          l.k = c.first.k;
          bool ok = true;
          for (auto &[x, co] : c.first.c) {
            auto *Ph = atomVal[x] ? dyn_cast<PHINode>(atomVal[x]) : nullptr;
            if (Ph && Ph->getParent() == H) {
              Value *iv = Ph->getIncomingValueForBlock(P);
              if (isa<UndefValue>(iv)) {
                ok = true; // any value: choose one that satisfies (poison)
                l.add(Lin::atom(x), co);
              } else
                l.add(lin(iv), co);
            } else
              l.add(Lin::atom(x), co);
          }
          if (!ok || !proveEdge(l, P, H, 3, 30)) {
            c.second = false;
            ch = true;
            gone.insert(me);
            if (verbose > 2)
              errs() << "  drop at " << H->getName() << ":" << str(c.first) << "\n";
            break;
          }
        }
        if (c.second)
          needs[me] = deps;
      }
    }
    if (verbose > 1) {
      unsigned alive = 0;
      for (auto &[H, cs] : inv)
        for (auto &c : cs)
          alive += c.second;
      errs() << "round " << R.rounds << " alive " << alive << " lps " << nLP << "\n";
    }
  }
  for (auto &[H, cs] : inv) {
    for (auto &c : cs)
      if (c.second) {
        R.invariants++;
        if (verbose > 1)
          errs() << "  inv " << H->getName() << ":" << str(c.first) << " <= 0\n";
      }
  }
  resetMemo();
}

void Prover::run(ProveResult &R) {
  invariants(R);
  // the cuts first: without them the others have no meaning
  bool cutFails = false;
  for (int pass = 0; pass < 2 && !cutFails; ++pass)
  for (auto &BB : F) {
    if (!DT.getNode(&BB))
      continue;
    for (auto &I : BB) {
      auto *CI = dyn_cast<CallInst>(&I);
      if (!CI)
        continue;
      auto *T = calledFn(CI);
      if (!T)
        continue;
      bool cut = false;
      if (T->getName().starts_with("vf_assert") && CI->arg_size() > 1)
        if (auto *c = dyn_cast<ConstantInt>(CI->getArgOperand(1)))
          cut = c->getZExtValue() >= 1000000;
      if (cut != (pass == 0))
        continue;
      StringRef N = T->getName();
      if (N.starts_with("vf_check")) {
        Lin off = lin(CI->getArgOperand(0)), len = lin(CI->getArgOperand(1)), sz = lin(CI->getArgOperand(2));
        Facts before;
        checkFacts(&BB, before, CI);
        bool ok = prove(off + len - sz, &BB, 5, 120, &before) || unreachable(&BB);
        std::string w;
        if (auto *MD = CI->getMetadata("vf.what"))
          w = cast<MDString>(MD->getOperand(0))->getString().str();
        if (!ok && verbose)
          errs() << "FAIL " << w << " " << locOf(CI) << " block " << BB.getName() << ": off=" << str(off) << " len=" << str(len) << " size=" << str(sz) << "\n";
        if (!ok && getenv("VF_DBG") && locOf(CI).find(getenv("VF_DBG")) != std::string::npos) {
          Facts all;
          blockFacts(&BB, all);
          all.insert(all.end(), before.begin(), before.end());
          std::set<int> cone;
          for (auto *l : {&off, &len, &sz})
            for (auto &[x, c] : l->c)
              cone.insert(x);
          std::vector<char> us(all.size());
          for (int r = 0; r < 4; ++r) {
            std::set<int> nx = cone;
            for (size_t i = 0; i < all.size(); ++i) {
              bool hit = false;
              for (auto &[x, c] : all[i].l.c)
                hit |= cone.count(x);
              if (!hit)
                continue;
              if (!us[i])
                errs() << "     r" << r << " " << str(all[i].l) << (all[i].ne ? " != 0" : " <= 0") << "\n";
              us[i] = 1;
              for (auto &[x, c] : all[i].l.c)
                nx.insert(x);
            }
            cone = nx;
          }
          for (int x : cone)
            if (auxDef.count(x))
              errs() << "     K" << x << " [" << lo[x].get_str() << "," << hi[x].get_str() << "] of " << str(auxDef[x].first) << "\n";
            else
              errs() << "     atom " << *atomVal[x] << " [" << lo[x].get_str() << "," << hi[x].get_str() << "]\n";
        }
        R.obligs.push_back({CI, ok, w, locOf(CI), chainOf(CI), "off=" + str(off) + " len=" + str(len) + " size=" + str(sz)});
      } else if (N.starts_with("vf_terminate")) {
        bool ok = unreachable(&BB);
        R.obligs.push_back({CI, ok, "terminate", locOf(CI), chainOf(CI), ""});
        if (!ok && verbose)
          errs() << "FAIL terminate " << locOf(CI) << "\n";
      } else if (N.starts_with("vf_assert")) {
        bool ok = proveAssert(CI);
        cutFails |= cut && !ok;
        std::string w = "assert";
        if (auto *MD = CI->getMetadata("vf.what"))
          w = cast<MDString>(MD->getOperand(0))->getString().str();
        else if (CI->arg_size() > 1)
          if (auto *c = dyn_cast<ConstantInt>(CI->getArgOperand(1)))
            w += std::to_string(c->getZExtValue());
        R.obligs.push_back({CI, ok, w, locOf(CI), chainOf(CI), ""});
        if (!ok && verbose)
          errs() << "FAIL assert " << locOf(CI) << " " << *CI << "\n";
      }
    }
  }
  R.lps = nLP;
}

} // namespace vf
