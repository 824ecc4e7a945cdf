#pragma once
#include "lp.h"
#include "vf.h"
#include "llvm/Analysis/LoopInfo.h"
#include <memory>
namespace vf {
struct Oblig {
  Instruction *I;
  bool ok;
  std::string what, loc, chain, detail;
};
struct ProveResult {
  std::vector<Oblig> obligs;
  unsigned loops = 0, candidates = 0, invariants = 0, rounds = 0;
  unsigned long lps = 0;
};
struct Prover {
  Function &F;
  DominatorTree DT;
  LoopInfo LI;
  int verbose = 0;
  unsigned long nLP = 0;

  Prover(Function &f);
  // le: lin <= 0 ; ne: lin != 0
  struct Fact {
    Lin l;
    bool ne;
    int inv = -1; // the candidate invariant it is
  };
  std::set<int> deps; // candidate invariants used since it was cleared
  std::map<std::pair<BasicBlock *, int>, int> invId;
  using Facts = std::vector<Fact>;

  // --- expressions
  std::vector<Value *> atomVal;       // atom -> value (null: auxiliary)
  std::vector<Z> lo, hi;              // bounds of the atoms
  std::map<Value *, int> atomOf;
  std::map<int, std::pair<Lin, Z>> auxDef; // wrap count -> the value, modulus
  std::map<std::pair<Value *, int>, int> auxOf;
  std::map<Value *, Lin> linMemo, rawMemo;
  std::set<Value *> linActive;
  int newAtom(Value *V, const Z &l, const Z &h);
  int atom(Value *V);
  Lin lin(Value *V);
  Lin raw(Value *V);
  bool range(const Lin &l, Z &a, Z &b);
  BasicBlock *ctxOf(Value *V);
  void resetMemo();

  // --- facts
  std::map<BasicBlock *, Facts> own; // facts holding in blocks dominated by it
  void factsOfCond(Value *C, bool val, Facts &out, int depth = 0);
  std::map<std::pair<PHINode *, bool>, Facts> lifted;
  const Facts &liftPhi(PHINode *P, bool val);
  const Facts &ownFacts(BasicBlock *B);
  void edgeFacts(BasicBlock *P, BasicBlock *S, Facts &out);
  void blockFacts(BasicBlock *B, Facts &out);
  std::map<BasicBlock *, std::vector<std::pair<Lin, bool>>> inv; // header -> candidates (le), alive

  // --- deduction
  struct Query {
    Facts facts;
    std::set<int> splitDone;
    std::vector<Lin> seeds; // the facts of the cases taken
  };
  bool refute(Query q, int depth, int &budget);
  bool prove(const Lin &leZero, BasicBlock *B, int depth = 5, int budget = 120, const Facts *more = nullptr);
  std::map<BasicBlock *, Facts> after; // obligations met in it
  void checkFacts(BasicBlock *B, Facts &out, Instruction *upTo = nullptr);
  bool proveEdge(const Lin &leZero, BasicBlock *P, BasicBlock *S, int depth = 4, int budget = 80);
  bool proveCond(Value *C, BasicBlock *B);
  bool unreachable(BasicBlock *B);
  bool wide = false; // the facts of the cases taken widen the search
  Facts extra, seedsMore; // facts of the case being examined
  void ways(BasicBlock *B, std::vector<std::vector<Facts>> &out);
  bool proveAtHead(Value *C, BasicBlock *H);
  bool proveAssert(CallInst *CI);
  void defs(int a, Facts &out);
  std::map<std::tuple<BasicBlock *, std::string>, bool> memo;

  std::set<Z> sizesAt(Value *V);
  void invariants(ProveResult &R);
  void run(ProveResult &R);
  std::vector<std::function<void(Loop *, std::vector<Lin> &)>> extraCands;
  std::string str(const Lin &l);
};
} // namespace vf
