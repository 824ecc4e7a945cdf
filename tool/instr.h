#pragma once
#include "vf.h"
namespace vf {
struct Meta {
  Value *base = nullptr, *off = nullptr, *size = nullptr, *nn = nullptr; // nn: 1 unless null
  bool known = false;
};
struct Instrument;
const unsigned CUT0 = 1000000;
struct InstrInfo {
  unsigned checks = 0, unknown = 0, skipped = 0, nCounted = 0, monitored = 0, ghostVars = 0, cuts = 0;
  std::set<unsigned> droppedCuts, phiCuts;
  bool noPhi = false;
  size_t choice = 0, choiceRadix = 1; // of the variables of the program, and how many there are
  std::map<unsigned, unsigned> cutGroup; // the ones on the same variable at the same loop
  std::set<Value *> counters;
  std::map<PHINode *, PHINode *> sizeOfNN; // header phis: not null -> size
  std::map<PHINode *, std::set<uint64_t>> constSizes;
  std::vector<std::function<void(Instrument &)>> afterAccesses;
  std::function<void(Function &, std::function<Meta(Value *)>)> ghosts;
};
void instrument(Function &F, InstrInfo &R);
bool splitCases(Function &F);             // split.cpp
void foldBytes(Function &F, bool last); // bytes.cpp
} // namespace vf
