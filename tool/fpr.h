#pragma once
#include "vf.h"
namespace vf {
// Ranges of the floating-point values converted to integers.
struct ConvInfo {
  std::string kind, loc, chain;
  double lo, hi;
  bool nan;
};
void markConversions(Module &M);
std::vector<ConvInfo> conversionRanges(Function &F);
} // namespace vf
