#pragma once
#include "vf.h"
namespace vf {
struct SameResult {
  bool ok;
  std::string what, loc, chain, detail;
};
// Decides the vf_same and vf_assert calls of a normalised function by
// comparing normal forms of the values.
std::vector<SameResult> compareValues(Function &F);
} // namespace vf
