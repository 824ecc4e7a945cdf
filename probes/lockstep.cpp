// Examples for the analyser: copies watched by a monitor.
#include "vf.hpp"
namespace {
enum { ON, NEXT, HALF };
}
extern "C" {
__attribute__((used)) void vfm_load(int kind, size_t off, size_t, uint64_t, size_t) {
  if (vf_get(ON) && kind == 1) {
    vf_assert(off == vf_get(NEXT), 1);
    vf_assert(vf_get(HALF) == 0, 2);
    vf_set(NEXT, off + 1);
    vf_set(HALF, 1);
  }
}
__attribute__((used)) void vfm_store(int kind, size_t, size_t, uint64_t, int, size_t, size_t) {
  if (vf_get(ON) && kind == 2)
    vf_set(HALF, 0);
}
}
template <bool SKIP, bool TWICE> static inline void copy() {
  vf_cut(HALF, 0);
  const uint8_t *p = vf_ptr();
  size_t n = vf_u64();
  vf_region(p, n);
  auto *d = new uint8_t[n];
  vf_set(NEXT, 0);
  vf_set(HALF, 0);
  vf_set(ON, 1);
  for (size_t i = 0; i < n; ++i) {
    if (SKIP && i == 77)
      continue;
    if (TWICE && i == 1000 && p[i] == 3)
      --i;
    d[i] = p[i];
  }
  vf_set(ON, 0);
  vf_assert(vf_get(NEXT) == n, 3);
}
extern "C" void vfp_good_copy() { copy<false, false>(); }
extern "C" void vfp_bad_skip() { copy<true, false>(); }
extern "C" void vfp_bad_twice() { copy<false, true>(); }
