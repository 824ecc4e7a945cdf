// What the comparison of values must report, and what it must accept.
#include "vf.hpp"
#include <cstring>
static uint32_t be(const uint8_t *p) {
  uint32_t r = 0;
  for (int i = 0; i < 4; ++i)
    r = r << 8 | p[i];
  return r;
}
static uint32_t swapped(const uint8_t *p) {
  uint32_t x;
  std::memcpy(&x, p, 4);
  return __builtin_bswap32(x);
}
struct B {
  uint32_t a, b;
};
extern "C" {
void vfp_bad_offset() {
  const auto p = vf_ptr();
  vf_same(1, be(p), swapped(p + 1));
}
void vfp_bad_path() {
  const size_t n = vf_u64();
  const bool b = vf_bool();
  vf_same(1, b ? n + 1 : n, n + 1);
}
void vfp_bad_stale() {
  B x{1, 2};
  vf_havoc(x);
  const auto a = x.a;
  vf_havoc(x);
  vf_same(1, x.a, a);
}
void vfp_good_swap() {
  const auto p = vf_ptr();
  vf_same(1, be(p), swapped(p));
}
void vfp_good_path() {
  const size_t n = vf_u64();
  const bool b = vf_bool();
  size_t r = n;
  if (b)
    r += 2;
  if (!b)
    r = 2 + r;
  vf_same(1, r, n + 2);
}
}
