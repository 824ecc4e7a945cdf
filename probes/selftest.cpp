// Examples that must be reported (bad_*) or proved (good_*) on every run.
#include "vf.hpp"
#include <cstring>
#include <new>
#define P(N) extern "C" void vfp_##N()
P(bad_read) {
  const uint8_t *p = vf_ptr();
  size_t n = vf_u64();
  vf_region(p, n);
  size_t i = vf_u64();
  if (i <= n) { // off by one
    volatile uint8_t x = p[i];
    (void)x;
  }
}
P(bad_loop) {
  size_t n = vf_u64();
  auto *b = static_cast<uint8_t *>(::operator new(n));
  for (size_t i = 0; i < n; i += 2) { // writes past an odd size
    b[i] = 1;
    b[i + 1] = 2;
  }
  vf_use(b, n);
}
P(bad_wrap) {
  const uint8_t *p = vf_ptr();
  size_t n = vf_u64(), o = vf_u64(), l = vf_u64();
  vf_region(p, n);
  if (o + l <= n) // wraps
    vf_use(p + o, l);
}
P(bad_after_free_len) {
  const uint8_t *p = vf_ptr();
  size_t n = vf_u64();
  vf_region(p, n);
  size_t c = 0;
  while (vf_bool()) {
    c += vf_u64() & 0xff;
    if (c > n)
      break;
  }
  vf_use(p, c);
}
P(good_loop) {
  size_t n = vf_u64();
  auto *b = static_cast<uint8_t *>(::operator new(n));
  size_t i = 0;
  while (i < n) {
    size_t c = 1 + (vf_u64() & 0xf);
    if (c > n - i)
      c = n - i;
    memset(b + i, 0, c);
    i += c;
  }
  vf_use(b, n);
}
P(good_guard) {
  const uint8_t *p = vf_ptr();
  size_t n = vf_u64(), o = vf_u64(), l = vf_u64();
  vf_region(p, n);
  if (o <= n && l <= n - o)
    vf_use(p + o, l);
}

static int raise(uint64_t x) {
  if (x == 3)
    throw 5;
  return int(x);
}
static int never(uint64_t x) noexcept { return raise(x); }
static int guarded(uint64_t x) noexcept { return x < 3 ? raise(x) : 0; }
P(bad_noexcept) {
  try {
    vf_event(never(vf_u64()));
  } catch (...) {
  }
}
P(good_noexcept) {
  try {
    vf_event(guarded(vf_u64()));
    const uint8_t *p = vf_ptr();
    vf_region(p, 8);
    vf_use(p, raise(vf_u64()) & 7);
  } catch (...) {
  }
}
