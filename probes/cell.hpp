// The documented representation of a cell.
#pragma once
#include "epoch.hpp"
namespace {
template <Endian e> uint64_t u8(const uint8_t *p) {
  uint64_t x;
  std::memcpy(&x, p, 8);
  return e == Endian::little ? x : __builtin_bswap64(x);
}
// the n most significant bytes of a double
template <Endian e, int n> double number(const uint8_t *p) {
  uint64_t x = 0;
  for (int i = 0; i < n; ++i)
    x |= uint64_t(p[e == Endian::big ? i : n - 1 - i]) << (56 - 8 * i);
  return vf_double(x);
}
TIME time(double s) { return datetime(s).time_of_day(); }

template <Endian e, int n> double whole(const uint8_t *p) {
  if constexpr (n < 8)
    return number<e, n>(p);
  return vf_double(u8<e>(p));
}
} // namespace
