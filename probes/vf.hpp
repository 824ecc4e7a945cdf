// Vocabulary of the probes: programs that are never run, only analysed.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
const uint8_t *vf_ptr() noexcept;                   // any pointer
size_t vf_u64() noexcept;                           // any value
bool vf_bool() noexcept;                            // any value
void vf_region(const void *, size_t) noexcept;      // points to n readable bytes
void vf_use(const void *, size_t) noexcept;         // obligation: n readable bytes
void vf_write(void *, size_t) noexcept;             // obligation: n writable bytes, then havoc
void vf_assert(bool, int = 0) noexcept;             // obligation, numbered
void vf_assume(bool) noexcept;
void vf_event(int) noexcept;
void vf_const(const void *) noexcept;               // the region is never written
void vf_set(int, uint64_t) noexcept;                // variables of the monitors
uint64_t vf_get(int) noexcept;
void vf_cut(int, uint64_t) noexcept;                // a value it may always have at the head of a loop
void vf_split(uint64_t, int) noexcept;              // the values below n are considered on their own until the end of the iteration
void vf_cut_phi(int, int, int) noexcept;            // the same, a variable of the program with so many bits, at that depth
}
// Equality of two values, in their normal forms.
extern "C" void vf_same(int, uint64_t, uint64_t) noexcept;
inline uint64_t vf_addr(const void *p) noexcept { return reinterpret_cast<uint64_t>(p); }
inline double vf_double(uint64_t x) noexcept {
  double d;
  __builtin_memcpy(&d, &x, 8);
  return d;
}
template <typename T> inline uint64_t vf_bits(const T &x) noexcept {
  uint64_t r = 0;
  static_assert(sizeof(T) <= 8);
  __builtin_memcpy(&r, &x, sizeof(T));
  return r;
}
// Any contents.
extern "C" void vf_havoc_at(void *) noexcept;
template <typename T> inline void vf_havoc(T &x) noexcept { vf_havoc_at(&x); }
