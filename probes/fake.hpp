// Columns whose values are known, for some rows.
#pragma once
#include "vf.hpp"
#include <cppsas7bdat/properties.hpp>
#include <new>
namespace {
using namespace cppsas7bdat;
using T = Column::Type;
char rows_[4];                                        // the rows: their address tells which one it is
size_t asked;                                         // the calls of the getters
uint64_t cells[4][8], sizes[4][8], texts[4][8], lengths[4][8]; // [row][column]
template <size_t i, T t> struct Cell {
  size_t length = 8;
  T type = t;
  template <typename X> X get(const void *p) const {
    X x;
    ++asked;
    __builtin_memcpy(static_cast<void *>(&x), &cells[static_cast<const char *>(p) - rows_][i], sizeof(X));
    return x;
  }
  SV get_string(const void *p) const { return SV(get<const char *>(p), sizes[static_cast<const char *>(p) - rows_][i]); }
  NUMBER get_number(const void *p) const { return get<NUMBER>(p); }
  INTEGER get_integer(const void *p) const { return get<INTEGER>(p); }
  DATETIME get_datetime(const void *p) const { return get<DATETIME>(p); }
  DATE get_date(const void *p) const { return get<DATE>(p); }
  TIME get_time(const void *p) const { return get<TIME>(p); }
  STRING to_string(const void *p) const {
    const size_t k = static_cast<const char *>(p) - rows_;
    ++asked;
    return STRING(reinterpret_cast<const char *>(texts[k][i]), lengths[k][i]);
  }
};
std::string any() { return std::string(reinterpret_cast<const char *>(vf_ptr()), vf_u64()); }
template <size_t i, T t, T... u> void add(COLUMNS &c) {
  c.emplace_back(any(), any(), any(), Cell<i, t>{});
  if constexpr (sizeof...(u))
    add<i + 1, u...>(c);
}
void values() {
  for (size_t k = 0; k < 4; ++k)
    for (size_t i = 0; i < 8; ++i) {
      cells[k][i] = vf_u64();
      sizes[k][i] = vf_u64();
      texts[k][i] = vf_u64();
      lengths[k][i] = vf_u64();
    }
}
template <typename X> X cell(size_t k, size_t i) {
  X x;
  __builtin_memcpy(static_cast<void *>(&x), &cells[k][i], sizeof(X));
  return x;
}
template <typename X> struct Keep {
  union {
    X x;
  };
  template <typename... A> explicit Keep(A &&...a) { new (&x) X(static_cast<A &&>(a)...); }
  ~Keep() {}
};
} // namespace
