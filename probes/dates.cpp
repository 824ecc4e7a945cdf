// Every date, datetime and time formatter, on any bytes of any length.
#include "sas7bdat-impl.hpp"
#include "vf.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;
template <class F> static void all() {
  const uint8_t *p = vf_ptr();
  size_t n = vf_u64();
  vf_region(p, n);
  vf_assume(n == 8);
  F f(0, 8);
  auto a = f.get_datetime(p);
  vf_use(&a, sizeof a);
  auto b = f.get_date(p);
  vf_use(&b, sizeof b);
  auto c = f.get_time(p);
  vf_use(&c, sizeof c);
  (void)f.get_number(p);
  (void)f.get_integer(p);
  (void)f.to_string(p);
}
#define DATES(N, E)                                                                                                    \
  extern "C" void vfp_datetime_##N() { all<FORMATTER::DateTimeFormatter<Endian::E>>(); }                               \
  extern "C" void vfp_date_##N() { all<FORMATTER::DateFormatter<Endian::E>>(); }                                       \
  extern "C" void vfp_time_##N() { all<FORMATTER::TimeFormatter<Endian::E>>(); }
DATES(l, little)
DATES(b, big)
// the analysis itself
static long bad(double x) noexcept { return std::lround(x < 1 || x > 9 ? 0. : x); } // NaN
extern "C" void vfp_bad_convert() {
  double x;
  const uint8_t *p = vf_ptr();
  vf_region(p, 8);
  std::memcpy(&x, p, 8);
  vf_event(int(bad(x)));
}
extern "C" void vfp_good_convert() {
  double x;
  const uint8_t *p = vf_ptr();
  vf_region(p, 8);
  std::memcpy(&x, p, 8);
  if (!std::isnan(x) && std::fabs(x) <= 100)
    vf_event(int(std::lround(x * 2)));
}
