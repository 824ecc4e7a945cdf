// The value of a cell of every type against the documented representation.
#include "sas7bdat-impl.hpp"
#include "vf.hpp"
#include "cell.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

namespace {
const uint8_t *at;
size_t offset, length;

// n: the length, 0 for any, 8 for any that is not less
template <typename F> Column column(size_t n = 0) {
  offset = vf_u64();
  length = n && n < 8 ? n : vf_u64();
  if (n == 8)
    vf_assume(length >= 8);
  at = vf_ptr();
  return Column(std::string(), std::string(), std::string(), F(offset, length));
}
uint64_t bits(double x) { return vf_bits(x); }
const uint8_t *cell() { return at + offset; }
using Type = Column::Type;
void kind(const Column &c, Type t) {
  vf_same(1, static_cast<uint64_t>(c.type), static_cast<uint64_t>(t));
  vf_same(2, c.length(), length);
}

template <Endian e> void integer() {
  const auto c = column<FORMATTER::IntegerFormatter<e, int16_t>>();
  kind(c, Type::integer);
  int16_t x;
  std::memcpy(&x, cell(), 2);
  if (e == Endian::big)
    x = static_cast<int16_t>(__builtin_bswap16(x));
  vf_same(3, c.get_integer(at), static_cast<INTEGER>(x));
  vf_same(4, bits(c.get_number(at)), bits(static_cast<INTEGER>(x)));
}
template <Endian e, int n> void incomplete() {
  const auto c = column<FORMATTER::IncompleteDoubleFormatter<e, n>>();
  kind(c, Type::number);
  vf_same(10 + n, bits(c.get_number(at)), bits(number<e, n>(cell())));
}
template <Endian e> void full() {
  const auto c = column<FORMATTER::DoubleFormatter<e>>(8);
  kind(c, Type::number);
  vf_same(18, bits(c.get_number(at)), u8<e>(cell()));
}
template <Endian e, int n = 8> void datetimes() {
  const auto c = column<FORMATTER::DateTimeFormatter<e>>(n);
  kind(c, Type::datetime);
  const double x = whole<e, n>(cell());
  vf_same(25, vf_bits(c.get_number(at)), vf_bits(x));
  vf_same(20, vf_bits(c.get_datetime(at)), vf_bits(datetime(x)));
  vf_same(21, vf_bits(c.get_date(at)), vf_bits(datetime(x).date()));
  vf_same(22, vf_bits(c.get_time(at)), vf_bits(datetime(x).time_of_day()));
}
template <Endian e, int n = 8> void dates() {
  const auto c = column<FORMATTER::DateFormatter<e>>(n);
  kind(c, Type::date);
  vf_same(25, vf_bits(c.get_number(at)), vf_bits(whole<e, n>(cell())));
  vf_same(23, vf_bits(c.get_date(at)), vf_bits(date(whole<e, n>(cell()))));
}
template <Endian e, int n = 8> void times() {
  const auto c = column<FORMATTER::TimeFormatter<e>>(n);
  kind(c, Type::time);
  vf_same(25, vf_bits(c.get_number(at)), vf_bits(whole<e, n>(cell())));
  vf_same(24, vf_bits(c.get_time(at)), vf_bits(time(whole<e, n>(cell()))));
}
template <Endian e> void numbers() {
  incomplete<e, 3>();
  incomplete<e, 4>();
  incomplete<e, 5>();
  incomplete<e, 6>();
  incomplete<e, 7>();
}

template <Endian e, int n> void lengths() {
  datetimes<e, n>();
  dates<e, n>();
  times<e, n>();
  if constexpr (n < 7)
    lengths<e, n + 1>();
}
template <int n> size_t kept() {
  if constexpr (n == 0)
    return 0;
  else
    return cell()[n - 1] && !std::isspace(cell()[n - 1]) ? n : kept<n - 1>();
}
// a text without the spaces and the zeros that follow it
template <int n> void strings() {
  const auto c = column<FORMATTER::StringFormatter>(n);
  kind(c, Type::string);
  const auto x = c.get_string(at);
  vf_same(30, x.size(), kept<n>());
  vf_same(30, vf_addr(x.data()), vf_addr(cell()));
}
// what a column cannot be read as
template <typename F> void absent(bool number, bool integer, bool text) {
  const auto c = column<F>();
  if (!number)
    vf_assert(c.get_number(at) != c.get_number(at), 40);
  if (!integer)
    vf_same(41, c.get_integer(at), 0);
  if (!text)
    vf_same(42, c.get_string(at).size(), 0);
}
} // namespace

extern "C" {
void vfp_lengths_l() { lengths<Endian::little, 3>(); }
void vfp_lengths_b() { lengths<Endian::big, 3>(); }
void vfp_string() {
  strings<1>();
  strings<2>();
  strings<3>();
  strings<4>();
  strings<5>();
}
void vfp_absent() {
  absent<FORMATTER::NoFormatter>(false, false, false);
  absent<FORMATTER::StringFormatter>(false, false, true);
  absent<FORMATTER::SmallIntegerFormatter>(true, true, false);
  absent<FORMATTER::IntegerFormatter<Endian::big, int16_t>>(true, true, false);
  absent<FORMATTER::DoubleFormatter<Endian::big>>(true, false, false);
  absent<FORMATTER::IncompleteDoubleFormatter<Endian::little, 5>>(true, false, false);
  absent<FORMATTER::DateFormatter<Endian::little>>(true, false, false);
  absent<FORMATTER::TimeFormatter<Endian::little>>(true, false, false);
  absent<FORMATTER::DateTimeFormatter<Endian::little>>(true, false, false);
}
void vfp_small() {
  const auto c = column<FORMATTER::SmallIntegerFormatter>();
  kind(c, Type::integer);
  vf_same(3, c.get_integer(at), *cell());
  vf_same(4, bits(c.get_number(at)), bits(static_cast<INTEGER>(*cell())));
}
void vfp_integer_l() { integer<Endian::little>(); }
void vfp_integer_b() { integer<Endian::big>(); }
void vfp_number_l() { numbers<Endian::little>(); }
void vfp_number_b() { numbers<Endian::big>(); }
void vfp_double_l() { full<Endian::little>(); }
void vfp_double_b() { full<Endian::big>(); }
void vfp_datetime_l() { datetimes<Endian::little>(); }
void vfp_datetime_b() { datetimes<Endian::big>(); }
void vfp_date_l() { dates<Endian::little>(); }
void vfp_date_b() { dates<Endian::big>(); }
void vfp_time_l() { times<Endian::little>(); }
void vfp_time_b() { times<Endian::big>(); }
}
