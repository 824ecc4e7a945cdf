// The columns of a file against its metadata.
#include "meta.hpp"
#include "cell.hpp"

namespace {
using Type = Column::Type;
const uint8_t *row;
size_t at, length;
const uint8_t *cell() { return row + at; }

template <Endian e, Format f, typename Filter> struct List : File<e, f> {
  using F = File<e, f>;
  using F::p;
  using F::rm;
  List() {
    p.column_count = 0;
    p.columns.clear();
    row = vf_ptr();
  }
  void add(const std::string &name, const std::string &label, const std::string &format, size_t o, size_t n, Type type) {
    rm.column_names.push_back(name);
    rm.column_labels.push_back(label);
    rm.column_formats.push_back(format);
    rm.column_data_offsets.push_back(o);
    rm.column_data_lengths.push_back(n);
    rm.column_data_types.push_back(type);
    ++p.column_count;
  }
  void create() { rm.create_columns(&p, Reader::build_filter(Filter())); }
};

// what a column is, when it is submitted to the filter
struct Kind {
  bool accept(const Column &) const noexcept { return true; }
};
template <typename W> struct Watch {
  bool accept(const Column &c) const {
    W::watch(c);
    return true;
  }
};
template <typename W> void one(size_t n, Type type, const std::string &format) {
  List<W::endian, Format::bit64, Watch<W>> x;
  at = vf_u64();
  length = n;
  x.add(any(), any(), format, at, n, type);
  x.create();
}
void kind(const Column &c, Type t) {
  vf_same(1, static_cast<uint64_t>(c.type), static_cast<uint64_t>(t));
  vf_same(2, c.length(), length);
}
struct Text {
  static constexpr Endian endian = Endian::little;
  static void watch(const Column &c) {
    kind(c, Type::string);
    const auto x = c.get_string(row);
    vf_same(3, x.size() ? vf_addr(x.data()) : 0, x.size() ? vf_addr(cell()) : 0);
  }
};
template <Endian e> struct Integer {
  static constexpr Endian endian = e;
  static void watch(const Column &c) {
    kind(c, Type::integer);
    int16_t x;
    std::memcpy(&x, cell(), 2);
    if (e == Endian::big)
      x = static_cast<int16_t>(__builtin_bswap16(x));
    vf_same(4, c.get_integer(row), static_cast<INTEGER>(x));
  }
};
template <Endian e> struct Small {
  static constexpr Endian endian = e;
  static void watch(const Column &c) {
    kind(c, Type::integer);
    vf_same(4, c.get_integer(row), static_cast<INTEGER>(*cell()));
  }
};
template <Endian e, int n> struct Number {
  static constexpr Endian endian = e;
  static void watch(const Column &c) {
    kind(c, Type::number);
    vf_same(5, vf_bits(c.get_number(row)), vf_bits(whole<e, n>(cell())));
  }
};
template <Endian e, int n> struct DateTime {
  static constexpr Endian endian = e;
  static void watch(const Column &c) {
    kind(c, Type::datetime);
    vf_same(6, vf_bits(c.get_datetime(row)), vf_bits(datetime(whole<e, n>(cell()))));
  }
};
template <Endian e, int n> struct Date {
  static constexpr Endian endian = e;
  static void watch(const Column &c) {
    kind(c, Type::date);
    vf_same(6, vf_bits(c.get_date(row)), vf_bits(date(whole<e, n>(cell()))));
  }
};
template <Endian e, int n> struct Time {
  static constexpr Endian endian = e;
  static void watch(const Column &c) {
    kind(c, Type::time);
    vf_same(6, vf_bits(c.get_time(row)), vf_bits(time(whole<e, n>(cell()))));
  }
};
struct None {
  static constexpr Endian endian = Endian::little;
  static void watch(const Column &c) {
    kind(c, Type::unknown);
    vf_same(7, c.get_integer(row), 0);
    vf_same(7, c.get_string(row).size(), 0);
  }
};

// the formats of the dates
#define L(...) \
  const char *const l[] = {__VA_ARGS__}; \
  for (auto g : l) \
    if (f == g) \
      return true; \
  return false;
bool isDatetime(std::string_view f) {
  L("DATETIME", "DTWKDATX", "B8601DN", "B8601DT", "B8601DX", "B8601DZ", "B8601LX", "E8601DN", "E8601DT", "E8601DX",
    "E8601DZ", "E8601LX", "DATEAMPM", "DTDATE", "DTMONYY", "DTYEAR", "TOD", "MDYAMPM")
}
bool isDate(std::string_view f) {
  L("DATE", "DAY", "DDMMYY", "DOWNAME", "JULDAY", "JULIAN", "MMDDYY", "MMYY", "MMYYC", "MMYYD", "MMYYP", "MMYYS",
    "MMYYN", "MONNAME", "MONTH", "MONYY", "QTR", "QTRR", "NENGO", "WEEKDATE", "WEEKDATX", "WEEKDAY", "WEEKV", "WORDDATE",
    "WORDDATX", "YEAR", "YYMM", "YYMMC", "YYMMD", "YYMMP", "YYMMS", "YYMMN", "YYMON", "YYMMDD", "YYQ", "YYQC",
    "YYQD", "YYQP", "YYQS", "YYQN", "YYQR", "YYQRC", "YYQRD", "YYQRP", "YYQRS", "YYQRN", "YYMMDDP", "YYMMDDC",
    "E8601DA", "YYMMDDN", "MMDDYYC", "MMDDYYS", "MMDDYYD", "YYMMDDS", "B8601DA", "DDMMYYN", "YYMMDDD", "DDMMYYB", "DDMMYYP", "MMDDYYP",
    "YYMMDDB", "MMDDYYN", "DDMMYYC", "DDMMYYD", "DDMMYYS", "MINGUO")
}
bool isTime(std::string_view f) { return f == "TIME"; }
template <int n> void formats() {
  List<Endian::little, Format::bit64, Kind> x;
  const std::string f(reinterpret_cast<const char *>(vf_ptr()), n);
  x.add(any(), any(), f, vf_u64(), 8, Type::number);
  x.create();
  vf_same(8, static_cast<uint64_t>(x.p.columns[0].type),
          static_cast<uint64_t>(isDatetime(f) ? Type::datetime : isDate(f) ? Type::date : isTime(f) ? Type::time : Type::number));
}

// two columns, some of which are accepted
void same(const Column &c, const std::string &n, const std::string &l, const std::string &f, Type t) {
  same(11, c.name, n);
  same(12, c.label, l);
  same(13, c.format, f);
  vf_same(14, static_cast<uint64_t>(c.type), static_cast<uint64_t>(t));
}
void two() {
  List<Endian::little, Format::bit64, Kind> x;
  const auto n1 = any(), n2 = any(), l1 = any(), l2 = any(), f1 = any(), f2 = any();
  x.add(n1, l1, f1, vf_u64(), vf_u64(), Type::string);
  x.add(n2, l2, f2, vf_u64(), 2, Type::number);
  x.create();
  vf_same(10, x.p.columns.size(), 2);
  same(x.p.columns[0], n1, l1, f1, Type::string);
  same(x.p.columns[1], n2, l2, f2, Type::integer);
}
} // namespace

extern "C" {
void vfp_text() { one<Text>(vf_u64(), Type::string, any()); }
void vfp_integer_l() {
  one<Integer<Endian::little>>(2, Type::number, any());
  one<Small<Endian::little>>(1, Type::number, any());
}
void vfp_integer_b() {
  one<Integer<Endian::big>>(2, Type::number, any());
  one<Small<Endian::big>>(1, Type::number, any());
}
#define EACH(n) \
  void vfp_number_l##n() { one<Number<Endian::little, n>>(n, Type::number, "BEST"); } \
  void vfp_number_b##n() { one<Number<Endian::big, n>>(n, Type::number, "COMMA"); } \
  void vfp_datetime_l##n() { one<DateTime<Endian::little, n>>(n, Type::number, "DATETIME"); } \
  void vfp_datetime_b##n() { one<DateTime<Endian::big, n>>(n, Type::number, "MDYAMPM"); } \
  void vfp_date_l##n() { one<Date<Endian::little, n>>(n, Type::number, "DATE"); } \
  void vfp_date_b##n() { one<Date<Endian::big, n>>(n, Type::number, "MINGUO"); } \
  void vfp_time_l##n() { one<Time<Endian::little, n>>(n, Type::number, "TIME"); } \
  void vfp_time_b##n() { one<Time<Endian::big, n>>(n, Type::number, "TIME"); }
EACH(3)
EACH(4)
EACH(5)
EACH(6)
EACH(7)
EACH(8)
void vfp_none() {
  const size_t n = vf_u64();
  vf_assume(n > 8);
  one<None>(n, Type::number, "BEST");
  one<None>(0, Type::number, "BEST");
}
#define FORMATS(n) void vfp_formats##n() { formats<n>(); }
FORMATS(0)
FORMATS(1)
FORMATS(2)
FORMATS(3)
FORMATS(4)
FORMATS(5)
FORMATS(6)
FORMATS(7)
FORMATS(8)
FORMATS(9)
void vfp_two() { two(); }
}
