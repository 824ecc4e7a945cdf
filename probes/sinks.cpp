// What the CSV and print sinks write.
#define FMT_CORE_H_
#define FMT_BASE_H_
#define FMT_FORMAT_H_
#define FMT_OSTREAM_H_
#include "vf.hpp"
#include <cppsas7bdat/properties.hpp>
#include <cstring>
#include <fstream>
#include <ostream>
#include <cmath>

namespace {
using namespace cppsas7bdat;
enum Kind : uint64_t { text = 1, real, integer, datetime, date, time_, natural, other };
// a value that is written, and what is written just before it
struct Event {
  uint64_t kind, a, b, before;
};
Event events[256];
size_t count, n; // written, checked
uint64_t letters, wrong;
} // namespace
namespace std { struct vf_ostream; }
namespace {
const std::vf_ostream *target;
constexpr uint64_t more(uint64_t h, char c) { return h * 1000003 + static_cast<uint8_t>(c) + 1; }

struct Arg {
  uint64_t kind, a, b;
};
Arg arg(std::string_view x) { return {text, x.size(), x.size() ? vf_addr(x.data()) : 0}; }
Arg arg(const std::string &x) { return {text, x.size(), x.size() ? vf_addr(x.data()) : 0}; }
Arg arg(double x) { return {real, vf_bits(x), 0}; }
Arg arg(int32_t x) { return {integer, static_cast<uint64_t>(x), 0}; }
Arg arg(size_t x) { return {natural, x, 0}; }
Arg arg(const DATETIME &x) { return {datetime, vf_bits(x), 0}; }
Arg arg(const DATE &x) { return {date, vf_bits(x), 0}; }
Arg arg(const TIME &x) { return {time_, vf_bits(x), 0}; }
template <typename T> requires std::is_enum_v<T> Arg arg(T x) { return {other, static_cast<uint64_t>(x), sizeof(T)}; }
} // namespace
namespace std {
// a stream, that knows what is written to it
struct vf_ostream {
  template <typename T> void add(const T &x) {
    const Arg a = ::arg(x);
    events[::count++] = {a.kind, a.a, a.b, letters};
    letters = 0;
    wrong += this != target;
  }
  vf_ostream &put(char c) {
    letters = more(letters, c);
    wrong += this != target;
    return *this;
  }
  template <size_t N> vf_ostream &operator<<(const char (&f)[N]) {
    for (size_t i = 0; i + 1 < N; ++i)
      put(f[i]);
    return *this;
  }
  vf_ostream &operator<<(char c) { return put(c); }
  vf_ostream &operator<<(std::string_view x) { return add(x), *this; }
  vf_ostream &operator<<(const std::string &x) { return add(x), *this; }
  vf_ostream &operator<<(int32_t x) { return add(x), *this; }
  vf_ostream &operator<<(size_t x) { return add(x), *this; }
  vf_ostream &flush() { return *this; }
};
struct vf_ofstream : vf_ostream {
  explicit vf_ofstream(const char *) {}
  vf_ofstream(vf_ofstream &&) {}
};
} // namespace std
#define ostream vf_ostream
#define ofstream vf_ofstream
#define FMT_STRING(x) x
#define fmt text_format // not the name of the library, whose functions are modelled
namespace fmt {
// the documented meaning of the braces; the conversion of a value to text is that of fmt
template <size_t N, typename... A> void print(std::ostream &os, const char (&f)[N], const A &...a) {
  const Arg args[sizeof...(A) + 1] = {arg(a)..., {}};
  size_t k = 0;
  for (size_t i = 0; i + 1 < N; ++i) {
    if (f[i] == '{' && f[i + 1] == '}') {
      events[count++] = {args[k].kind, args[k].a, args[k].b, letters};
      letters = 0;
      ++k;
    } else if (!(i && f[i - 1] == '{' && f[i] == '}'))
      letters = more(letters, f[i]);
  }
  wrong += &os != target;
}
} // namespace fmt
namespace fmt {
template <typename F> struct not_literal { const F &f; };
template <typename F> not_literal<F> runtime(const F &f) { return {f}; }
// a format that is no literal: what it writes depends on its braces
template <typename F, typename... A> void print(std::ostream &os, const F &, const A &...) {
  events[count++] = {77, vf_u64(), vf_u64(), vf_u64()};
  wrong += &os != target;
}
} // namespace fmt
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/print.hpp>


namespace {
const void *row;
size_t asked, irow;
uint64_t cells[8], sizes[8], texts[8], lengths[8];
template <size_t i, Column::Type t> struct Cell {
  size_t length = 8;
  Column::Type type = t;
  template <typename T> T get(const void *p) const {
    T x;
    asked += p == row;
    __builtin_memcpy(static_cast<void *>(&x), &cells[i], sizeof(T));
    return x;
  }
  SV get_string(const void *p) const { return SV(get<const char *>(p), sizes[i]); }
  NUMBER get_number(const void *p) const { return get<NUMBER>(p); }
  INTEGER get_integer(const void *p) const { return get<INTEGER>(p); }
  DATETIME get_datetime(const void *p) const { return get<DATETIME>(p); }
  DATE get_date(const void *p) const { return get<DATE>(p); }
  TIME get_time(const void *p) const { return get<TIME>(p); }
  STRING to_string(const void *p) const {
    asked += p == row;
    return STRING(reinterpret_cast<const char *>(texts[i]), lengths[i]);
  }
};
std::string any() { return std::string(reinterpret_cast<const char *>(vf_ptr()), vf_u64()); }
using T = Column::Type;
struct Start {
  Start() {
    count = n = asked = letters = wrong = 0;
    row = vf_ptr();
    irow = vf_u64();
  }
};
// a sink, and what it should write
template <typename Sink> struct Test : Start {
  std::ostream &os;
  Properties p;
  Sink sink;
  int id = 1;
  template <T... t> void columns() { each<0, t...>(); }
  template <size_t i, T t, T... u> void each() {
    cells[i] = vf_u64();
    sizes[i] = vf_u64();
    texts[i] = vf_u64();
    lengths[i] = vf_u64();
    p.columns.emplace_back(any(), any(), any(), Cell<i, t>{});
    if constexpr (sizeof...(u))
      each<i + 1, u...>();
  }
  Test() : os(*const_cast<std::ostream *>(reinterpret_cast<const std::ostream *>(vf_ptr()))), sink(os) {
    target = &os;
  }
  uint64_t expected = 0;
  template <typename V> void value(const V &x) {
    const Arg e = arg(x);
    vf_same(id, events[n].kind, e.kind);
    vf_same(id, events[n].a, e.a);
    vf_same(id, events[n].b, e.b);
    vf_same(id, events[n].before, expected);
    expected = 0;
    ++n;
  }
  template <size_t N> void lit(const char (&s)[N]) {
    for (size_t i = 0; i + 1 < N; ++i)
      expected = more(expected, s[i]);
  }
  void end(int which) {
    vf_same(which, count, n);
    vf_same(which, letters, expected);
    vf_same(5, wrong, 0);
  }
  // what follows is considered on its own
  void forget() {
    count = n = 0;
    expected = letters = 0;
  }
  template <typename V> V cell(size_t i) {
    V x;
    __builtin_memcpy(static_cast<void *>(&x), &cells[i], sizeof(V));
    return x;
  }
  void view(size_t i) { value(SV(cell<const char *>(i), sizes[i])); }
  void string(size_t i) { value(STRING(reinterpret_cast<const char *>(texts[i]), lengths[i])); }
};
template <typename X> struct Keep {
  union {
    X x;
  };
  Keep() : x() {}
  ~Keep() {}
};
using Csv = Test<datasink::detail::csv>;
using Print = Test<datasink::print>;
template <T t> void shown(Csv &c, size_t i) {
  if constexpr (t == T::string) {
    c.lit("\"");
    c.view(i);
    c.lit("\"");
  } else if constexpr (t == T::number)
    c.value(c.cell<NUMBER>(i));
  else if constexpr (t == T::integer)
    c.value(c.cell<INTEGER>(i));
  else if constexpr (t == T::datetime)
    c.value(c.cell<DATETIME>(i));
  else if constexpr (t == T::date)
    c.value(c.cell<DATE>(i));
  else
    c.value(c.cell<TIME>(i));
}
void names(Csv &c, size_t m) {
  for (size_t i = 0; i < m; ++i) {
    if (i)
      c.lit(",");
    c.lit("\"");
    c.value(c.p.columns[i].name);
    c.lit("\"");
  }
  c.lit("\n");
}
// a number that is one
void number(size_t i) { cells[i] = 0x3ff8000000000000; }
template <T t> void one() {
  Keep<Csv> k;
  auto &c = k.x;
  c.columns<t>();
  c.sink.set_properties(c.p);
  names(c, 1);
  c.end(1);
  if (t == T::number)
    number(0);
  c.sink.push_row(irow, row);
  c.id = 2;
  shown<t>(c, 0);
  c.lit("\n");
  c.end(2);
  vf_same(3, asked, 1);
  c.sink.end_of_data();
  c.end(2);
}
template <T t, T u> void two() {
  Keep<Csv> k;
  auto &c = k.x;
  c.columns<t, u>();
  c.sink.set_properties(c.p);
  names(c, 2);
  c.end(1);
  if (t == T::number)
    number(0);
  if (u == T::number)
    number(1);
  c.sink.push_row(irow, row);
  c.id = 2;
  shown<t>(c, 0);
  c.lit(",");
  shown<u>(c, 1);
  c.lit("\n");
  c.end(2);
  vf_same(3, asked, 2);
}
void missing() {
  Keep<Csv> k;
  auto &c = k.x;
  c.columns<T::number>();
  c.sink.set_properties(c.p);
  c.forget();
  cells[0] = 0x7ff8000000000000;
  c.sink.push_row(irow, row);
  c.id = 4;
  c.lit("\n");
  c.end(4);
}
// any number: a missing one is not written
void real_number() {
  Keep<Csv> k;
  auto &c = k.x;
  c.columns<T::number>();
  c.sink.set_properties(c.p);
  c.forget();
  const double x = vf_double(cells[0]);
  const bool there = x == x;
  events[0] = {};
  c.sink.push_row(irow, row);
  vf_same(4, count, there);
  vf_same(4, events[0].kind, there ? real : 0);
  vf_same(4, events[0].a, there ? cells[0] : 0);
}
// the print sink
template <T t, T u> void lines() {
  Keep<Print> k;
  auto &c = k.x;
  c.columns<t, u>();
  c.sink.columns = COLUMNS(c.p.columns);
  c.sink.push_row(irow, row);
  c.id = 7;
  c.value(irow);
  c.lit(",");
  c.string(0);
  c.lit(",");
  c.string(1);
  c.lit("\n");
  c.end(7);
  vf_same(3, asked, 2);
}
template <T... t> void title() {
  Keep<Print> k;
  auto &c = k.x;
  constexpr size_t m = sizeof...(t);
  if constexpr (m)
    c.columns<t...>();
  for (std::string *x : {&c.p.dataset_name, &c.p.encoding, &c.p.file_type, &c.p.sas_release, &c.p.sas_server_type, &c.p.os_type, &c.p.os_name, &c.p.creator, &c.p.creator_proc})
    *x = any();
  for (size_t *x : {&c.p.row_count, &c.p.column_count, &c.p.page_count, &c.p.page_length, &c.p.row_length, &c.p.header_length})
    *x = vf_u64();
  for (DATETIME *x : {&c.p.date_created, &c.p.date_modified}) {
    const uint64_t bits = vf_u64();
    __builtin_memcpy(static_cast<void *>(x), &bits, sizeof bits);
  }
  c.sink.set_properties(c.p);
  c.id = 6;
#define F(name, what) \
  c.lit("  " name ": "); \
  c.value(what); \
  c.lit("\n");
  c.lit("Properties:\n");
  F("format", c.p.format)
  F("endianness", c.p.endianness)
  F("platform", c.p.platform)
  F("date created", c.p.date_created)
  F("date modified", c.p.date_modified)
  F("dataset name", c.p.dataset_name)
  F("encoding", c.p.encoding)
  F("file type", c.p.file_type)
  F("SAS release", c.p.sas_release)
  F("SAS server type", c.p.sas_server_type)
  F("OS type", c.p.os_type)
  F("OS name", c.p.os_name)
  F("compression", c.p.compression)
  F("creator", c.p.creator)
  F("creator proc", c.p.creator_proc)
  F("row count", c.p.row_count)
  F("column count", c.p.column_count)
  c.lit("Columns:\n");
  for (size_t i = 0; i < m; ++i) {
    c.lit("  - column #");
    c.value(i);
    c.lit("\n");
    F("  name", c.p.columns[i].name)
    F("  label", c.p.columns[i].label)
    F("  format", c.p.columns[i].format)
    F("  type", c.p.columns[i].type)
  }
  c.lit("Data:\n#");
  for (size_t i = 0; i < m; ++i) {
    c.lit(",");
    c.value(c.p.columns[i].name);
  }
  c.lit("\n");
  c.end(6);
}
void moved() {
  using S = datasink::detail::csv_ofstream;
  union U {
    S s;
    U() {}
    ~U() {}
  } a, b;
  new (&a.s) S("a");
  new (&b.s) S(std::move(a.s));
  vf_same(8, vf_addr(&b.s.os), vf_addr(static_cast<std::ostream *>(&b.s.ofs)));
}
} // namespace

extern "C" {
void vfp_csv_string() { one<T::string>(); }
void vfp_csv_number() { one<T::number>(); }
void vfp_csv_integer() { one<T::integer>(); }
void vfp_csv_datetime() { one<T::datetime>(); }
void vfp_csv_date() { one<T::date>(); }
void vfp_csv_time() { one<T::time>(); }
void vfp_csv_two() { two<T::string, T::number>(); }
void vfp_csv_both() { two<T::integer, T::date>(); }
void vfp_csv_any() { real_number(); }
void vfp_csv_missing() { missing(); }
void vfp_print_row() { lines<T::string, T::number>(); }
void vfp_print_types() { lines<T::date, T::integer>(); }
void vfp_print_none() { title<>(); }
void vfp_print_title() { title<T::number>(); }
void vfp_print_titles() { title<T::number, T::string>(); }
void vfp_moved() { moved(); }
}
