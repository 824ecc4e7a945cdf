// What a reader delivers to its sink.
#include <cppsas7bdat/properties.hpp>
#include <functional>
#include <memory>
#define private public // to give a reader the implementation of a test
#include <cppsas7bdat/reader.hpp>
#undef private
#include "reader-impl.hpp"
#include "vf.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

namespace {
enum Kind { properties, row, end };
struct Event {
  uint64_t kind, index, place;
};
Event events[16];
size_t count;
size_t left;              // rows that are still in the file
const uint8_t *given[16]; // the rows that were read
size_t reads;
const Properties *seen[2];

struct Sink {
  void set_properties(const Properties &p) { events[count++] = {Kind::properties, 0, vf_addr(&p)}; }
  void push_row(size_t i, Column::PBUF p) { events[count++] = {row, i, vf_addr(p)}; }
  void end_of_data() { events[count++] = {end, 0, 0}; }
};
struct Rows {
  size_t current_row;
  void set_pheader(const Properties *p) { seen[0] = p; }
  void set_pmetadata(const Properties *p) { seen[1] = p; }
  std::optional<BYTES> read_line() {
    if (!left)
      return {};
    --left;
    ++current_row;
    const uint8_t *p = vf_ptr();
    given[reads++] = p;
    return BYTES(p, vf_u64());
  }
  bool skip(size_t n) {
    if (n > left) {
      current_row += left;
      left = 0;
      return false;
    }
    left -= n;
    current_row += n;
    return true;
  }
};
struct Test {
  size_t first, n = 0;
  ReaderImpl<Rows> r;
  Reader::impl &i() { return r; }
  static size_t start(size_t rows) {
    count = reads = 0;
    left = rows;
    return vf_u64();
  }
  explicit Test(size_t rows) : first(start(rows)), r(Rows{first}, Reader::build_sink(Sink{}), Properties{}) {
    vf_same(1, count, 1);
    event(1, Kind::properties, 0, vf_addr(&r.properties()));
    vf_same(1, vf_addr(seen[0]), vf_addr(&r.properties()));
    vf_same(1, vf_addr(seen[1]), vf_addr(&r.properties()));
  }
  void event(int id, Kind k, uint64_t index, uint64_t place) {
    vf_same(id, events[n].kind, k);
    vf_same(id, events[n].index, index);
    vf_same(id, events[n].place, place);
    ++n;
  }
  // the rows from a to b were delivered, then the end if it was reached
  void rows(int id, size_t a, size_t b) {
    for (size_t k = a; k < b; ++k)
      event(id, row, first + k, vf_addr(given[k]));
    vf_same(2, i().current_row_index(), first + b);
  }
};
// never destroyed
struct Keep {
  union {
    Test t;
  };
  explicit Keep(size_t rows) : t(rows) {}
  ~Keep() {}
};
// one row after the other
template <size_t rows> void row_by_row() {
  Keep keep(rows);
  Test &t = keep.t;
  for (size_t k = 0; k < rows; ++k) {
    vf_same(3, t.i().read_row(), 1);
    t.rows(4, k, k + 1);
    vf_same(4, count, t.n);
  }
  vf_same(3, t.i().read_row(), 0);
  t.event(5, end, 0, 0);
  vf_same(5, count, t.n);
}
// n rows at once
template <size_t n, size_t rows> void chunk() {
  Keep keep(rows);
  Test &t = keep.t;
  vf_same(6, t.i().read_rows(n), n <= rows);
  t.rows(7, 0, n <= rows ? n : rows);
  if (n > rows)
    t.event(5, end, 0, 0);
  vf_same(7, count, t.n);
}
template <size_t rows> void all() {
  Keep keep(rows);
  Test &t = keep.t;
  t.i().read_all();
  t.rows(8, 0, rows);
  t.event(5, end, 0, 0);
  vf_same(8, count, t.n);
}
template <size_t n, size_t rows> void skip() {
  Keep keep(rows);
  Test &t = keep.t;
  vf_same(9, t.i().skip(n), n <= rows);
  vf_same(2, t.i().current_row_index(), t.first + (n <= rows ? n : rows));
  if (n > rows)
    t.event(10, end, 0, 0);
  vf_same(10, count, t.n);
  if (n < rows) {
    vf_same(3, t.i().read_row(), 1);
    t.event(11, row, t.first + n, vf_addr(given[0]));
  }
}
template <size_t rows> void quiet() {
  Keep keep(rows);
  Test &t = keep.t;
  for (size_t k = 0; k < rows; ++k) {
    vf_same(12, vf_addr(t.i().read_row_no_sink()), vf_addr(given[k]));
    vf_same(12, reads, k + 1);
    vf_same(2, t.i().current_row_index(), t.first + k + 1);
  }
  vf_same(12, vf_addr(t.i().read_row_no_sink()), 0);
  vf_same(13, count, t.n);
}
// the same through a Reader
struct Outer {
  union {
    Reader r;
  };
  size_t first;
  explicit Outer(size_t rows) : r() {
    first = Test::start(rows);
    r.m_pimpl.reset(new ReaderImpl<Rows>(Rows{first}, Reader::build_sink(Sink{}), Properties{}));
    vf_same(1, count, 1);
    vf_same(1, events[0].kind, Kind::properties);
    vf_same(1, events[0].place, vf_addr(&r.properties()));
  }
  void last(int id, size_t n, Kind k, uint64_t index, uint64_t place) {
    vf_same(id, count, n);
    vf_same(id, events[n - 1].kind, k);
    vf_same(id, events[n - 1].index, index);
    vf_same(id, events[n - 1].place, place);
  }
  ~Outer() {}
};
void outer_row() {
  Outer o(1);
  vf_same(14, o.r.read_row(), 1);
  o.last(14, 2, row, o.first, vf_addr(given[0]));
  vf_same(14, o.r.current_row_index(), o.first + 1);
  vf_same(14, o.r.read_row(), 0);
  o.last(14, 3, end, 0, 0);
}
template <size_t n> void outer_rows() {
  Outer o(1);
  vf_same(14, o.r.read_rows(n), n <= 1);
  if (n == 1)
    o.last(14, 2, row, o.first, vf_addr(given[0]));
  if (n == 2)
    o.last(14, 3, end, 0, 0);
  vf_same(14, o.r.current_row_index(), o.first + (n ? 1 : 0));
}
void outer_all() {
  Outer o(1);
  o.r.read_all();
  o.last(14, 3, end, 0, 0);
  vf_same(14, events[1].place, vf_addr(given[0]));
}
template <size_t n> void outer_skip() {
  Outer o(1);
  vf_same(14, o.r.skip(n), n <= 1);
  vf_same(14, count, n <= 1 ? 1 : 2);
  vf_same(14, o.r.current_row_index(), o.first + 1);
}
void outer_quiet() {
  Outer o(1);
  vf_same(14, vf_addr(o.r.read_row_no_sink()), vf_addr(given[0]));
  vf_same(14, o.r.current_row_index(), o.first + 1);
  vf_same(14, vf_addr(o.r.read_row_no_sink()), 0);
  vf_same(14, count, 1);
  o.r.end_of_data();
  o.last(14, 2, end, 0, 0);
}
} // namespace

extern "C" {
void vfp_outer_row() { outer_row(); }
void vfp_outer_rows0() { outer_rows<0>(); }
void vfp_outer_rows1() { outer_rows<1>(); }
void vfp_outer_rows2() { outer_rows<2>(); }
void vfp_outer_all() { outer_all(); }
void vfp_outer_skip1() { outer_skip<1>(); }
void vfp_outer_skip2() { outer_skip<2>(); }
void vfp_outer_quiet() { outer_quiet(); }
void vfp_rows0() { row_by_row<0>(); }
void vfp_rows1() { row_by_row<1>(); }
void vfp_rows2() { row_by_row<2>(); }
void vfp_chunk00() { chunk<0, 0>(); }
void vfp_chunk01() { chunk<0, 1>(); }
void vfp_chunk10() { chunk<1, 0>(); }
void vfp_chunk11() { chunk<1, 1>(); }
void vfp_chunk23() { chunk<2, 3>(); }
void vfp_chunk33() { chunk<3, 3>(); }
void vfp_chunk42() { chunk<4, 2>(); }
void vfp_all0() { all<0>(); }
void vfp_all1() { all<1>(); }
void vfp_all3() { all<3>(); }
void vfp_skip00() { skip<0, 0>(); }
void vfp_skip10() { skip<1, 0>(); }
void vfp_skip22() { skip<2, 2>(); }
void vfp_skip13() { skip<1, 3>(); }
void vfp_skip31() { skip<3, 1>(); }
void vfp_quiet0() { quiet<0>(); }
void vfp_quiet2() { quiet<2>(); }
}
