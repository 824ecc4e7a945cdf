// What the Python sinks give to Python.
#include <python_stub.hpp>
#include "fake.hpp"
#include "sink.hpp"

namespace {
using namespace pycppsas7bdat;
namespace bp = boost::python;
static PyObject it; // the object of the user
struct Start {
  Properties p;
  uint64_t first;
  Start() {
    it = {py::sink, 0, 0, 0, 0, 0};
    py::nothing = {py::none, 0, 0, 0, 0, 0};
    py::count = py::called = asked = 0;
    first = vf_u64();
    values();
  }
};
template <T t> py::Item expected(size_t k, size_t i) {
  if constexpr (t == T::string)
    return {py::text, sizes[k][i], sizes[k][i] ? cells[k][i] : 0};
  else if constexpr (t == T::number)
    return {py::real, cells[k][i]};
  else if constexpr (t == T::integer)
    return py::item(cell<INTEGER>(k, i));
  else if constexpr (t == T::datetime)
    return py::item(cell<DATETIME>(k, i));
  else if constexpr (t == T::date)
    return py::item(cell<DATE>(k, i));
  else if constexpr (t == T::time)
    return py::item(cell<TIME>(k, i));
  else
    return {py::none, 0, 0};
}
void same(int id, const py::Item &x, const py::Item &y) {
  vf_same(id, x.kind, y.kind);
  vf_same(id, x.a, y.a);
  vf_same(id, x.b, y.b);
}
template <size_t i, T t, T... u> void cells_of(int id, const bp::list &l, size_t k) {
  same(id, l.items[i], expected<t>(k, i));
  if constexpr (sizeof...(u))
    cells_of<i + 1, u...>(id, l, k);
}
void call(int id, size_t i, const char *name, uint64_t arguments) {
  const py::Call &c = py::calls[i];
  vf_same(id, c.self, vf_addr(&it));
  vf_same(id, c.name, py::hash(name));
  vf_same(id, c.arguments, arguments);
}
// a sink given each row
template <T... t> void by_row() {
  Keep<Start> s;
  Keep<Sink> k(&it);
  constexpr size_t m = sizeof...(t);
  add<0, t...>(s.x.p.columns);
  k.x.set_properties(s.x.p);
  vf_same(1, py::called, 1);
  call(1, 0, "set_properties", 0);
  vf_same(1, py::described, m);
  for (size_t r = 0; r < 2; ++r) {
    py::called = 0;
    k.x.push_row(s.x.first + r, &rows_[r]);
    vf_same(2, py::called, 1);
    call(2, 0, "push_row", 1);
    const py::Call &c = py::calls[0];
    vf_same(2, c.numbers[0], s.x.first + r);
    vf_same(3, c.list.n, m);
    cells_of<0, t...>(3, c.list, r);
  }
  py::called = 0;
  k.x.end_of_data();
  vf_same(2, py::called, 0);
}
// rows given by chunks
template <T t> void by_chunk(int id, const bp::dict &d, const Properties &p, size_t m, size_t from, size_t to) {
  vf_same(id, d.n, m);
  for (size_t i = 0; i < m; ++i) {
    vf_same(id, d.entries[i].size, p.columns[i].name.size());
    vf_same(id, d.entries[i].key, p.columns[i].name.size() ? vf_addr(p.columns[i].name.data()) : 0);
    const bp::list &l = d.entries[i].l;
    vf_same(id, l.n, to - from);
    for (size_t k = from; k < to; ++k)
      same(id, l.items[k - from], i ? expected<t>(k, 1) : expected<t>(k, 0));
  }
}
uint64_t where[4];
template <T t, size_t m> void columns(Start &s) {
  if constexpr (m == 1)
    add<0, t>(s.p.columns);
  else
    add<0, t, t>(s.p.columns);
  for (size_t k = 0; k < 4; ++k)
    where[k] = vf_u64();
}
// m columns of type t, chunks of size rows, total rows
template <T t, size_t m, size_t size, size_t total> void chunks() {
  Keep<Start> s;
  Keep<SinkChunk> k(&it, size);
  columns<t, m>(s.x);
  k.x.set_properties(s.x.p);
  vf_same(1, py::called, 1);
  call(1, 0, "set_properties", 0);
  vf_same(1, py::described, m);
  size_t from = 0;
  for (size_t r = 0; r <= total; ++r) {
    py::called = 0;
    if (r < total)
      k.x.push_row(where[r], &rows_[r]);
    else
      k.x.end_of_data();
    const size_t to = r < total ? r + 1 : total;
    const bool full = r < total ? to - from == size : to != from;
    vf_same(4, py::called, full);
    if (full) {
      call(4, 0, "push_rows", 2);
      vf_same(5, py::calls[0].numbers[0], where[from]);
      vf_same(5, py::calls[0].numbers[1], where[to - 1]);
      by_chunk<t>(6, py::calls[0].dict, s.x.p, m, from, to);
      from = to;
    }
  }
  py::called = 0;
  k.x.end_of_data();
  vf_same(4, py::called, 0);
}
// all the rows at once
template <T t, size_t m, size_t total> void data() {
  Keep<Start> s;
  Keep<SinkData> k(&it);
  columns<t, m>(s.x);
  s.x.p.row_count = total;
  k.x.set_properties(s.x.p);
  call(1, 0, "set_properties", 0);
  vf_same(1, py::described, m);
  py::called = 0;
  for (size_t r = 0; r < total; ++r)
    k.x.push_row(where[r], &rows_[r]);
  vf_same(7, py::called, 0);
  k.x.end_of_data();
  vf_same(7, py::called, 1);
  call(7, 0, "set_data", 0);
  by_chunk<t>(7, py::calls[0].dict, s.x.p, m, 0, total);
}
} // namespace

extern "C" {
#define TYPE(t) \
  void vfp_chunk_##t() { chunks<T::t, 1, 2, 3>(); } \
  void vfp_data_##t() { data<T::t, 1, 2>(); }
TYPE(string)
TYPE(number)
TYPE(integer)
TYPE(datetime)
TYPE(date)
TYPE(time)
void vfp_chunk_one() { chunks<T::number, 1, 1, 2>(); }
void vfp_chunk_none() { chunks<T::number, 1, 2, 0>(); }
void vfp_chunk_exact() { chunks<T::integer, 1, 2, 2>(); }
void vfp_chunk_two() { chunks<T::number, 2, 2, 3>(); }
void vfp_chunk_texts() { chunks<T::string, 2, 2, 1>(); }
void vfp_data_two() { data<T::number, 2, 3>(); }
void vfp_row_string() { by_row<T::string>(); }
void vfp_row_number() { by_row<T::number>(); }
void vfp_row_integer() { by_row<T::integer>(); }
void vfp_row_datetime() { by_row<T::datetime>(); }
void vfp_row_date() { by_row<T::date>(); }
void vfp_row_time() { by_row<T::time>(); }
void vfp_row_unknown() { by_row<T::unknown, T::number>(); }
void vfp_row_two() { by_row<T::number, T::string>(); }
}
