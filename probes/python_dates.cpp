// The dates and times given to Python.
#include <python_stub.hpp>
#include "cell.hpp"
#include "import_datetime.cpp"

namespace {
void start() {
  py::nothing = {py::none, 0, 0, 0, 0};
  py::count = 0;
  for (auto &x : py::fields)
    x = 0;
}
uint64_t small(long x) { return static_cast<uint64_t>(static_cast<int>(x)); }
void fields(int id, bool there, std::initializer_list<long> l) {
  size_t i = 0;
  for (long x : l) {
    vf_same(id, there ? py::fields[i] : 0, there ? small(x) : 0);
    ++i;
  }
}
template <typename X> X any() {
  X x;
  const uint64_t bits = vf_u64();
  __builtin_memcpy(static_cast<void *>(&x), &bits, sizeof(X));
  return x;
}
} // namespace
extern "C" {
void vfp_datetime() {
  start();
  const DATETIME x = any<DATETIME>();
  const PyObject *o = pycppsas7bdat::to_python(x);
  const bool there = !x.is_not_a_date_time();
  vf_same(11, o->kind, there ? py::datetime : py::none);
  vf_same(12, static_cast<uint64_t>(o->refs), 1);
  const auto d = x.date();
  const auto t = x.time_of_day();
  fields(11, there, {d.year(), d.month(), d.day(), t.hours(), t.minutes(), t.seconds(), static_cast<long>(t.fractional_seconds())});
}
void vfp_date() {
  start();
  const DATE x = any<DATE>();
  const PyObject *o = pycppsas7bdat::to_python(x);
  const bool there = !x.is_not_a_date();
  vf_same(11, o->kind, there ? py::date : py::none);
  vf_same(12, static_cast<uint64_t>(o->refs), 1);
  long y = 0, m = 0, d = 0;
  if (there) {
    y = x.year();
    m = x.month();
    d = x.day();
  }
  fields(11, there, {y, m, d});
}
// a time of the day
void vfp_time() {
  start();
  const TIME x = any<TIME>();
  const PyObject *o = pycppsas7bdat::to_python(x);
  vf_same(12, static_cast<uint64_t>(o->refs), 1);
  const bool there = !x.is_not_a_date_time() && x.hours() / 24 == 0;
  vf_same(11, there ? o->kind : 0, there ? py::time_ : 0);
  fields(11, there, {x.hours(), x.minutes(), x.seconds(), static_cast<long>(x.fractional_seconds())});
}
void vfp_no_datetime() {
  start();
  const PyObject *o = pycppsas7bdat::to_python(DATETIME(boost::posix_time::not_a_date_time));
  vf_same(13, vf_addr(o), vf_addr(&py::nothing));
  vf_same(12, static_cast<uint64_t>(py::nothing.refs), 1);
}
void vfp_no_date() {
  start();
  const PyObject *o = pycppsas7bdat::to_python(DATE(boost::gregorian::not_a_date_time));
  vf_same(13, vf_addr(o), vf_addr(&py::nothing));
  vf_same(12, static_cast<uint64_t>(py::nothing.refs), 1);
}
void vfp_no_time() {
  start();
  const PyObject *o = pycppsas7bdat::to_python(TIME(boost::posix_time::not_a_date_time));
  vf_same(13, vf_addr(o), vf_addr(&py::nothing));
  vf_same(12, static_cast<uint64_t>(py::nothing.refs), 1);
}
}
