// What of the C interface of Python and of boost::python the binding uses: objects
// that know their value, and calls that are recorded.
#pragma once
#include "../vf.hpp"
#include <boost/noncopyable.hpp>
#include <boost/ref.hpp>
#include <cppsas7bdat/properties.hpp>
#include <cstring>
#include <string>

struct PyObject {
  uint64_t kind, a, b, c; // what it is and its value
  int64_t refs;           // the references taken by the code
  uint64_t attribute;     // the object that is its attribute _cpp
};
namespace py {
enum Kind : uint64_t { none = 1, text, real, integer, datetime, date, time_, delta, natural, sink, cpp };
struct Item {
  uint64_t kind, a, b;
};
static PyObject objects[64];
static PyObject nothing;
static size_t count;
inline PyObject *make(Kind k, uint64_t a, uint64_t b = 0, uint64_t c = 0) {
  PyObject *o = &objects[count++];
  *o = {k, a, b, c, 1, 0};
  return o;
}
inline Item item(const PyObject *o) { return {o->kind, o->a, o->b}; }
inline Item item(double x) { return {real, vf_bits(x)}; }
inline Item item(int32_t x) { return {integer, static_cast<uint64_t>(x)}; }
inline Item item(const cppsas7bdat::DATETIME &x) { return {datetime, vf_bits(x)}; }
inline Item item(const cppsas7bdat::DATE &x) { return {date, vf_bits(x)}; }
inline Item item(const cppsas7bdat::TIME &x) { return {time_, vf_bits(x)}; }
inline uint64_t hash(const char *s) {
  uint64_t h = 1;
  const size_t n = __builtin_strlen(s);
  for (size_t i = 0; i < n; ++i)
    h = h * 1000003 + static_cast<uint8_t>(s[i]);
  return h;
}
} // namespace py
#define Py_None (&py::nothing)
inline void Py_INCREF(PyObject *o) { ++o->refs; }
inline void Py_DECREF(PyObject *o) { --o->refs; }
inline void Py_XINCREF(PyObject *o) { if (o) ++o->refs; }
inline void Py_XDECREF(PyObject *o) { if (o) --o->refs; }
#define Py_RETURN_NONE return Py_INCREF(Py_None), Py_None
inline PyObject *PyFloat_FromDouble(double x) { return py::make(py::real, vf_bits(x)); }
inline PyObject *PyLong_FromLong(long x) { return py::make(py::integer, static_cast<uint64_t>(x)); }
inline PyObject *PyBytes_FromStringAndSize(const char *p, long n) { return py::make(py::text, static_cast<uint64_t>(n), n ? vf_addr(p) : 0); }
inline PyObject *PyUnicode_FromStringAndSize(const char *p, long n) { return PyBytes_FromStringAndSize(p, n); }
inline PyObject *PyLong_FromSize_t(size_t x) { return py::make(py::natural, x); }
inline PyObject *PyErr_Occurred() { return nullptr; }
inline void PyErr_Print() {}
inline void PyErr_Clear() {}
inline void PyErr_Fetch(PyObject **a, PyObject **b, PyObject **c) { *a = *b = *c = nullptr; }
inline void PyErr_Restore(PyObject *, PyObject *, PyObject *) {}
inline int PyObject_SetAttrString(PyObject *o, const char *, PyObject *v) {
  o->attribute = vf_addr(v);
  Py_INCREF(v);
  return 0;
}
inline PyObject *PyObject_GetAttrString(PyObject *o, const char *) {
  PyObject *v = reinterpret_cast<PyObject *>(o->attribute);
  Py_XINCREF(v);
  return v;
}
inline int PyObject_HasAttrString(PyObject *o, const char *) { return o->attribute != 0; }
inline int PyObject_DelAttrString(PyObject *o, const char *) {
  if (!o->attribute)
    return -1;
  Py_DECREF(reinterpret_cast<PyObject *>(o->attribute));
  o->attribute = 0;
  return 0;
}

namespace boost {
// never destroyed
template <typename T> struct shared_ptr {
  T *p = nullptr;
  shared_ptr() = default;
  explicit shared_ptr(T *q) : p(q) {}
  T *get() const { return p; }
  T &operator*() const { return *p; }
  T *operator->() const { return p; }
};
template <typename T, typename... A> shared_ptr<T> make_shared(A &&...a) { return shared_ptr<T>(new T(static_cast<A &&>(a)...)); }
} // namespace boost
namespace boost::python {
template <typename T = PyObject> struct handle {
  PyObject *o;
  explicit handle(PyObject *p) : o(p) {}
};
// the references held by the objects of boost are not followed
class object {
  PyObject *o;

public:
  object() : o(&py::nothing) {}
  explicit object(const handle<> &h) : o(h.o) {}
  #ifdef REFERENCES
  template <typename T> explicit object(const boost::reference_wrapper<T> &r) : o(py::make(py::cpp, vf_addr(r.get_pointer()))) {}
#else
  template <typename T> explicit object(const boost::reference_wrapper<T> &) : o(py::make(py::cpp, 0)) {}
#endif
  PyObject *ptr() const { return o; }
};
struct str : object { using object::object; };
inline PyObject *incref(PyObject *o) { return Py_INCREF(o), o; }
inline PyObject *xincref(PyObject *o) { return Py_XINCREF(o), o; }
[[noreturn]] inline void throw_error_already_set() { __builtin_trap(); }
struct list {
  py::Item items[3];
  size_t n = 0;
  void append(const object &o) { items[n++] = py::item(o.ptr()); }
  template <typename T> void append(const T &x) { items[n++] = py::item(x); }
};
struct dict {
  struct Entry {
    uint64_t size, key;
    list l;
    Entry &operator=(const list &x) {
      l = x;
      return *this;
    }
  } entries[2];
  size_t n = 0;
  Entry &operator[](const std::string &k) {
    entries[n].size = k.size();
    entries[n].key = k.size() ? vf_addr(k.data()) : 0;
    return entries[n++];
  }
};
struct tuple {};
template <typename... A> tuple make_tuple(const A &...) { return {}; }
namespace numpy {
struct dtype {
  template <typename T> static dtype get_builtin() { return {}; }
};
struct ndarray : object {};
template <typename... A> ndarray from_data(const A &...) { return {}; }
} // namespace numpy
} // namespace boost::python
namespace py {
struct Call {
  uint64_t self, name, arguments, numbers[2];
  boost::python::list list;
  boost::python::dict dict;
};
static Call calls[2];
static size_t called;
inline void take(Call &c, uint64_t x) { c.numbers[c.arguments++] = x; }
inline void take(Call &c, const boost::python::list &l) { c.list = l; }
inline void take(Call &c, const boost::python::dict &d) { c.dict = d; }
static uint64_t described; // the number of columns of the properties given
inline void take(Call &c, const boost::shared_ptr<cppsas7bdat::Properties> &p) { described = p->columns.size(); }
} // namespace py
namespace boost::python {
template <typename R, typename... A> R call_method(PyObject *self, const char *name, const A &...a) {
  py::Call &c = py::calls[py::called++];
  c.self = vf_addr(self);
  c.name = py::hash(name);
  c.arguments = 0;
  (py::take(c, a), ...);
}
} // namespace boost::python
// dates and times
namespace py {
static uint64_t fields[7];
template <typename... A> PyObject *fill(Kind k, A... a) {
  size_t i = 0;
  ((fields[i++] = static_cast<uint64_t>(static_cast<int>(a))), ...);
  return make(k, 0);
}
} // namespace py
#define PyDateTime_FromDateAndTime(y, mo, d, h, mi, s, u) py::fill(py::datetime, y, mo, d, h, mi, s, u)
#define PyDate_FromDate(y, m, d) py::fill(py::date, y, m, d)
#define PyTime_FromTime(h, m, s, u) py::fill(py::time_, h, m, s, u)
#define PyDelta_FromDSU(d, s, u) py::fill(py::delta, d, s, u)
#define PyDateTime_IMPORT
#define PyDateTime_Check(o) ((o)->kind == py::datetime)
#define PyDelta_Check(o) ((o)->kind == py::delta)
#define PyDate_Check(o) ((o)->kind == py::date)
#define PyTime_Check(o) ((o)->kind == py::time_)
using PyDateTime_DateTime = PyObject;
using PyDateTime_Date = PyObject;
struct PyDateTime_Delta {
  int days, seconds, microseconds;
};
inline int vf_field(const PyObject *o) { return static_cast<int>(o->a); }
#define PyDateTime_GET_YEAR vf_field
#define PyDateTime_GET_MONTH vf_field
#define PyDateTime_GET_DAY vf_field
#define PyDateTime_DATE_GET_HOUR vf_field
#define PyDateTime_DATE_GET_MINUTE vf_field
#define PyDateTime_DATE_GET_SECOND vf_field
#define PyDateTime_DATE_GET_MICROSECOND vf_field
namespace boost::python {
struct type_info {};
template <typename T> type_info type_id() { return {}; }
namespace converter {
struct rvalue_from_python_stage1_data {
  void *convertible;
};
template <typename T> struct rvalue_from_python_storage {
  rvalue_from_python_stage1_data stage1;
  struct {
    char bytes[sizeof(T)];
  } storage;
};
namespace registry {
template <typename... A> void push_back(const A &...) {}
} // namespace registry
} // namespace converter
template <typename T, typename C> struct to_python_converter {};
} // namespace boost::python
