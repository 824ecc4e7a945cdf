// The references the Python sinks hold, and the attribute they set.
#define REFERENCES
#include "python.cpp"

namespace {
// the references to the object of the user
template <typename S, typename... A> void owned(const A &...a) {
  Keep<Start> s;
  Keep<S> k(&it, a...);
  vf_same(8, static_cast<uint64_t>(it.refs), 1);
  Keep<S> l(static_cast<S &&>(k.x));
  k.x.~S();
  vf_same(8, static_cast<uint64_t>(it.refs), 1);
  l.x.~S();
  vf_same(8, static_cast<uint64_t>(it.refs), 0);
}
template <typename S, bool end, typename... A> void attribute(const A &...a) {
  Keep<Start> s;
  Keep<S> k(&it, a...);
  k.x.SinkBase::set_properties(s.x.p);
  const PyObject *o = &py::objects[0];
  vf_same(9, it.attribute, vf_addr(o));
  vf_same(9, o->kind, py::cpp);
  vf_same(9, o->a, vf_addr(static_cast<SinkBase *>(&k.x)));
  if (end) {
    k.x.end_of_data();
    vf_same(10, it.attribute, 0);
  }
  k.x.~S();
  vf_same(10, it.attribute, 0);
  vf_same(8, static_cast<uint64_t>(it.refs), 0);
}
} // namespace

extern "C" {
void vfp_owned_row() { owned<Sink>(); }
void vfp_owned_chunk() { owned<SinkChunk>(size_t{2}); }
void vfp_owned_data() { owned<SinkData>(); }
void vfp_attribute_row() { attribute<Sink, false>(); }
void vfp_attribute_end() { attribute<Sink, true>(); }
void vfp_attribute_chunk() { attribute<SinkChunk, false>(size_t{2}); }
void vfp_attribute_data() { attribute<SinkData, true>(); }
}
