// A reader without a file: default constructed, or moved from.
#include <cppsas7bdat/reader.hpp>
#include "vf.hpp"
using namespace cppsas7bdat;

namespace {
void empty(Reader &r) {
  vf_assert(!r.read_row(), 1);
  vf_assert(!r.read_rows(vf_u64()), 2);
  vf_assert(!r.skip(vf_u64()), 3);
  vf_same(4, vf_addr(r.read_row_no_sink()), 0);
  vf_same(5, r.current_row_index(), 0);
  r.read_all();
  vf_assert(true, 6);
  r.end_of_data();
  vf_assert(true, 7);
  vf_same(8, r.properties().columns.size(), 0);
  vf_same(8, r.properties().row_count, 0);
}
} // namespace

extern "C" {
void vfp_default() {
  Reader r;
  empty(r);
}
void vfp_moved() {
  Reader a;
  vf_havoc(a);
  Reader b(std::move(a));
  empty(a);
  vf_havoc(b);
}
void vfp_assigned() {
  Reader a, b;
  vf_havoc(a);
  b = std::move(a);
  empty(a);
  vf_havoc(b);
}
}
