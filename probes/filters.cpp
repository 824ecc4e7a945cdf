// The column filters, as a function of the membership of the name.
#include <cppsas7bdat/filter/column.hpp>
#include "vf.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::ColumnFilter;

namespace {
struct Formatter {
  Column::Type type{Column::Type::number};
  size_t length{8};
  SV get_string(const void *) const { return {}; }
  NUMBER get_number(const void *) const { return {}; }
  INTEGER get_integer(const void *) const { return {}; }
  DATETIME get_datetime(const void *) const { return {}; }
  DATE get_date(const void *) const { return {}; }
  TIME get_time(const void *) const { return {}; }
  STRING to_string(const void *) const { return {}; }
};
std::string text() { return std::string(reinterpret_cast<const char *>(vf_ptr()), vf_u64()); }
Column column() { return Column(text(), text(), text(), Formatter{}); }
template <typename S> bool has(const S &s, const std::string &x) { return s.find(x) != s.end(); }
} // namespace

extern "C" {
void vfp_all() {
  const auto c = column();
  vf_assert(AcceptAll().accept(c), 1);
}
void vfp_include() {
  Include f;
  const auto c = column();
  vf_havoc(f.included);
  vf_same(2, f.accept(c), has(f.included, c.name));
}
void vfp_exclude() {
  Exclude f;
  const auto c = column();
  vf_havoc(f.excluded);
  vf_same(3, f.accept(c), !has(f.excluded, c.name));
}
void vfp_both() {
  IncludeExclude f;
  const auto c = column();
  vf_havoc(f.included);
  vf_havoc(f.excluded);
  vf_same(4, f.accept(c), f.included.empty() ? !has(f.excluded, c.name) : has(f.included, c.name));
}
}
