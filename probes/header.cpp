// The properties of a file against the documented layout of its header.
#include "sas7bdat-impl.hpp"
#include "vf.hpp"
#include "epoch.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

namespace {
const uint8_t *second;
size_t nfirst, nsecond;
struct Layout {
  const uint8_t *b;
  bool wide() const { return b[32] == '3'; }
  bool shifted() const { return b[35] == '3'; }
  bool little() const { return b[37] == 1; }
  size_t a() const { return shifted() ? 4 : 0; }
  size_t t() const { return a() + (wide() ? 4 : 0); }
  uint64_t u4(size_t o) const {
    uint32_t x;
    std::memcpy(&x, b + o, 4);
    return little() ? x : __builtin_bswap32(x);
  }
  uint64_t u8(size_t o) const {
    uint64_t x;
    std::memcpy(&x, b + o, 8);
    return little() ? x : __builtin_bswap64(x);
  }
  DATETIME date(size_t o) const { return datetime(vf_double(u8(o))); }
  std::string text(size_t o, size_t n) const { return std::string(reinterpret_cast<const char *>(b + o), n); }
};
const uint8_t MAGIC[32] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf,
                           0xbd, 0x92, 8, 0, 9, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};
bool valid;
template <bool wide, bool shifted, bool little> struct Source {
  bool eof() noexcept { return vf_bool(); }
  bool read_bytes(void *p, size_t n) noexcept {
    vf_write(p, n);
    if (!nfirst) {
      const auto b = static_cast<const uint8_t *>(p);
      nfirst = n;
      if (valid)
        vf_assume(std::memcmp(b, MAGIC, 32) == 0);
      vf_assume((b[32] == '3') == wide);
      vf_assume((b[35] == '3') == shifted);
      vf_assume((b[37] == 1) == little);
      if (valid)
        vf_assume(Layout{b}.u4(196 + 4 * shifted) >= 288 + 4 * shifted + 4 * wide);
    } else {
      second = static_cast<const uint8_t *>(p);
      nsecond = n;
    }
    return valid || vf_bool();
  }
};

void text(int id, const std::string &x, const std::string &y) {
  vf_same(id, x.size(), y.size());
  vf_same(id, vf_addr(x.data()), vf_addr(y.data()));
}
void date(int id, const DATETIME &x, const DATETIME &y) { vf_same(id, vf_bits(x), vf_bits(y)); }
} // namespace

template <bool wide, bool shifted, bool little> static void header() {
  Properties p;
  uint64_t as = 0;
  try {
    auto rh = READ::header(Reader::build_source(Source<wide, shifted, little>{}), &p);
    as = std::visit([](auto &x) -> uint64_t {
      using T = std::decay_t<decltype(x)>;
      return (T::format == Format::bit64 ? 2 : 0) + (T::endian == Endian::little ? 1 : 0);
    }, rh);
  } catch (...) {
    return;
  }
  // the second read follows the first in the same buffer
  const Layout l{second - 288};
  vf_same(1, nfirst, 288);
  vf_same(1, nfirst + nsecond, l.u4(196 + l.a()));
  vf_same(2, p.header_length, l.u4(196 + l.a()));
  vf_same(3, static_cast<uint64_t>(p.format), static_cast<uint64_t>(l.wide() ? Format::bit64 : Format::bit32));
  vf_same(4, static_cast<uint64_t>(p.endianness), static_cast<uint64_t>(l.little() ? Endian::little : Endian::big));
  vf_same(5, static_cast<uint64_t>(p.platform), static_cast<uint64_t>(l.b[39] == '1' ? Platform::unix : l.b[39] == '2' ? Platform::windows : Platform::unknown));
  vf_same(6, p.page_length, l.u4(200 + l.a()));
  vf_same(7, p.page_count, l.u4(204 + l.a()));
  date(8, p.date_created, l.date(164 + l.a()));
  date(9, p.date_modified, l.date(172 + l.a()));
  text(10, p.dataset_name, l.text(92, 64));
  text(11, p.file_type, l.text(156, 8));
  text(12, p.sas_release, l.text(216 + l.t(), 8));
  text(13, p.sas_server_type, l.text(224 + l.t(), 16));
  text(14, p.os_type, l.text(240 + l.t(), 16));
  text(15, p.os_name, l.b[272 + l.t()] ? l.text(272 + l.t(), 16) : l.text(256 + l.t(), 16));
  vf_same(18, as, (l.wide() ? 2 : 0) + (l.little() ? 1 : 0));
  text(16, p.encoding, std::string(get_encoding(l.b[70])));
}

// a header that is long enough and starts with the magic number is accepted
template <bool wide, bool shifted, bool little> static void accepted() {
  Properties p;
  valid = true;
  try {
    auto rh = READ::header(Reader::build_source(Source<wide, shifted, little>{}), &p);
  } catch (...) {
    vf_assert(false, 20);
  }
}

// a text without the blanks around it and the characters that do not print after it
struct Part {
  size_t at, size;
};
template <int i, int n> Part ends(const uint8_t *p) {
  if constexpr (n == 0)
    return {i, 0};
  else
    return !std::isprint(p[i + n - 1]) || std::isspace(p[i + n - 1]) ? ends<i, n - 1>(p) : Part{i, n};
}
template <int i, int n> Part part(const uint8_t *p) {
  if constexpr (n == 0)
    return {i, 0};
  else
    return std::isspace(p[i]) ? part<i + 1, n - 1>(p) : ends<i, n>(p);
}
template <int n> static void trimmed() {
  const auto p = vf_ptr();
  const auto x = get_string_trim(p, n);
  const auto y = part<0, n>(p);
  vf_same(17, x.size(), y.size);
  vf_same(17, x.size() ? vf_addr(x.data()) : 0, y.size ? vf_addr(p + y.at) : 0);
}

extern "C" {
void vfp_trimmed() {
  trimmed<1>();
}
void vfp_accepted_000() { accepted<false, false, false>(); }
void vfp_accepted_001() { accepted<false, false, true>(); }
void vfp_accepted_010() { accepted<false, true, false>(); }
void vfp_accepted_011() { accepted<false, true, true>(); }
void vfp_accepted_100() { accepted<true, false, false>(); }
void vfp_accepted_101() { accepted<true, false, true>(); }
void vfp_accepted_110() { accepted<true, true, false>(); }
void vfp_accepted_111() { accepted<true, true, true>(); }
void vfp_header_000() { header<false, false, false>(); }
void vfp_header_001() { header<false, false, true>(); }
void vfp_header_010() { header<false, true, false>(); }
void vfp_header_011() { header<false, true, true>(); }
void vfp_header_100() { header<true, false, false>(); }
void vfp_header_101() { header<true, false, true>(); }
void vfp_header_110() { header<true, true, false>(); }
void vfp_header_111() { header<true, true, true>(); }
}
