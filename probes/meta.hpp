// A file with one page, and the documented places of its fields.
#pragma once
#include "sas7bdat-impl.hpp"
#include "vf.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

namespace {
const uint8_t *page; // the page read last
struct Source {
  bool eof() noexcept { return vf_bool(); }
  bool read_bytes(void *p, size_t n) noexcept {
    vf_write(p, n);
    page = static_cast<const uint8_t *>(p);
    return true;
  }
};
using DS = Source *;
Source source;

// --- the reference: the fields of the file
template <Endian e, Format f> struct Fields {
  static constexpr size_t I = f == Format::bit64 ? 8 : 4;
  template <typename T> static uint64_t at(size_t o) {
    T x;
    std::memcpy(&x, page + o, sizeof(T));
    if constexpr (sizeof(T) == 1 || e == Endian::little)
      return x;
    else if constexpr (sizeof(T) == 2)
      return __builtin_bswap16(x);
    else if constexpr (sizeof(T) == 4)
      return __builtin_bswap32(x);
    else
      return __builtin_bswap64(x);
  }
  static uint64_t u1(size_t o) { return page[o]; }
  static uint64_t u2(size_t o) { return at<uint16_t>(o); }
  static uint64_t u4(size_t o) { return at<uint32_t>(o); }
  static uint64_t ui(size_t o) {
    if constexpr (I == 8)
      return at<uint64_t>(o);
    else
      return at<uint32_t>(o);
  }
  // the signature, in the order of the bytes of the file
  static void signature(size_t o, uint64_t s) {
    if constexpr (I == 4)
      s &= 0xFFFFFFFF;
    vf_assume(ui(o) == s);
    __builtin_assume(ui(o) == s);
  }
};
std::string text(const std::string &s, size_t o, size_t n) {
  o = std::min(o, s.size());
  n = std::min(n, s.size() - o);
  return n ? std::string(s.data() + o, n) : std::string();
}
void same(int id, const std::string &x, const std::string &y) {
  vf_same(id, x.size(), y.size());
  vf_same(id, x.size() ? vf_addr(x.data()) : 0, y.size() ? vf_addr(y.data()) : 0);
}

template <Endian e, Format f> struct File {
  using M = READ_METADATA<DS, e, f>;
  using B = Fields<e, f>;
  static constexpr size_t I = B::I;
  Properties p;
  M rm;
  PAGE_SUBHEADER sub;
  static auto header() {
    return READ_HEADER<DS, e, f>(CHECK_HEADER<DS>(&source));
  }
  File() : rm(header(), &p) {
    p.page_length = vf_u64();
    vf_assume(p.page_length > 288);
    __builtin_assume(p.page_length > 288);
    if (!rm.read_page())
      throw 1;
    // any subheader
    const size_t o = static_cast<uint32_t>(vf_u64());
    sub.offset = o;
    sub.length = static_cast<uint32_t>(vf_u64());
  }
};

// any text
std::string any() { return std::string(reinterpret_cast<const char *>(vf_ptr()), vf_u64()); }
} // namespace
