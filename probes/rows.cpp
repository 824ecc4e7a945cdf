// The rows of a file, page after page.
#include "sas7bdat-impl.hpp"
#include "vf.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

namespace {
// A page: its type, the number of its rows and of its subheaders, the
// compression and the type of its subheaders.
using Page = uint64_t;
constexpr Page P(uint16_t type, uint16_t blocks, uint8_t subheaders, uint32_t flags = 0) {
  return type | Page(blocks) << 16 | Page(subheaders) << 32 | Page(flags) << 40;
}
const uint8_t *page;
bool started;        // the header was read
size_t reads, pages; // the pages that were read, and those of the file
Page script[4];
template <Endian e, Format f> struct Source {
  static constexpr size_t I = f == Format::bit64 ? 8 : 4;
  static void put2(uint8_t *p, uint16_t x) {
    if (e == Endian::big)
      x = __builtin_bswap16(x);
    std::memcpy(p, &x, 2);
  }
  template <int k> static void flags(uint8_t *p, Page s) {
    if (k < static_cast<uint8_t>(s >> 32)) {
      constexpr size_t length = 50 + 10 * k; // shorter than the row, or not
      uint8_t *q = p + 4 * I + 8 + 3 * I * k + I;
      for (size_t i = 0; i < I; ++i)
        q[e == Endian::big ? I - 1 - i : i] = i ? 0 : length;
      p[4 * I + 8 + 3 * I * k + 2 * I] = s >> (40 + 8 * k) & 15;
      p[4 * I + 8 + 3 * I * k + 2 * I + 1] = s >> (44 + 8 * k) & 15;
    }
  }
  bool eof() noexcept { return reads == pages; }
  bool read_bytes(void *q, size_t n) noexcept {
    uint8_t *p = static_cast<uint8_t *>(q);
    vf_write(p, n);
    page = p;
    if (!started)
      return true;
    if (reads == pages)
      return false;
    const Page s = script[reads++];
    put2(p + 4 * I, static_cast<uint16_t>(s));
    put2(p + 4 * I + 2, static_cast<uint16_t>(s >> 16));
    put2(p + 4 * I + 4, static_cast<uint8_t>(s >> 32));
    flags<0>(p, s);
    flags<1>(p, s);
    flags<2>(p, s);
    return true;
  }
};
template <Endian e, Format f> uint64_t ui(size_t o) {
  if constexpr (f == Format::bit64) {
    uint64_t x;
    std::memcpy(&x, page + o, 8);
    return e == Endian::big ? __builtin_bswap64(x) : x;
  } else {
    uint32_t x;
    std::memcpy(&x, page + o, 4);
    return e == Endian::big ? __builtin_bswap32(x) : x;
  }
}
// what was decompressed last
const uint8_t *packed, *plain;
size_t packedLength;
struct Unpack {
  BYTES operator()(BYTES v) const {
    packed = v.data();
    packedLength = v.size();
    plain = vf_ptr();
    return BYTES(plain, vf_u64());
  }
};

template <Endian e, Format f> struct Rows {
  using S = Source<e, f>;
  using DS = S *;
  static constexpr size_t I = S::I;
  S s;
  Properties p;
  union {
    READ_DATA<DS, e, f, Unpack> rd;
  };
  size_t first;
  template <typename... Q> static Properties &plan(Properties &p, Q... q) {
    started = false;
    reads = 0;
    pages = sizeof...(q);
    size_t n = 0;
    ((script[n++] = q), ...);
    p.page_length = vf_u64();
    p.row_length = vf_u64();
    p.row_count = vf_u64();
    p.mix_page_row_count = vf_u64();
    p.compression = Compression::none;
    vf_assume(p.page_length > 288);
    __builtin_assume(p.page_length > 288);
    return p;
  }
  READ_METADATA<DS, e, f> open() {
    READ_METADATA<DS, e, f> rm(READ_HEADER<DS, e, f>(CHECK_HEADER<DS>(&s)), &p);
    started = true;
    if (!rm.read_page())
      throw 1;
    return rm;
  }
  template <typename... Q> explicit Rows(Q... q) : rd((plan(p, q...), open()), Unpack{}, &p) {
    first = vf_u64();
    rd.current_row = first;
  }
  ~Rows() {}
  // on the row k of the page
  void at(size_t k) { rd.page->current_row_on_page = k; }
  // there are n rows left in the file
  void more(size_t n) { p.row_count = first + n; }
  void none(int id) {
    vf_same(id, rd.read_line().has_value(), 0);
    vf_same(id, rd.current_row, first);
  }
  void row(int id, size_t offset, size_t n = 1) {
    const auto v = rd.read_line();
    vf_same(id, v.has_value(), 1);
    vf_same(id, vf_addr(v->data()), vf_addr(page + offset));
    vf_same(id, v->size(), p.row_length);
    vf_same(2, rd.current_row, first + n);
  }
};
constexpr uint16_t META = 0, DATA = 256, MIX = 512, MIX2 = 640, AMD = 1024;
template <Endian e, Format f> void data() {
  Rows<e, f> x(P(DATA, 1000, 0));
  const size_t k = vf_u64();
  vf_assume(k < 1000);
  __builtin_assume(k < 1000);
  vf_assume(x.first < x.p.row_count);
  __builtin_assume(x.first < x.p.row_count);
  x.at(k);
  x.row(1, 4 * x.I + 8 + x.p.row_length * k);
  vf_same(3, x.rd.page->current_row_on_page, k + 1);
}
template <Endian e, Format f, uint16_t type, uint16_t n> void mixed() {
  Rows<e, f> x(P(type, 0, n));
  const size_t k = vf_u64(), m = x.p.mix_page_row_count < x.p.row_count ? x.p.mix_page_row_count : x.p.row_count;
  vf_assume(k < m);
  __builtin_assume(k < m);
  vf_assume(x.first < x.p.row_count);
  __builtin_assume(x.first < x.p.row_count);
  x.at(k);
  size_t o = 4 * x.I + 8 + 3 * x.I * n;
  o += o % 8;
  x.row(1, o + x.p.row_length * k);
  vf_same(3, x.rd.page->current_row_on_page, k + 1);
}
template <Endian e, Format f> void mix0() { mixed<e, f, MIX, 0>(); }
template <Endian e, Format f> void mix2() { mixed<e, f, MIX2, 2>(); }
template <Endian e, Format f> void mix3() { mixed<e, f, MIX, 3>(); }
// no row is read after the last one
template <Endian e, Format f> void over() {
  Rows<e, f> x(P(DATA, 1000, 0));
  const size_t k = vf_u64();
  x.at(k);
  x.more(0);
  x.none(4);
  vf_same(4, x.rd.page->current_row_on_page, k);
  vf_same(4, x.rd.skip(1), 0);
  vf_same(4, x.rd.skip(0), 1);
  vf_same(4, x.rd.current_row, x.first);
}
// the next page
template <Endian e, Format f, typename... Q> void next(Q... q) {
  Rows<e, f> x(P(DATA, 700, 0), q..., P(DATA, 9, 0));
  vf_assume(x.first < x.p.row_count);
  __builtin_assume(x.first < x.p.row_count);
  x.at(700);
  x.row(5, 4 * x.I + 8);
  vf_same(5, reads, 2 + sizeof...(q));
  vf_same(5, x.rd.page->current_row_on_page, 1);
}
template <Endian e, Format f> void next1() { next<e, f>(); }
template <Endian e, Format f> void next_empty() { next<e, f>(P(DATA, 0, 0)); }
template <Endian e, Format f> void next_meta() { next<e, f>(P(META, 5, 0)); }
template <Endian e, Format f> void next_amd() { next<e, f>(P(AMD, 5, 1), P(77, 5, 0)); }
template <Endian e, Format f> void next_mix() {
  Rows<e, f> x(P(MIX, 0, 0), P(DATA, 9, 0));
  vf_assume(x.first < x.p.row_count);
  __builtin_assume(x.first < x.p.row_count);
  x.at(x.p.mix_page_row_count < x.p.row_count ? x.p.mix_page_row_count : x.p.row_count);
  x.row(5, 4 * x.I + 8);
  vf_same(5, reads, 2);
}
// the file ends before its last row
template <Endian e, Format f> void last() {
  Rows<e, f> x(P(DATA, 700, 0), P(META, 3, 0));
  vf_assume(x.first < x.p.row_count);
  __builtin_assume(x.first < x.p.row_count);
  x.at(700);
  x.none(6);
  vf_same(6, reads, 2);
  x.none(6);
}
// as many rows are skipped as would be read
template <Endian e, Format f> void skip1() {
  Rows<e, f> x(P(DATA, 700, 0), P(DATA, 9, 0));
  x.more(3);
  x.at(699);
  vf_same(7, x.rd.skip(1), 1);
  vf_same(7, x.rd.current_row, x.first + 1);
  vf_same(7, x.rd.page->current_row_on_page, 700);
  x.row(7, 4 * x.I + 8, 2);
}
template <Endian e, Format f> void skip3() {
  Rows<e, f> x(P(DATA, 700, 0), P(DATA, 9, 0));
  x.more(2);
  x.at(699);
  vf_same(8, x.rd.skip(3), 0);
  vf_same(8, x.rd.current_row, x.first + 2);
}
// the rows of a compressed file
template <Endian e, Format f> void packed3() {
  Rows<e, f> x(P(DATA, 700, 0), P(META, 0, 3, 0x100414));
  x.p.compression = Compression::RLE;
  x.p.row_length = 70;
  constexpr size_t I = x.I, o = 4 * I + 8;
  x.more(5);
  x.at(700);
  const auto v = x.rd.read_line();
  vf_same(9, v.has_value(), 1);
  vf_same(9, vf_addr(v->data()), vf_addr(plain));
  vf_same(9, vf_addr(packed), vf_addr(page + ui<e, f>(o)));
  vf_same(9, packedLength, 50);
  vf_same(2, x.rd.current_row, x.first + 1);
}
// one of the subheaders of the page where the rows start
template <Endian e, Format f, bool shorter> void packed_nth() {
  Rows<e, f> x(P(META, 0, 3, 0x100414));
  x.p.compression = Compression::RLE;
  x.p.row_length = 70;
  x.more(5);
  const size_t o0 = vf_u64(), o1 = vf_u64(), n = shorter ? 69 : 70;
  DATASUBHEADERS list;
  list.emplace_back(PAGE_SUBHEADER{o0, shorter ? 70u : 20u, 4, 1});
  list.emplace_back(PAGE_SUBHEADER{o1, n, 4, 1});
  list.emplace_back(PAGE_SUBHEADER{vf_u64(), 70, 4, 1});
  x.rd.page.reset(new PAGE::meta_type(std::move(list)));
  x.at(1);
  const auto v = x.rd.read_line();
  vf_same(9, v.has_value(), 1);
  vf_same(9, vf_addr(v->data()), shorter ? vf_addr(plain) : vf_addr(page + o1));
  if (shorter) {
    vf_same(9, vf_addr(packed), vf_addr(page + o1));
    vf_same(9, packedLength, n);
  } else
    vf_same(9, v->size(), 70);
  vf_same(2, x.rd.current_row, x.first + 1);
}
template <Endian e, Format f> void nth_short() { packed_nth<e, f, true>(); }
template <Endian e, Format f> void nth_full() { packed_nth<e, f, false>(); }
} // namespace

extern "C" {
#define ALL(n) \
  void vfp_##n##_l64() { n<Endian::little, Format::bit64>(); } \
  void vfp_##n##_l32() { n<Endian::little, Format::bit32>(); } \
  void vfp_##n##_b64() { n<Endian::big, Format::bit64>(); } \
  void vfp_##n##_b32() { n<Endian::big, Format::bit32>(); }
ALL(data)
ALL(mix0)
ALL(mix2)
ALL(mix3)
ALL(over)
ALL(next1)
ALL(next_empty)
ALL(next_mix)
ALL(next_meta)
ALL(next_amd)
ALL(last)
ALL(skip1)
ALL(skip3)
ALL(packed3)
ALL(nth_short)
ALL(nth_full)
}
