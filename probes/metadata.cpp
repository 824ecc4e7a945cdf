// The metadata of a file against the documented layout of its subheaders.
#include "meta.hpp"

namespace {
template <Endian e, Format f> void rowsize() {
  File<e, f> x;
  using B = Fields<e, f>;
  const size_t o = x.sub.offset;
  B::signature(o, f == Format::bit64 && e == Endian::big ? 0x00000000F7F7F7F7 : 0xF7F7F7F7);
  vf_same(1, x.rm.process_subheader(x.sub, &x.p), 0);
  constexpr size_t I = B::I;
  vf_same(2, x.p.row_length, B::ui(o + 5 * I));
  vf_same(3, x.p.row_count, B::ui(o + 6 * I));
  vf_same(4, x.p.col_count_p1, B::ui(o + 9 * I));
  vf_same(5, x.p.col_count_p2, B::ui(o + 10 * I));
  vf_same(6, x.p.mix_page_row_count, B::ui(o + 15 * I));
  vf_same(7, x.p.lcs, B::u2(o + (I == 8 ? 682 : 354)));
  vf_same(8, x.p.lcp, B::u2(o + (I == 8 ? 706 : 378)));
}
template <Endian e, Format f> void colsize() {
  File<e, f> x;
  using B = Fields<e, f>;
  const size_t o = x.sub.offset;
  B::signature(o, 0xF6F6F6F6);
  vf_same(1, x.rm.process_subheader(x.sub, &x.p), 0);
  vf_same(9, x.p.column_count, B::ui(o + B::I));
}
template <Endian e, Format f> void format() {
  File<e, f> x;
  using B = Fields<e, f>;
  const size_t o = x.sub.offset;
  B::signature(o, 0xFFFFFFFFFFFFFBFE);
  x.rm.column_texts.push_back(any());
  x.rm.column_texts.push_back(any());
  x.rm.process_subheader(x.sub, &x.p);
  vf_same(10, x.rm.column_formats.size(), 1);
  vf_same(10, x.rm.column_labels.size(), 1);
  auto part = [&](size_t at) {
    const size_t i = B::u2(o + at), b = B::u2(o + at + 2), n = B::u2(o + at + 4);
    return i < 2 ? text(x.rm.column_texts[i], b, n) : std::string();
  };
  same(11, x.rm.column_formats.back(), part(3 * B::I + 22));
  same(12, x.rm.column_labels.back(), part(3 * B::I + 28));
}
// n entries, with r bytes after the last one
template <Endian e, Format f, size_t n, size_t r> void name() {
  File<e, f> x;
  if (n > 1)
    x.sub.offset = 1000;
  using B = Fields<e, f>;
  const size_t o = x.sub.offset;
  x.sub.length = B::I + 8 + 8 * n + B::I + 4 + r;
  B::signature(o, 0xFFFFFFFFFFFFFFFF);
  x.rm.column_texts.push_back(any());
  x.rm.column_texts.push_back(any());
  x.rm.process_subheader(x.sub, &x.p);
  vf_same(13, x.rm.column_names.size(), n);
  for (size_t k = 0; k < n; ++k) {
    const size_t at = o + B::I + 8 + 8 * k;
    const size_t i = B::u2(at), b = B::u2(at + 2), m = B::u2(at + 4);
    same(14, x.rm.column_names[k], i < 2 ? text(x.rm.column_texts[i], b, m) : std::string());
  }
}
template <Endian e, Format f> void names0() { name<e, f, 0, 7>(); }
template <Endian e, Format f> void names1() { name<e, f, 1, 0>(); }
template <Endian e, Format f> void names3() { name<e, f, 3, 3>(); }
template <Endian e, Format f, size_t n, size_t r> void attribute() {
  File<e, f> x;
  if (n > 1)
    x.sub.offset = 1000;
  using B = Fields<e, f>;
  const size_t o = x.sub.offset;
  x.sub.length = B::I + 8 + (B::I + 8) * n + 4 + r;
  B::signature(o, 0xFFFFFFFFFFFFFFFC);
  x.rm.process_subheader(x.sub, &x.p);
  vf_same(15, x.rm.column_data_offsets.size(), n);
  vf_same(15, x.rm.column_data_lengths.size(), n);
  vf_same(15, x.rm.column_data_types.size(), n);
  for (size_t k = 0; k < n; ++k) {
    const size_t at = o + B::I + 8 + (B::I + 8) * k;
    vf_same(16, x.rm.column_data_offsets[k], B::ui(at));
    vf_same(17, x.rm.column_data_lengths[k], B::u4(at + B::I));
    vf_same(18, static_cast<uint64_t>(x.rm.column_data_types[k]),
            static_cast<uint64_t>(B::u1(at + B::I + 6) == 1 ? Column::Type::number : Column::Type::string));
  }
}
template <Endian e, Format f> void attributes0() { attribute<e, f, 0, 3>(); }
template <Endian e, Format f> void attributes1() { attribute<e, f, 1, 0>(); }
template <Endian e, Format f> void attributes3() { attribute<e, f, 3, 7>(); }
// the texts of the columns; the first one tells the compression too
template <Endian e, Format f> void texts() {
  File<e, f> x;
  using B = Fields<e, f>;
  const size_t o = x.sub.offset;
  B::signature(o, 0xFFFFFFFFFFFFFFFD);
  x.rm.column_texts.push_back(any());
  x.rm.process_subheader(x.sub, &x.p);
  vf_same(19, x.rm.column_texts.size(), 2);
  same(20, x.rm.column_texts[1], std::string(reinterpret_cast<const char *>(page + o + B::I), B::u2(o + B::I)));
}
// what the page says of itself and of its subheaders
template <Endian e, Format f> void pointers() {
  File<e, f> x;
  using B = Fields<e, f>;
  constexpr size_t I = B::I, bit = 4 * I;
  const auto &h = x.rm.current_page_header;
  vf_same(21, h.type, B::u2(bit));
  vf_same(22, h.block_count, B::u2(bit + 2));
  vf_same(23, h.subheaders_count, B::u2(bit + 4));
  x.rm.current_page_header.subheaders_count = 2;
  PAGE_SUBHEADER got[2]{};
  size_t n = 0;
  x.rm.process_page_subheaders([&](const PAGE_SUBHEADER &s) { got[n++] = s; });
  PAGE_SUBHEADER want[2]{};
  size_t m = 0;
  for (size_t k = 0; k < 2; ++k) {
    const size_t at = bit + 8 + 3 * I * k;
    if (B::ui(at + I) && B::u1(at + 2 * I) != 1)
      want[m++] = PAGE_SUBHEADER{B::ui(at), B::ui(at + I), static_cast<uint8_t>(B::u1(at + 2 * I)), static_cast<uint8_t>(B::u1(at + 2 * I + 1))};
  }
  vf_same(24, n, m);
  for (size_t k = 0; k < 2; ++k) {
    vf_same(25, got[k].offset, want[k].offset);
    vf_same(26, got[k].length, want[k].length);
    vf_same(27, got[k].compression, want[k].compression);
    vf_same(28, got[k].type, want[k].type);
  }
}
// what a page of each type is for
template <Endian e, Format f> void page_types() {
  File<e, f> x;
  using B = Fields<e, f>;
  constexpr size_t I = B::I, at = 4 * I + 8;
  x.rm.current_page_header.subheaders_count = 1;
  const size_t o = B::ui(at);
  B::signature(o, 0xF6F6F6F6);
  vf_assume(B::ui(at + I) != 0);
  vf_assume(B::u1(at + 2 * I) != 1);
  const uint64_t t = x.rm.current_page_header.type;
  const uint64_t old = x.p.column_count;
  const bool meta = t == 0 || t == 512 || t == 640 || t == 1024, data = t == 256 || t == 512 || t == 640;
  const bool last = x.rm.process_page(&x.p);
  vf_same(29, last, data);
  vf_same(30, x.p.column_count, meta ? B::ui(o + I) : old);
}
// the subheaders that are compressed rows
template <Endian e, Format f> void rows() {
  File<e, f> x;
  using B = Fields<e, f>;
  const size_t o = x.sub.offset;
  B::signature(o, 0x0102030401020304);
  const uint64_t c = static_cast<uint32_t>(vf_u64()), how = vf_u64() & 255, what = vf_u64() & 255;
  x.p.compression = static_cast<Compression>(c);
  x.sub.compression = static_cast<uint8_t>(how);
  x.sub.type = static_cast<uint8_t>(what);
  const bool row = c != static_cast<uint64_t>(Compression::none) && (how == 0 || how == 4) && what == 1;
  vf_same(31, x.rm.process_subheader(x.sub, &x.p), row);
  vf_same(32, x.rm.data_subheaders.size(), row);
}
// the metadata end at the first page that has compressed rows
template <Endian e, Format f> void stop() {
  File<e, f> x;
  using B = Fields<e, f>;
  constexpr size_t I = B::I, at = 4 * I + 8;
  x.rm.current_page_header.type = 0;
  x.rm.current_page_header.subheaders_count = 1;
  x.p.compression = Compression::RLE;
  B::signature(B::ui(at), 0x0102030401020304);
  vf_assume(B::ui(at + I) != 0);
  vf_assume(B::u1(at + 2 * I) == 4);
  vf_assume(B::u1(at + 2 * I + 1) == 1);
  vf_same(33, x.rm.process_page(&x.p), 1);
}
} // namespace

extern "C" {
#define ALL(n) \
  void vfp_##n##_l64() { n<Endian::little, Format::bit64>(); } \
  void vfp_##n##_l32() { n<Endian::little, Format::bit32>(); } \
  void vfp_##n##_b64() { n<Endian::big, Format::bit64>(); } \
  void vfp_##n##_b32() { n<Endian::big, Format::bit32>(); }
ALL(rowsize)
ALL(colsize)
ALL(format)
ALL(names0)
ALL(names1)
ALL(names3)
ALL(attributes0)
ALL(attributes1)
ALL(attributes3)
ALL(texts)
ALL(pointers)
ALL(page_types)
ALL(rows)
ALL(stop)
}
