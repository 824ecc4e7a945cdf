// The whole path of a file: header, metadata, data; for one endianness,
// format and decompressor.
#include "sas7bdat-impl.hpp"
#include "vf.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;
namespace {
struct Source {
  bool eof() noexcept { return vf_bool(); }
  bool read_bytes(void *p, size_t n) noexcept {
    vf_write(p, n);
    return vf_bool();
  }
};
struct Handle {
  Source *operator->() noexcept { return &s; }
  explicit operator bool() const noexcept { return true; }
  Source s;
};
struct Getters {
  const Properties::Metadata *m;
  bool accept(const Column &c) const {
    while (vf_bool()) {
      const uint8_t *p = vf_ptr();
      vf_region(p, m->row_length);
      auto s = c.get_string(p);
      vf_use(s.data(), s.size());
      (void)c.get_number(p);
      (void)c.get_integer(p);
      (void)c.get_datetime(p);
      (void)c.get_date(p);
      (void)c.get_time(p);
      (void)c.to_string(p);
      (void)c.length();
    }
    return vf_bool();
  }
};
} // namespace
template <Endian e, Format f, typename DEC, typename B> static void whole(B build) {
  try {
    Properties properties;
    Reader::PFILTER filter = Reader::build_filter(Getters{&properties});
    CHECK_HEADER<Handle> ch{Handle{}};
    ch.check_magic_number();
    ch.set_aligns_endianness(&properties);
    READ_HEADER<Handle, e, f> rh(std::move(ch));
    rh.set_header_length_and_read(&properties);
    rh.set_header(&properties);
    READ_METADATA<Handle, e, f> rm(std::move(rh), &properties);
    rm.set_metadata(&properties, filter);
    READ_DATA<Handle, e, f, DEC> rd(std::move(rm), build(&properties), &properties);
    rd.set_pheader(&properties);
    rd.set_pmetadata(&properties);
    while (vf_bool()) {
      auto v = rd.read_line();
      if (v) {
        vf_use(v->data(), v->size());
        // an uncompressed file has no compressed rows: see the page checks
        if constexpr (!std::is_same_v<DEC, DECOMPRESSOR::None>)
          vf_use(v->data(), properties.row_length);
      }
    }
  } catch (...) {
  }
}
#define WHOLE(NAME, E, F)                                                                                              \
  extern "C" void vfp_##NAME##_none() {                                                                                \
    whole<Endian::E, Format::F, DECOMPRESSOR::None>([](const Properties *) { return DECOMPRESSOR::None(); });          \
  }                                                                                                                    \
  extern "C" void vfp_##NAME##_rle() {                                                                                 \
    using DEC = DECOMPRESSOR::RLE<Endian::E, Format::F>;                                                                 \
    whole<Endian::E, Format::F, DEC>([](const Properties *p) { return DEC(p); });                                          \
  }                                                                                                                    \
  extern "C" void vfp_##NAME##_rdc() {                                                                                 \
    using DEC = DECOMPRESSOR::RDC<Endian::E, Format::F>;                                                                 \
    whole<Endian::E, Format::F, DEC>([](const Properties *p) { return DEC(p); });                                          \
  }
WHOLE(l64, little, bit64)
WHOLE(l32, little, bit32)
WHOLE(b64, big, bit64)
WHOLE(b32, big, bit32)
