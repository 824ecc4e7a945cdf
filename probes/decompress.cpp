#include "sas7bdat-impl.hpp"
#include "vf.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;
template <class DEC> static inline void run() {
  Properties::Metadata m;
  m.row_length = vf_u64();
  DEC d(&m);
  while (vf_bool()) {
    const uint8_t *p = vf_ptr();
    size_t n = vf_u64();
    vf_region(p, n);
    try {
      auto r = d(BYTES(p, n));
      vf_use(r.data(), r.size());
    } catch (...) {
    }
  }
}
#define DECS(N, E, F)                                                                                                  \
  extern "C" void vfp_rle_##N() { run<DECOMPRESSOR::RLE<Endian::E, Format::F>>(); }                                    \
  extern "C" void vfp_rdc_##N() { run<DECOMPRESSOR::RDC<Endian::E, Format::F>>(); }
DECS(l64, little, bit64)
DECS(l32, little, bit32)
DECS(b64, big, bit64)
DECS(b32, big, bit32)
