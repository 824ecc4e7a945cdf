// The commands of the compressions, in lockstep with a reference: the monitors
// are called at each access of the decompressor.
#include "sas7bdat-impl.hpp"
#include "vf.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;
namespace {
enum {
  ON,   // a row is being decompressed: its compression
  S,    // bytes of the source used so far
  F,    // bytes of the row written so far
  IDX,  // bytes of the current command read so far, or one of the states below
  B0, B1, B2,
  F0,   // bytes of the row written before the current command
  END,  // the row is being completed
  N,    // size of the source
  L,    // size of the row
  MASK = 64, // RDC: the control bit of the last item
  CTRL,      // RDC: the control bits
};
enum { RLE = 1, RDC = 2 };
enum { CTRL1 = 101, LITERAL };
enum { NONE, CONST, SOURCE, PATTERN };
inline uint64_t g(int i) { return vf_get(i); }
inline void s(int i, uint64_t v) { vf_set(i, v); }
inline uint32_t g32(int i) { return (uint32_t)vf_get(i); } // as wide as the variables of the program
inline bool rle() { return g(ON) == RLE; }
// What a command is, given its bytes: how many they are
inline unsigned command_bytes(uint64_t b0) {
  if (rle())
    switch (b0 >> 4) {
    case 0x0: return 2; // copy
    case 0x4: return 3; // a byte
    case 0x5: return 2; // @
    case 0x6: return 2; // blanks
    case 0x7: return 2; // zeros
    case 0x8: return 1; // copies
    case 0x9: return 1;
    case 0xA: return 1;
    case 0xB: return 1;
    case 0xC: return 2; // a byte
    case 0xD: return 1; // @
    case 0xE: return 1; // blanks
    case 0xF: return 1; // zeros
    default: return 0;  // not a command
    }
  switch (b0 >> 4) {
  case 0: return 2;  // short run
  case 1: return 3;  // long run
  case 2: return 3;  // long pattern
  default: return 2; // short pattern
  }
}
// what it writes
inline int command_kind(uint64_t b0) {
  if (rle())
    switch (b0 >> 4) {
    case 0x0: case 0x8: case 0x9: case 0xA: case 0xB: return SOURCE;
    default: return CONST;
    }
  return b0 >> 4 < 2 ? CONST : PATTERN;
}
inline uint64_t command_value(uint64_t b0, uint64_t b1, uint64_t b2) {
  if (rle())
    switch (b0 >> 4) {
    case 0x4: return b2;
    case 0xC: return b1;
    case 0x5: case 0xD: return '@';
    case 0x6: case 0xE: return ' ';
    default: return 0;
    }
  return b0 >> 4 ? b2 : b1;
}
inline uint64_t pattern_offset(uint64_t b0, uint64_t b1) { return (b0 & 15) + 3 + (b1 << 4); }
inline uint64_t command_total(uint64_t b0, uint64_t b1, uint64_t b2) {
  uint64_t lo = b0 & 15;
  if (rle())
    switch (b0 >> 4) {
    case 0x0: return (lo << 8) + b1 + 64;
    case 0x4: return (lo << 4) + b1 + 18;
    case 0x5: case 0x6: case 0x7: return (lo << 8) + b1 + 17;
    case 0x8: return lo + 1;
    case 0x9: return lo + 17;
    case 0xA: return lo + 33;
    case 0xB: return lo + 49;
    case 0xC: return lo + 3;
    default: return lo + 2;
    }
  switch (b0 >> 4) {
  case 0: return lo + 3;
  case 1: return lo + (b1 << 4) + 19;
  case 2: return b2 + 16;
  default: return b0 >> 4;
  }
}
inline void in(uint64_t off, uint64_t v) {
  vf_assert(off == g(S), 1);  // the bytes of the source are read in turn
  vf_assert(g(END) == 0, 2);  // nothing is read once the row is being completed
  s(S, off + 1);
  uint64_t i = g(IDX);
  if (i == 0) {
    s(F0, g(F));
    if (rle()) {
      s(B0, v);
      s(IDX, 1);
      vf_split(v >> 4, 16);
    } else if (g32(MASK) >> 1 == 0) {
      s(CTRL, (uint32_t)v << 8);
      s(IDX, CTRL1);
    } else {
      s(MASK, g32(MASK) >> 1);
      s(B0, v);
      if ((g32(CTRL) & g32(MASK)) == 0)
        s(IDX, LITERAL);
      else {
        s(IDX, 1);
        vf_split(v >> 4, 3);
      }
    }
  } else if (i == CTRL1) {
    s(CTRL, g32(CTRL) + (uint32_t)v);
    s(MASK, 0x10000);
    s(IDX, 0);
  } else {
    vf_assert(i < command_bytes(g(B0)), 3); // not more bytes than the command has
    if (i == 1)
      s(B1, v);
    else
      s(B2, v);
    s(IDX, i + 1);
  }
}
inline void out(uint64_t off, uint64_t len, int kind, uint64_t v) {
  vf_assert(off == g(F), 4); // the bytes of the row are written in turn
  s(F, off + len);
  uint64_t i = g(IDX);
  if (i == 0) { // completion of the row
    vf_assert(kind == CONST && v == 0, 5);
    if (!rle())
      vf_assert(g(S) + 2 >= g(N), 25);
    vf_assert(g(S) == g(N), 24); // completed before the end of the source
    s(END, 1);
    return;
  }
  if (i == LITERAL) {
    vf_assert(kind == CONST && v == g(B0) && len == 1, 11);
    s(IDX, 0);
    return;
  }
  vf_assert(i == command_bytes(g(B0)), 6); // the command is complete
  vf_assert(kind == command_kind(g(B0)), 7);
  uint64_t t = command_total(g(B0), g(B1), g(B2));
  if (kind == CONST)
    vf_assert(v == command_value(g(B0), g(B1), g(B2)), 8);
  else if (kind == SOURCE) {
    vf_assert(v == g(S), 9); // the bytes that follow
    uint64_t left = g(N) - g(S) + (off - g(F0));
    t = t < left ? t : left;
    s(S, v + len);
  } else
    vf_assert(v + pattern_offset(g(B0), g(B1)) == off, 9); // what was written before
  vf_assert(off + len <= g(F0) + t, 10);
  if (off + len == g(F0) + t)
    s(IDX, 0);
}
} // namespace
extern "C" {
__attribute__((used)) void vfm_load(int kind, size_t off, size_t len, uint64_t v, size_t) {
  if (g(ON) && kind == 1) {
    vf_assert(len == 1, 12);
    in(off, v);
  }
}
__attribute__((used)) void vfm_store(int kind, size_t off, size_t len, uint64_t v, int sk, size_t so, size_t) {
  if (g(ON) && kind == 2) {
    vf_assert(len == 1, 13);
    if (sk == 2)
      out(off, len, PATTERN, so);
    else
      out(off, len, CONST, v);
  }
}
__attribute__((used)) void vfm_set(int kind, size_t off, size_t len, uint64_t v, size_t) {
  if (g(ON) && kind == 2)
    out(off, len, CONST, v);
}
__attribute__((used)) void vfm_copy(int kind, size_t off, size_t len, int sk, size_t so, size_t) {
  if (g(ON) && kind == 2)
    out(off, len, sk == 1 ? SOURCE : NONE, so);
}
// A row is only rejected for a reason.
__attribute__((used)) void vfm_throw() {
  if (!g(ON))
    return;
  uint64_t i = g(IDX), b0 = g(B0), b1 = g(B1), b2 = g(B2);
  if (i == CTRL1)
    vf_assert(g(S) == g(N), 14); // the source ends in the control bits
  else if (i == LITERAL)
    vf_assert(g(F) == g(L), 15); // there is no room for it
  else if (i == 0 || i < command_bytes(b0))
    vf_assert(g(S) == g(N), 16); // the source ends in the command
  else if (command_bytes(b0) == 0)
    ; // not a command
  else {
    uint64_t t = command_total(b0, b1, b2);
    if (command_kind(b0) == SOURCE) {
      uint64_t left = g(N) - g(S);
      t = t < left ? t : left;
    }
    if (command_kind(b0) == PATTERN)
      vf_assert(g(F) + t > g(L) || pattern_offset(b0, b1) > g(F), 18);
    else
      vf_assert(g(F) + t > g(L), 17); // there is no room for what it writes
  }
}
}
template <int K, class DEC> static inline void run() {
  Properties::Metadata m;
  m.row_length = vf_u64();
  DEC d(&m);
  vf_cut(IDX, 0);
  vf_cut(END, 0);
  if (K == RDC) {
    vf_cut(IDX, 2);
    vf_cut(IDX, 3);
    vf_cut_phi(MASK, 32, 2);
    vf_cut_phi(CTRL, 32, 2);
  }
  while (vf_bool()) {
    const uint8_t *p = vf_ptr();
    size_t n = vf_u64();
    vf_region(p, n);
    vf_const(p);
    s(S, 0); s(F, 0); s(IDX, 0); s(F0, 0); s(END, 0); s(N, n); s(L, m.row_length);
    s(B0, 0); s(B1, 0); s(B2, 0);
    s(MASK, 0); s(CTRL, 0);
    try {
      s(ON, K);
      auto r = d(BYTES(p, n));
      s(ON, 0);
      vf_assert(g(IDX) == 0, 20);
      vf_assert(g(F) == m.row_length, 22);
      vf_assert(r.size() == m.row_length, 23);
    } catch (...) {
      s(ON, 0);
    }
  }
}
#define DECS(N, E, F)                                                                                                  \
  extern "C" void vfp_rle_##N() { run<RLE, DECOMPRESSOR::RLE<Endian::E, Format::F>>(); }                               \
  extern "C" void vfp_rdc_##N() { run<RDC, DECOMPRESSOR::RDC<Endian::E, Format::F>>(); }
DECS(l64, little, bit64)
DECS(l32, little, bit32)
DECS(b64, big, bit64)
DECS(b32, big, bit32)
