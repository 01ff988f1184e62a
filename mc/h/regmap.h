// Reference register maps of the two AXI-Lite slaves.
#pragma once
#include "ref.h"
#ifdef DMA
struct Regs { uint32_t rw[3];
  void reset() { rw[0] = rw[1] = rw[2] = 0; }
  static uint32_t inval(int k) { return 0x11111111u * (k + 1) ^ 0x80000000u; }
  // response code; data is meaningful only for 0
  int read(uint32_t a, uint32_t& d, bool& any) const { unsigned w = a >> 2, i = w & 15; any = false; if (!(w >> 10 & 1)) { any = true; return 3; } if (i < 3) d = rw[i]; else if (i < 12) d = inval(i - 3); else any = true; return 0; }
  int write(uint32_t a, uint32_t v, int s) { unsigned w = a >> 2, i = w & 15; if (!(w >> 10 & 1)) return 3; if (i < 3) { for (int b = 0; b < 4; b++) if (s >> b & 1) rw[i] = (rw[i] & ~(0xffu << 8 * b)) | (v & (0xffu << 8 * b)); return 0; } if (i < 12) return s ? 2 : 0; return 0; }
};
#else
#ifndef DEBUG
#define DEBUG 0
#endif
struct Regs { uint64_t mem[17]; uint32_t hw, ac, dbg[8];
  void reset() { memset(this, 0, sizeof *this); for (int k = 0; k <= BD; k++) mem[k] = (uint64_t)ref::HUFF[k].len << (16 + BD) | (uint64_t)ref::HUFF[k].bits << (k == 16 ? 0 : k); }
  int read(uint32_t a, uint32_t& d, bool& any) const { unsigned w = a >> 2; any = false; unsigned i = w & 63;
    if ((w >> 10 & 1) && i < 2 * (BD + 1)) { d = (uint32_t)(mem[i >> 1] >> (i & 1 ? 32 : 0)); return 0; }
    if (w >> 11 & 1) { d = w & 1 ? ac : hw; return 0; }
    if (DEBUG && (w >> 12 & 1)) { d = dbg[w & 7]; return 0; }
    any = true; return 3; }
  static uint32_t mrg(uint32_t o, uint32_t v, int s) { for (int b = 0; b < 4; b++) if (s >> b & 1) o = (o & ~(0xffu << 8 * b)) | (v & (0xffu << 8 * b)); return o; }
  int write(uint32_t a, uint32_t v, int s) { unsigned w = a >> 2; unsigned i = w & 63;
    if ((w >> 10 & 1) && i < 2 * (BD + 1)) { uint64_t& m = mem[i >> 1]; uint32_t lo = (uint32_t)m, hi = (uint32_t)(m >> 32); if (i & 1) hi = mrg(hi, v, s); else lo = mrg(lo, v, s); m = ((uint64_t)hi << 32 | lo) & ((1ull << (BD + 21)) - 1); return 0; }
    if (w >> 11 & 1) { if (w & 1) ac = mrg(ac, v, s) & 0xffffff; else hw = mrg(hw, v, s); return 0; }
    if (DEBUG && (w >> 12 & 1)) return 2;
    return 3; }
};
#endif
