// Reference model: what LJ92 (ITU-T T.81 lossless, predictor 1, four interleaved components) prescribes.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
namespace ref {
struct Code { unsigned bits, len; };
// default Huffman table of the core (SSSS class -> code), written out here independently of the design
static const Code HUFF[17] = {{0xe,4},{0,3},{1,3},{2,3},{3,3},{4,3},{5,3},{6,3},{0x1e,5},{0x3e,6},{0x7e,7},{0xfe,8},{0x1fe,9},{0x3fe,10},{0x7fe,11},{0xffe,12},{0x1ffe,13}};
static inline int ssss_of(int d) { if (d < 0) d = -d; int s = 0; while (d) { s++; d >>= 1; } return s; }
// The T.81 difference: modulo 2^16 and in -32767..32768; for lower depths it is exact.
static inline int diff16(int bd, int px, int pr) { int d = px - pr; if (bd == 16) { d = (int16_t)(uint16_t)d; if (d == -32768) d = 32768; } return d; }
// code word for difference d
static inline Code code(int d, const Code* T = HUFF) { int s = ssss_of(d); Code c = T[s]; if (s == 0) return c; if (s == 16) return c; unsigned v = d > 0 ? (unsigned)d : (unsigned)(d + (1 << s) - 1); return {(c.bits << s) | v, c.len + s}; }
// decodes one code word (msb first in 'bits', 'len' bits); returns number of bits used or -1
static inline int decode(uint64_t bits, int len, int& d, const Code* T = HUFF, int n = 17) { for (int s = 0; s < n; s++) { int l = T[s].len; if (l <= len && (bits >> (len - l)) == T[s].bits) { if (s == 0) { d = 0; return l; } if (s == 16) { d = 32768; return l; } if (l + s > len) return -1; unsigned v = (bits >> (len - l - s)) & ((1u << s) - 1); d = (v >> (s - 1)) ? (int)v : (int)v - (1 << s) + 1; return l + s; } } return -1; }
}
