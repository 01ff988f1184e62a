// Reference encoding of a whole frame: predictor 1 over four interleaved components, default Huffman
// table, msb-first bit string; then the word streams the core's stages produce from it.
#pragma once
#include "ref.h"
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
struct Image { int w, h; std::vector<uint16_t> px; std::string name; };
static inline std::vector<uint8_t> encode_bits(const Image& im, int bd, const ref::Code* T = ref::HUFF) {
  std::vector<uint8_t> bits;
  for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) { int px = im.px[y * im.w + x]; int pr = x >= 4 ? im.px[y * im.w + x - 4] : y > 0 ? im.px[(y - 1) * im.w + x] : 1 << (bd - 1);
    ref::Code c = ref::code(ref::diff16(bd, px, pr), T); for (int k = c.len - 1; k >= 0; k--) bits.push_back(c.bits >> k & 1); }
  return bits; }
// zero-padded big-endian words
static inline std::vector<uint64_t> words(const std::vector<uint8_t>& bits, int n) { std::vector<uint64_t> r; for (size_t i = 0; i < bits.size(); i += n) { uint64_t v = 0; for (int k = 0; k < n; k++) v = v << 1 | (i + k < bits.size() ? bits[i + k] : 0); r.push_back(v); } return r; }
// 0xFF -> 0xFF 0x00 on the bytes of 16-bit words, repacked into 16-bit words, zero padded
static inline std::vector<uint64_t> stuff(const std::vector<uint64_t>& w) { std::vector<uint8_t> b; for (uint64_t x : w) for (int k = 8; k >= 0; k -= 8) { uint8_t c = x >> k; b.push_back(c); if (c == 0xff) b.push_back(0); }
  if (b.size() & 1) b.push_back(0); std::vector<uint64_t> r; for (size_t i = 0; i < b.size(); i += 2) r.push_back(b[i] << 8 | b[i + 1]); return r; }
static inline std::vector<uint64_t> mark(const std::vector<uint64_t>& w, uint64_t endm = 0xffff) { std::vector<uint64_t> r(8, 0xffff); r.insert(r.end(), w.begin(), w.end()); r.insert(r.end(), 8, endm); return r; }
// "@path": the packed 12-bit image path.raw12; its stream by another encoder lies beside it and must be the reference's
static inline std::vector<uint8_t> read_file(const std::string& f) { std::vector<uint8_t> r; FILE* p = fopen(f.c_str(), "rb"); if (!p) { fprintf(stderr, "cannot read %s\n", f.c_str()); exit(3); } int c; while ((c = fgetc(p)) != EOF) r.push_back(c); fclose(p); return r; }
static inline Image file_image(int w, int h, const std::string& path) {
  Image im{w, h, {}, path}; auto r = read_file(path + ".raw12"); for (size_t i = 0; i + 2 < r.size(); i += 3) { im.px.push_back(r[i] << 4 | r[i + 1] >> 4); im.px.push_back((r[i + 1] & 15) << 8 | r[i + 2]); }
  if (im.px.size() != (size_t)w * h) { fprintf(stderr, "%s has %zu pixels\n", path.c_str(), im.px.size()); exit(3); }
  for (int f = 0; f < 2; f++) { auto g = read_file(path + (f ? ".raw12_headerless.lj92" : ".raw12_headerless_nofix.lj92")); auto q = words(encode_bits(im, 12), 16); if (f) q = stuff(q); bool ok = q.size() * 2 >= g.size() && q.size() * 2 <= g.size() + 3;
    for (size_t i = 0; ok && i < q.size() * 2; i++) ok = (uint8_t)(q[i / 2] >> (i & 1 ? 0 : 8)) == (i < g.size() ? g[i] : 0); if (!ok) { fprintf(stderr, "the reference encoder disagrees with %s\n", path.c_str()); exit(3); } }
  return im; }
// test images: kinds cover the shortest codes, the longest codes, runs of ones (byte stuffing) and mixtures
static inline uint32_t lcg(uint32_t& s) { s = s * 1664525u + 1013904223u; return s >> 8; }
static inline Image make_image(int w, int h, int bd, const std::string& kind, uint32_t seed = 1) {
  if (kind[0] == '@') return file_image(w, h, kind.substr(1));
  Image im{w, h, std::vector<uint16_t>(w * h), kind + std::to_string(w) + "x" + std::to_string(h)}; uint32_t M = (1u << bd) - 1, s = seed * 2654435761u + 12345; int mid = 1 << (bd - 1);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int i = y * w + x; uint32_t v = 0; int up = x >= 4 ? im.px[i - 4] : y ? im.px[i - w] : mid;
    if (kind == "flat") v = mid;                                  // difference 0, 4-bit codes
    else if (kind == "short") v = up < (int)M ? up + 1 : up - 1;  // 4-bit codes of another class
    else if (kind == "extreme") v = up >= mid ? 0 : M;            // longest codes, all ones
    else if (kind == "neg") v = up >= mid ? 0 : M - 1;
    else if (kind == "noise") v = lcg(s) & M;
    else if (kind == "mix") { uint32_t r = lcg(s); v = (r & 3) == 0 ? mid : (r & 3) == 1 ? (up >= mid ? 0 : M) : (r & 3) == 2 ? ((up + (int)((r >> 4) % 7) - 3) & M) : (lcg(s) & M); }
    else if (kind == "ramp") v = (i * 3) & M;
    else { abort(); }
    im.px[i] = v; }
  return im; }
