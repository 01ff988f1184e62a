// Independent codec for lossless JPEG (ITU-T T.81 process 14): one table, one interleaved scan, no point transform, no restarts.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
namespace lj {
using Bytes = std::vector<uint8_t>;
struct Img { int P = 0, X = 0, Y = 0, N = 0; std::vector<uint16_t> s; uint16_t& at(int x, int y, int c) { return s[((size_t)y * X + x) * N + c]; } };
struct Table { std::string name; int lens[17] = {}; std::vector<uint8_t> vals;
  // code (value, length) of a class, by T.81 Annex C; length 0 if the table has none
  std::pair<uint32_t, int> code(int v) const { uint32_t c = 0; size_t k = 0; for (int l = 1; l <= 16; l++) { for (int i = 0; i < lens[l]; i++, k++, c++) if (k < vals.size() && vals[k] == v) return {c, l}; c <<= 1; } return {0, 0}; }
  bool prefix_free() const { uint64_t c = 0; for (int l = 1; l <= 16; l++) { c += (uint64_t)lens[l] << (16 - l); } return c < (1u << 16); } };  // strictly less: the code of all ones stays unused
static inline Table table(const std::string& name, const std::vector<int>& lens_of, const std::vector<uint8_t>& order) {  // lens_of[i]: length of order[i], ascending
  Table t; t.name = name; for (int l : lens_of) t.lens[l]++; t.vals = order; return t; }
static inline int predict(Img& im, int pred, int x, int y, int c) {
  if (x == 0 && y == 0) return 1 << (im.P - 1); if (y == 0) return im.at(x - 1, y, c); if (x == 0) return im.at(x, y - 1, c);
  int a = im.at(x - 1, y, c), b = im.at(x, y - 1, c), d = im.at(x - 1, y - 1, c);
  auto half = [](int v) { return v >= 0 ? v / 2 : -((1 - v) / 2); };  // arithmetic shift
  switch (pred) { case 1: return a; case 2: return b; case 3: return d; case 4: return a + b - d; case 5: return a + half(b - d); case 6: return b + half(a - d); case 7: return half(a + b); }
  return 0; }
static inline int cls(int d) { int m = d < 0 ? -d : d, k = 0; while (m) { k++; m /= 2; } return k; }
struct BitW { Bytes out; uint32_t acc = 0; int n = 0; size_t bits = 0;
  void put(uint32_t v, int len) { for (int k = len - 1; k >= 0; k--) { acc = acc * 2 + (v >> k & 1); bits++; if (++n == 8) { out.push_back(acc); if (acc == 255) out.push_back(0); acc = 0; n = 0; } } }
  void flush(int pad) { while (n) put(pad, 1), bits--; } };
// codes of one difference (modulo 2^16); false if the table has no code for its class
static inline bool put_diff(BitW& w, const Table& t, int d) { d &= 65535; if (d > 32768) d -= 65536; int k = cls(d); auto c = t.code(k); if (!c.second) return false; w.put(c.first, c.second); if (k && k < 16) w.put(d > 0 ? d : d + (1 << k) - 1, k); return true; }
struct Layout { std::string order = "HS"; int pad = 1; bool eoi = true; int tail = 0; int id = 0; bool other_ids = false; };
static inline void seg(Bytes& o, int m, const Bytes& b) { o.push_back(255); o.push_back(m); int n = b.size() + 2; o.push_back(n >> 8); o.push_back(n & 255); o.insert(o.end(), b.begin(), b.end()); }
static inline Bytes dht(const Table& t, int id) { Bytes b{(uint8_t)id}; for (int l = 1; l <= 16; l++) b.push_back(t.lens[l]); b.insert(b.end(), t.vals.begin(), t.vals.end()); return b; }
// order: H table, S frame header, C comment, A application segment, X an earlier table that is replaced
static inline bool encode(Img im, int pred, const Table& t, const Layout& L, Bytes& o, size_t* scan_at = nullptr, size_t* bits = nullptr) {
  o = {255, 0xd8};
  for (char ch : L.order) {
    if (ch == 'H') seg(o, 0xc4, dht(t, L.id));
    else if (ch == 'X') { Table x = t; std::swap(x.vals.front(), x.vals.back()); seg(o, 0xc4, dht(x, L.id)); }
    else if (ch == 'C') seg(o, 0xfe, {'c', 255, 0xc4, 255, 0xda, 0, 255});
    else if (ch == 'c') seg(o, 0xfe, {});
    else if (ch == 'A') seg(o, 0xe1, {255, 0xd9, 1, 255, 0xc3});
    else if (ch == 'S') { Bytes b{(uint8_t)im.P, (uint8_t)(im.Y >> 8), (uint8_t)im.Y, (uint8_t)(im.X >> 8), (uint8_t)im.X, (uint8_t)im.N}; for (int c = 0; c < im.N; c++) { b.push_back(L.other_ids ? 7 * c + 1 : c); b.push_back(0x11); b.push_back(0); } seg(o, 0xc3, b); }
  }
  Bytes b{(uint8_t)im.N}; for (int c = 0; c < im.N; c++) { b.push_back(L.other_ids ? 7 * c + 1 : c); b.push_back(L.id << 4); } b.push_back(pred); b.push_back(0); b.push_back(0); seg(o, 0xda, b);
  if (scan_at) *scan_at = o.size();
  BitW w; for (int y = 0; y < im.Y; y++) for (int x = 0; x < im.X; x++) for (int c = 0; c < im.N; c++) if (!put_diff(w, t, im.at(x, y, c) - predict(im, pred, x, y, c))) return false;
  if (bits) *bits = w.bits; w.flush(L.pad); o.insert(o.end(), w.out.begin(), w.out.end());
  if (L.eoi) { o.push_back(255); o.push_back(0xd9); } for (int k = 0; k < L.tail; k++) o.push_back(k & 1 ? 0xd8 : 255);
  return true; }
// the differences of the scan's data: -1 if the data ends early or holds what is no code. used = bytes consumed (with stuffing)
struct BitR { const uint8_t* d; size_t n, i = 0; uint32_t cur = 0; int left = 0; bool end = false; size_t taken = 0;
  int bit() { if (!left) { if (i >= n) { end = true; return 0; } if (d[i] == 255) { if (i + 1 >= n || d[i + 1] != 0) { end = true; return 0; } cur = 255; i += 2; } else cur = d[i++]; left = 8; } taken++; return cur >> --left & 1; } };
static inline bool get_diff(BitR& r, const Table& t, int& d) { uint32_t c = 0, first = 0; size_t k = 0; for (int l = 1; l <= 16; l++) { c = c * 2 + r.bit(); if (r.end) return false; if (c - first < (uint32_t)t.lens[l] && c >= first) { if (k + (c - first) >= t.vals.size()) return false; int v = t.vals[k + (c - first)]; if (v > 16) return false; if (v == 16) { d = 32768; return true; } if (!v) { d = 0; return true; } int e = 0; for (int q = 0; q < v; q++) e = e * 2 + r.bit(); if (r.end) return false; d = e >> (v - 1) ? e : e - (1 << v) + 1; return true; } k += t.lens[l]; first = (first + t.lens[l]) * 2; } return false; }
static inline bool decode_scan(const uint8_t* d, size_t n, Img& im, int pred, const Table& t, BitR* at = nullptr) {
  BitR r{d, n}; im.s.assign((size_t)im.X * im.Y * im.N, 0);
  for (int y = 0; y < im.Y; y++) for (int x = 0; x < im.X; x++) for (int c = 0; c < im.N; c++) { int df; if (!get_diff(r, t, df)) return false; im.at(x, y, c) = (uint16_t)(predict(im, pred, x, y, c) + df); }
  if (at) *at = r; return true; }
// strict parser: true only for the class of streams described above, and for nothing else
struct Parsed { Img im; Table t; int pred = 0; size_t scan = 0; BitR at; bool header = false; };
static inline bool parse_header(const uint8_t* d, size_t n, Parsed& p) {
  size_t i = 0; auto u16 = [&](size_t k) { return d[k] << 8 | d[k + 1]; }; if (n < 2 || d[0] != 255 || d[1] != 0xd8) return false; i = 2; bool ht = false, fr = false; int id = -1; std::vector<int> ids; ids.reserve(8);
  while (true) {
    if (i + 4 > n || d[i] != 255) return false; int m = d[i + 1]; size_t len = u16(i + 2), b = i + 4, e = i + 2 + len; if (len < 2 || e > n) return false;
    if (m == 0xc4) { if (len < 20) return false; if (d[b] >> 4 || (d[b] & 15) > 3) return false; Table t; t.vals.reserve(32); int k = 0; for (int l = 1; l <= 16; l++) k += t.lens[l] = d[b + l]; if (!k || (size_t)k + 19 != len || !t.prefix_free()) return false;
      for (int q = 0; q < k; q++) { if (d[b + 17 + q] > 16) return false; for (uint8_t o : t.vals) if (o == d[b + 17 + q]) return false; t.vals.push_back(d[b + 17 + q]); } if (ht && id != d[b]) return false; id = d[b]; p.t = t; ht = true; }
    else if (m == 0xc3) { if (fr || len < 11) return false; Img& im = p.im; im.P = d[b]; im.Y = u16(b + 1); im.X = u16(b + 3); im.N = d[b + 5]; if (im.P < 2 || im.P > 16 || !im.X || !im.Y || im.N < 1 || im.N > 4 || len != 8u + 3 * im.N) return false;
      for (int c = 0; c < im.N; c++) { if (d[b + 7 + 3 * c] != 0x11) return false; for (int o : ids) if (o == d[b + 6 + 3 * c]) return false; ids.push_back(d[b + 6 + 3 * c]); } fr = true; }
    else if (m == 0xda) { if (!ht || !fr || len != 6u + 2 * p.im.N || d[b] != p.im.N) return false; for (int c = 0; c < p.im.N; c++) if (d[b + 1 + 2 * c] != ids[c] || d[b + 2 + 2 * c] != id << 4) return false;
      p.pred = d[b + 1 + 2 * p.im.N]; if (p.pred < 1 || p.pred > 7 || d[b + 2 + 2 * p.im.N] || d[b + 3 + 2 * p.im.N]) return false; p.scan = e; p.header = true; return true; }
    else if (m == 0xfe || (m >= 0xe0 && m <= 0xef)) {}
    else return false;
    i = e; } }
static inline std::string hex(const uint8_t* d, size_t n, size_t lim = 300) { std::string s; char b[4]; for (size_t i = 0; i < n && i < lim; i++) { snprintf(b, 4, "%02x", d[i]); s += b; } if (n > lim) s += "..."; return s; }
static inline std::string show(const Img& im) { std::string s = "P=" + std::to_string(im.P) + " " + std::to_string(im.X) + "x" + std::to_string(im.Y) + "x" + std::to_string(im.N) + " samples"; for (size_t i = 0; i < im.s.size() && i < 40; i++) s += " " + std::to_string(im.s[i]); return s; }
// tables: the core's default, all codes of one length, one code per length (16 bits deep), the same reversed, two short and the rest long
static inline std::vector<Table> tables() {
  std::vector<Table> v; std::vector<int> l; std::vector<uint8_t> o;
  v.push_back(table("core", {3,3,3,3,3,3,3,4,5,6,7,8,9,10,11,12,13}, {1,2,3,4,5,6,7,0,8,9,10,11,12,13,14,15,16}));
  for (int i = 0; i < 17; i++) { l.push_back(5); o.push_back(16 - i); } v.push_back(table("flat", l, o));
  l.clear(); o.clear(); for (int i = 0; i < 15; i++) { l.push_back(i + 1); o.push_back(i); } l.push_back(16); o.push_back(15); Table d = table("deep", l, o); v.push_back(d);
  std::reverse(d.vals.begin(), d.vals.end()); d.name = "deep reversed"; v.push_back(d);
  l = {1, 3}; o = {16, 0}; for (int i = 1; i < 16; i++) { l.push_back(7); o.push_back(i); } v.push_back(table("mixed", l, o));
  return v; }
// smallest table for given classes: lengths 1, 2, 3...
static inline Table minimal(const std::vector<uint8_t>& c) { std::vector<int> l; for (size_t i = 0; i < c.size(); i++) l.push_back(i + 1); return table("minimal", l, c); }
}
