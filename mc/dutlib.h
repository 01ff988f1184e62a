// Support for the generated step functions: fixed-width unsigned values of any width.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
template<int W> using U = unsigned _BitInt(W);
template<int W> struct sgn { using t = signed _BitInt(W); };
template<> struct sgn<1> { using t = signed _BitInt(2); };
// SI<W>: sign-interpreted W-bit value
template<int W> using SI = typename sgn<W>::t;
template<int W, class T> static inline U<W> ld(const T& f) {
  if constexpr (W <= 64) return (U<W>)f;
  else { constexpr int n = (W + 63) / 64; U<W> r = 0; for (int i = n - 1; i >= 0; i--) r = (U<W>)((i == n - 1 ? (U<W>)0 : (U<W>)(r << 64)) | (U<W>)f[i]); return r; }
}
template<int W, class T> static inline void st(T& f, U<W> v) {
  if constexpr (W <= 64) f = (T)v;
  else { constexpr int n = (W + 63) / 64; for (int i = 0; i < n; i++) { f[i] = (uint64_t)(U<64>)v; if (i + 1 < n) v = (U<W>)(v >> 64); } }
}
template<int W> static inline U<W> shl(U<W> a, unsigned long s) { return s >= W ? (U<W>)0 : (U<W>)(a << s); }
template<int W> static inline U<W> shr(U<W> a, unsigned long s) { return s >= W ? (U<W>)0 : (U<W>)(a >> s); }
template<int W> static inline U<W> sar(U<W> a, unsigned long s) { return (U<W>)((SI<W>)a >> (s >= W ? W - 1 : s)); }
template<int W> static inline bool parity(U<W> a) { bool p = false; while (a != 0) { p ^= (bool)(a & 1); a = (U<W>)(a >> 1); } return p; }
struct TraceSink {
  std::string s; bool first = true, f2 = true; size_t cycles = 0;
  void begin() { s += first ? "" : ",\n"; first = false; s += "{\"i\":{"; f2 = true; }
  void put(const char* k, U<512> v) { char h[140]; int n = 0; do { h[n++] = "0123456789abcdef"[(int)(v & 15)]; v = (U<512>)(v >> 4); } while (v != 0);
    s += f2 ? "\"" : ",\""; s += k; s += "\":\""; while (n) s += h[--n]; s += "\""; f2 = false; }
  void mid() { s += "},\"o\":{"; f2 = true; }
  void end() { s += "}}"; cycles++; }
};
