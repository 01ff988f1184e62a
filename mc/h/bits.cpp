// Variable-length bit items through a buffering stage: every choice of item lengths, of the item that ends the
// frame, and of source/sink stalls.  The payload is a fixed non-repeating bit stream, so any lost, repeated,
// reordered or shifted bit shows; two streams: pseudo-random and all ones.
//   IN_V, IN_D, IN_C, IN_E: input fields; IN_RDY(o): item is taken in this cycle
//   fixed words:    OUT_V OUT_D OUT_E, STALL(in,b), OUTB bits per word
//   variable items: OUT_V OUT_D OUT_C OUT_E, OUT_RDY(in,b)
//   LENS: item lengths; MAXI: items per frame
//   OVERRUN: the source stops offering only after CLOSE(o) was seen and OVERRUN further items at most
#include "mc.h"
#include "sweep.h"
#ifndef MINI
#define MINI 1
#endif
#ifndef SW
#define SW -1
#endif
typedef unsigned __int128 u128;
static std::vector<int> L{LENS};
static bool bit(int stream, uint32_t p) { if (stream == 1) return true; uint64_t x = p * 0x9e3779b97f4a7c15ull + 77; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x & 1; }
static u128 slice(int stream, uint32_t p, int n, uint32_t lim) { u128 v = 0; for (int k = 0; k < n; k++) v = v << 1 | (p + k < lim ? bit(stream, p + k) : 0); return v; }
struct Harness : mc::Base<dut::Tag> {
  struct R { uint32_t pin, pout, items, over; uint8_t stream, len, end, fin, closed, left, ps, pw, done; };
  struct W { dut::S s; R r; };
  int ninit() { return 2; }
  std::string init_name(int k) { return k ? "ones" : "random"; }
  void init(W& w, int k) { dut::reset(w.s); w.r.stream = k; w.r.left = SW < 0 ? 0 : SW; }
  // choice = sink stall + 2 * (0: withhold/keep, 1 + 2*len_index + end)
  int nchoices(const W& w) { return 2 * (1 + 2 * (int)L.size()); }
  int dflt(const W& w) {
#ifdef OVERRUN
    if (w.r.closed && w.r.over >= OVERRUN) return 0;
#endif
    return w.r.len || w.r.fin ? 0 : 2 * (1 + (w.r.items + 1 >= MINI)); }
  int step(const W& a, int c, W& b) {
    R& r = b.r; r = a.r; dut::I in; dut::O o; int stall = c & 1, k = c >> 1;
    if (k) { if (r.len || r.fin) return mc::PRUNE; int li = (k - 1) >> 1, e = (k - 1) & 1;
      if (r.items + 1 < MINI && e) return mc::PRUNE; if (r.items + 1 == MAXI && !e) return mc::PRUNE;
      r.len = L[li]; r.end = e; }
#ifdef OVERRUN
    if (k && r.closed && r.over >= OVERRUN) return mc::PRUNE;
#endif
    if (SW >= 0) { bool w = !r.len && !r.fin; int cost = (w && !a.r.pw) + (stall && !a.r.ps); if (cost > r.left) return mc::PRUNE; r.left -= cost; r.ps = stall; r.pw = w; }
    in.IN_V = r.len != 0;
    if (r.len) { in.IN_D = slice(r.stream, r.pin, r.len, ~0u); in.IN_C = r.len; in.IN_E = r.end; }
    else { in.IN_D = 0x5; in.IN_C = 3; in.IN_E = 1; }
#ifdef STALL
    STALL(in, stall);
#else
    OUT_RDY(in, !stall);
#endif
    dut::step(a.s, in, o, b.s);
#ifdef CLOSE
    if (CLOSE(o)) r.closed = 1; else { r.closed = 0; r.over = 0; }
    if (r.closed && r.len) r.over++;
#endif
    if (r.len && (IN_RDY(o))) { r.pin += r.len; r.items++; r.fin = r.end; r.len = 0; r.end = 0; }
    if (o.OUT_V && !stall) {
#ifdef OUT_C
      int n = o.OUT_C; if (n == 0) return mc::fail("an item of length 0 leaves");
      if (n > MAXOUT) return mc::fail("an item of %d bits leaves", n);
#else
      int n = OUTB;
#endif
      if (r.done) return mc::fail("another item leaves after the frame's end");
      if (r.pout + n > r.pin && !(r.fin && r.pout < r.pin)) return mc::fail("%d bits leave at bit %u but only %u have entered", n, r.pout, r.pin);
      u128 e = slice(r.stream, r.pout, n, r.pin), g = (u128)o.OUT_D;
      if (g != e) return mc::fail("bits %u..%u leave as 0x%llx, entered as 0x%llx", r.pout, r.pout + n - 1, (unsigned long long)g, (unsigned long long)e);
      r.pout += n;
#ifdef OUT_C
      if (r.pout > r.pin) return mc::fail("more bits leave than entered");
#endif
      bool last = r.fin && r.pout >= r.pin; if ((bool)o.OUT_E != last) return mc::fail("item up to bit %u of %u carries end=%d", r.pout, r.pin, (int)o.OUT_E);
      if (last) r.done = 1; }
    if (a.r.done && ++r.done > 4) return mc::DONE;   // and nothing leaves after the end
    return mc::OK; }
  std::string show(const W& w) { return fmt("stream %s: %u items, %u bits in, %u bits out", w.r.stream ? "ones" : "random", w.r.items, w.r.pin, w.r.pout); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = L.size(); mc::print(o, r); }
