// Byte stuffing: every stream of words over {FF,xx}x{FF,xx}, of any length, under every stall schedule of source and
// sink (the reference keeps only the bytes in flight, so the state space is finite and explored completely).
//   VALUES: instead, every 16-bit value in short frames, every schedule
//   STAGE 1: first stage only (fix_0xff, output of 2..4 bytes)   STAGE 2: both stages
#include "mc.h"
#include "sweep.h"
#ifndef MAXW
#define MAXW 1000000
#endif
struct Harness : mc::Base<dut::Tag> {
  struct R { uint8_t q[24]; uint8_t n, pos, off, cls, end, fin, done; uint16_t val; uint32_t words; };
  struct W { dut::S s; R r; };
#ifdef VALUES
  int ninit() { return 65536; }
#endif
  void init(W& w, int k) { dut::reset(w.s); w.r.val = k; }
  std::string init_name(int k) { return fmt("value_%04x", k); }
#ifdef VALUES
  // frames: v | 12 v | FF v | v v | v FF 
  int nchoices(const W& w) { return 2 * 8; }
#else
  int nchoices(const W& w) { return 2 * 9; }
#endif
  // choice = stall + 2*(0 nothing | 1 + cls + 4*end)
  int dflt(const W& w) { return w.r.off || w.r.fin ? 0 : 2 * (1 + 4); }
  uint16_t word(const R& r) { 
#ifdef VALUES
    return r.cls == 0 ? r.val : r.cls == 1 ? 0x1234 : 0x56ff;
#else
    uint8_t t = 2 * r.pos * 0x9d + 0x35, u = t + 0x9d; return (uint16_t)((r.cls & 2 ? 0xff : t) << 8 | (r.cls & 1 ? 0xff : u));
#endif
  }
  int step(const W& a, int c, W& b) { R& r = b.r; r = a.r; dut::I in; dut::O o; int stall = c & 1, k = c >> 1;
    if (k) { if (r.off || r.fin) return mc::PRUNE;
#ifdef VALUES
      if (k > 6) return mc::PRUNE; r.cls = (k - 1) % 3; r.end = (k - 1) / 3; if (r.words >= MAXW || (r.words + 1 == MAXW && !r.end)) return mc::PRUNE;
#else
      r.cls = (k - 1) & 3; r.end = (k - 1) >> 2;
#endif
      r.off = 1; }
    in.valid_in = r.off; in.data_in = r.off ? word(r) : 0xffaa; in.end_in = r.off ? r.end : 1; in.i_busy = stall;
    dut::step(a.s, in, o, b.s);
    if (r.off && !o.o_busy) { uint16_t w = word(r); for (int s = 8; s >= 0; s -= 8) { uint8_t x = w >> s; r.q[r.n++] = x; if (x == 0xff) r.q[r.n++] = 0; } r.off = 0; r.fin = r.end; r.end = 0; r.cls = 0; r.pos = (r.pos + 1) & 7;
#ifdef VALUES
      r.words++;
#endif
      if (r.n > 20) return mc::fail("%d bytes are held inside: words accepted are not coming out", r.n); }
    if (o.valid_out && !stall) { if (r.done) return mc::fail("a word is transferred after the end");
#if STAGE == 1
      int n = o.data_out_ctr; uint32_t e = 0;
#else
      int n = 2; uint32_t e = 0;
#endif
      int real = n < r.n ? n : r.n;
      if (n < 2 || n > 4) return mc::fail("%d bytes leave at once", n);
      if (real < n && !(r.fin && n - real == 1 && STAGE == 2)) return mc::fail("%d bytes leave, %d entered", n, (int)r.n);
      for (int i = 0; i < n; i++) e = e << 8 | (i < real ? r.q[i] : 0);
      uint32_t g = o.data_out; if (n < 4) g &= (1u << 8 * n) - 1;
      if (g != e) return mc::fail("bytes 0x%x leave, expected 0x%x", g, e);
      for (int i = real; i < r.n; i++) r.q[i - real] = r.q[i]; for (int i = r.n - real; i < r.n; i++) r.q[i] = 0; r.n -= real;
      bool last = r.fin && r.n == 0; if ((bool)o.end_out != last) return mc::fail("word 0x%x carries end=%d, %d bytes left, frame %s", g, (int)o.end_out, (int)r.n, r.fin ? "complete" : "open");
      if (last) return mc::DONE; }
    return mc::OK; }
  std::string show(const W& w) { return fmt("%d bytes in flight, %s", (int)w.r.n, w.r.fin ? "frame complete" : "frame open"); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = r.terminals; mc::print(o, r); }
