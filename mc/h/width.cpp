// Width adapters: every stream of input words (tagged by position, or the tag inverted), of any length, under every
// schedule of source and sink; the reference keeps the bytes in flight, so the state space is finite and complete.
//   INB: input bytes   USE: leading bytes of them that are data   OUTB: output bytes
//   HELD: the source keeps a word offered until it is taken (a FIFO), as the adapter requires
#include "mc.h"
#include "sweep.h"
#ifndef USE
#define USE INB
#endif
#ifndef HELD
#define HELD 0
#endif
#ifndef INV
#define INV 2
#endif
#ifndef CAP
#define CAP 40
#endif
struct Harness : mc::Base<dut::Tag> {
  struct R { uint8_t q[CAP + 8]; uint8_t n, pos, off, inv, fin, hold; uint64_t held; };
  struct W { dut::S s; R r; };
  void init(W& w, int) { dut::reset(w.s); }
  // choice = stall + 2*(0 nothing | 1+inv offer | INV+1 the source stops for good)
  int nchoices(const W&) { return 2 * (INV + 2); }
  int dflt(const W& w) { return w.r.fin ? 0 : w.r.off ? 2 * (1 + w.r.inv) : 2 * (INV + 1); }
  static uint64_t word(int pos, int inv) { uint64_t v = 0; for (int i = 0; i < INB; i++) { uint8_t b = (uint8_t)((pos * INB + i) * 0x9d + 0x35); v = v << 8 | (uint8_t)(inv ? ~b : b); } return v; }
  int step(const W& a, int c, W& b) {
    R& r = b.r; r = a.r; dut::I in; dut::O o; bool stall = c & 1; int k = c >> 1;
    if (r.fin && k) return mc::PRUNE;
    if (HELD && r.off && k != 1 + r.inv) return mc::PRUNE;
    if (k == INV + 1) { r.fin = 1; r.off = 0; r.inv = 0; } else if (k) { r.off = 1; r.inv = k - 1; } else { r.off = 0; r.inv = 0; }
    in.valid_in = r.off; in.data_in = r.off ? word(r.pos, r.inv) : 0xa5a5a5a5a5a5a5a5ull; in.i_busy = stall;
    dut::step(a.s, in, o, b.s);
    uint64_t got = o.data_out;
    if (r.hold && (!o.valid_out || got != r.held)) return mc::fail("an offered word is withdrawn or changed before it was taken: 0x%llx, now valid=%d 0x%llx", (unsigned long long)r.held, (int)o.valid_out, (unsigned long long)got);
    r.hold = o.valid_out && stall; r.held = r.hold ? got : 0;
    auto put = [&] { if (r.off && !o.o_busy) { uint64_t w = word(r.pos, r.inv); for (int i = 0; i < USE; i++) r.q[r.n++] = w >> 8 * (INB - 1 - i); r.pos = (r.pos + 1) & 7; r.off = 0; r.inv = 0; } };
    if (ACCEPT_FIRST) put();
    if (o.valid_out && !stall) {
      if (r.n < OUTB) return mc::fail("word 0x%llx leaves, only %d of its %d bytes have entered", (unsigned long long)got, (int)r.n, OUTB);
      uint64_t e = 0; for (int i = 0; i < OUTB; i++) e = e << 8 | r.q[i];
      if (got != e) return mc::fail("word 0x%llx leaves, expected 0x%llx", (unsigned long long)got, (unsigned long long)e);
      for (int i = OUTB; i < r.n; i++) r.q[i - OUTB] = r.q[i]; for (int i = r.n - OUTB; i < r.n; i++) r.q[i] = 0; r.n -= OUTB; }
    if (!ACCEPT_FIRST) put();
    if (r.n > CAP) return mc::fail("%d bytes are held inside: accepted words are not coming out", (int)r.n);
    if (r.fin && r.n < OUTB && !o.valid_out && r.n == a.r.n && a.r.fin) { r.fin = 2; return mc::DONE; }
    return mc::OK; }
  std::string show(const W& w) { return fmt("%d bytes inside, source %s", (int)w.r.n, w.r.fin ? "stopped" : "active"); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = r.terminals; mc::print(o, r); }
