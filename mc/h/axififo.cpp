// AXI FIFO: every schedule of writes and reads, streams of any length (tags modulo 64), with end bits.
#include "mc.h"
#include "sweep.h"
struct Harness : mc::Base<dut::Tag> {
  struct R { uint8_t n, wtag, rtag, drain; };   // the word after tag t is t+1 modulo 64; every third word carries the end bit
  struct W { dut::S s; R r; };
  void init(W& w, int) { dut::reset(w.s); }
  int nchoices(const W&) { return 8; }
  int dflt(const W&) { return 6; }
  static bool end(int t) { return (t * 5 / 7) & 1; }
  static uint64_t val(int t) { return 0x9e3779b97f4a7c15ull * (2 * t + 1); }
  int step(const W& a, int c, W& b) {
    R& r = b.r; r = a.r; dut::I in; dut::O o; bool wr = c & 1, rd = c >> 1 & 1; if (c & 4) { if (wr || !rd) return mc::PRUNE; r.drain = 1; } else if (r.drain) return mc::PRUNE;
    in.valid_in = wr; in.data_in = wr ? val(r.wtag) : 0x5555; in.end_in = wr ? end(r.wtag) : 1; in.read = rd;
    dut::step(a.s, in, o, b.s);
    if ((bool)o.readable16 != (r.n >= 16)) return mc::fail("readable16=%d with %d words stored", (int)o.readable16, (int)r.n);
    if (o.writable16 && r.n > 16) return mc::fail("writable16 with %d of 32 words stored", (int)r.n);
    if (!o.writable16 && r.n <= 8) return mc::fail("writable16 low with only %d words stored", (int)r.n);
    if ((bool)o.writable != (r.n < 32)) return mc::fail("writable=%d with %d words stored", (int)o.writable, (int)r.n);
    if ((bool)o.valid_out != (r.n > 0) || (bool)o.readable != (r.n > 0)) return mc::fail("valid=%d with %d words stored", (int)o.valid_out, (int)r.n);
    if (r.n && (o.data_out != val(r.rtag) || (bool)o.end_out != end(r.rtag))) return mc::fail("word 0x%llx end=%d at the head, expected 0x%llx end=%d", (unsigned long long)o.data_out, (int)o.end_out, (unsigned long long)val(r.rtag), (int)end(r.rtag));
    bool w = wr && r.n < 32, d = rd && r.n; if (w) r.wtag = (r.wtag + 1) & 63; if (d) r.rtag = (r.rtag + 1) & 63; r.n += w; r.n -= d;
    if (r.drain == 1 && !a.r.n) { r.drain = 2; return mc::DONE; }
    return mc::OK; }
  std::string show(const W& w) { return fmt("%d words stored", (int)w.r.n); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = r.terminals; mc::print(o, r); }
