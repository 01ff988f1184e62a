// All stall schedules over a frame; pixel values are either unique tags or every combination of a small alphabet.
#include "mc.h"
#include "ref.h"
#ifndef ALPHA
#define ALPHA 0
#endif
struct Harness : mc::Base<dut::Tag> {
#if ALPHA
  struct R { uint32_t fed, got; uint16_t row[64], above[64]; uint16_t q[8][2 * PS]; uint32_t qn; };
#else
  struct R { uint32_t fed, got; uint16_t q[8][2 * PS]; uint32_t qn; };
  static uint16_t tag(uint32_t i) { return ((i + 1) * 2654435761u >> 13) & ((1 << BD) - 1); }
#endif
  struct W { dut::S s; R r; };
  static constexpr int GW = WIDTH / PS, TOT = GW * HEIGHT;
  void init(W& w, int) { dut::reset(w.s); }
  static constexpr int NA = ALPHA ? ALPHA : 1;
  static constexpr int npow() { int n = 1; if (ALPHA) for (int i = 0; i < PS; i++) n *= ALPHA; return n; }
  int nchoices(const W& w) { return 1 + (w.r.fed < TOT ? npow() : 0); }
  int dflt(const W& w) { return w.r.fed < TOT ? 1 : 0; }
  static uint16_t value(int a) { static const uint16_t t[4] = {0, (1 << BD) - 1, 1, (1 << (BD - 1))}; return t[a & 3]; }
  int step(const W& a, int c, W& b) {
    b.r = a.r; dut::I in; dut::O o; R& r = b.r; int gx = r.fed % GW, y = r.fed / GW;
    in.valid_in = c > 0; in.new_row = gx == 0; in.end_in = r.fed == TOT - 1 || r.fed == TOT;
    int code = c - 1; (void)code; (void)y;
    if (c > 0) {
#if ALPHA
      if (gx == 0 && y > 0) { memcpy(r.above, r.row, sizeof r.above); }
      for (int k = 0; k < PS; k++) { int x = gx * PS + k; uint16_t v = value(code % NA); code /= NA; uint16_t p = x >= 4 ? r.row[x - 4] : y > 0 ? r.above[x] : (1 << (BD - 1)); r.row[x] = v;
#else
      for (int k = 0; k < PS; k++) { int x = gx * PS + k; uint32_t i = r.fed * PS + k; uint16_t v = tag(i), p = x >= 4 ? tag(i - 4) : y > 0 ? tag(i - WIDTH) : (1 << (BD - 1));
#endif
        dut::px(in, k) = v;
        if (r.qn >= 8) return mc::fail("latency"); r.q[r.qn][2 * k] = v; r.q[r.qn][2 * k + 1] = p; }
      r.qn++; r.fed++; }
    dut::step(a.s, in, o, b.s);
    if (o.valid_out) {
      if (a.r.qn == 0) return mc::fail("valid_out without an input in flight after %u groups", a.r.fed);
      for (int k = 0; k < PS; k++) if (dut::po(o, k) != r.q[0][2 * k] || dut::pr(o, k) != r.q[0][2 * k + 1])
        return mc::fail("group %u pixel %d: got pixel %llu predicted %llu, reference pixel %u predicted %u", r.got, k, (unsigned long long)dut::po(o, k), (unsigned long long)dut::pr(o, k), r.q[0][2 * k], r.q[0][2 * k + 1]);
      if ((int)o.end_out != (r.got == TOT - 1)) return mc::fail("group %u of %d leaves with end=%d", r.got, TOT, (int)o.end_out);
      for (uint32_t i = 0; i + 1 < r.qn; i++) memcpy(r.q[i], r.q[i + 1], sizeof r.q[0]); r.qn--; memset(r.q[r.qn], 0, sizeof r.q[0]); r.got++; }
    return r.got == TOT ? mc::DONE : mc::OK; }
  std::string show(const W& w) { return "fed " + std::to_string(w.r.fed) + "/" + std::to_string(TOT) + " groups, " + std::to_string(w.r.got) + " out"; }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); mc::print(o, e.run()); }
