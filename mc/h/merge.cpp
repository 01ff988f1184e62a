// Every combination of code lengths (0..31 per lane for 2 lanes, all classes for more) with several bit
// patterns: the merged chunk must be the lanes' bits in lane order.
#include "sweep.h"
typedef unsigned _BitInt(512) B;
static const int SW = 16 + BD < 31 ? 16 + BD : 31;
int main(int c, char** v) {
  Sweep S(c, v); std::vector<int> lens; { int L[] = {LENS}; for (int x : L) if (x <= SW) lens.push_back(x); }
  uint64_t n = lens.size(), tot = 1; for (int k = 0; k < PS - 1; k++) tot *= n; std::atomic<uint64_t> cases{0};
  auto run = [&](uint64_t i, TraceSink* sink) { dut::S a, b; dut::reset(a); dut::sink = sink;
    struct E { B v; int l; bool end; }; static thread_local E q[64]; uint64_t h = 0, t = 0; uint64_t N = n * 4;
    for (uint64_t j = 0; j < N + 10; j++) { dut::I in; dut::O o; bool vld = j < N && (j % 7 != 5);
      in.valid_in = vld; in.end_in = (j / 4) & 1; uint64_t rest = i; B val = 0; int len = 0;
      for (int k = 0; k < PS; k++) { int l = k < PS - 1 ? lens[rest % n] : lens[(j / 4) % n]; rest /= n; uint64_t bits; switch (j & 3) { case 0: bits = ~0ull; break; case 1: bits = 0xb6db6db5ull >> k; break; case 2: bits = l ? 1ull << (l - 1) : 0; break; default: bits = 1; } bits &= (l ? (~0ull >> (64 - l)) : 0);
        if (!vld) { bits = 0x2aaaaaa & ((1ull << SW) - 1); l = 9; } dut::enc(in, k) = bits; dut::ctr(in, k) = l; val = (val << l) | (B)bits; len += l; }
      if (vld) q[t++ % 64] = {val, len, (bool)in.end_in};
      dut::step(a, in, o, b); a = b;
      if (o.valid_out) { if (h == t) { S.fail("output without input"); return; } E& e = q[h++ % 64]; cases++;
        if ((B)o.enc_out != e.v || (int)o.enc_out_ctr != e.l || (bool)o.end_out != e.end) { S.fail(fmt("lane lengths #%llu/%d: merged %d bits 0x%llx end %d, expected %d bits 0x%llx end %d", (unsigned long long)i, (int)((h - 1) / 4), (int)o.enc_out_ctr, (unsigned long long)(uint64_t)(B)o.enc_out, (int)o.end_out, e.l, (unsigned long long)(uint64_t)e.v, (int)e.end), sink); dut::sink = nullptr; return; } }
      if (t - h > 60) { S.fail("no output"); return; } }
    if (h != t) S.fail(fmt("%llu in, %llu out", (unsigned long long)t, (unsigned long long)h), sink); dut::sink = nullptr; };
  S.parallel(tot, [&](uint64_t i) { if (i == tot / 2) { TraceSink t; run(i, &t); if (!S.bad) { std::lock_guard<std::mutex> g(S.m); S.T.add("explored", t, "merge"); } } else run(i, nullptr); });
  S.r.executions = tot; S.r.states = cases; S.r.transitions = cases; S.r.outcomes = cases;
  S.r.samples.push_back(fmt("%d lanes, %zu lengths per lane, all %llu length combinations", PS, lens.size(), (unsigned long long)(tot * n)));
  S.done(); }
