// Every (pixel, prediction) pair of the bit depth through difference/normalize/encode, and every
// pattern of valid/stalled cycles; the emitted code word must be the LJ92 one and decode to the pixel.
#include "sweep.h"
#include "ref.h"
#ifndef PREDS
#define PREDS 0   // 0: every prediction; 1: boundary predictions only
#endif
static const unsigned M = (1u << BD) - 1;
struct Exp { unsigned px, pr; bool end; };
// runs a list of (valid,pixel,pred,end) cycles, checks outputs in order
template<class G> static bool stream(Sweep& S, uint64_t n, G gen, TraceSink* sink, const std::string& what) {
  dut::S a, b; dut::reset(a); dut::sink = sink; static const int QN = 64; Exp q[QN]; uint64_t h = 0, t = 0; bool ok = true;
  for (uint64_t i = 0; i < n + 12 && ok; i++) {
    dut::I in; dut::O o; Exp e; bool v = i < n && gen(i, e); in.valid_in = v; in.end_in = v ? e.end : (i & 1);
    for (int k = 0; k < PS; k++) { unsigned px = v ? (k == 0 ? e.px : (e.px * 3 + k * 7919) & M) : 0xa5a5 & M, pr = v ? (k == 0 ? e.pr : (e.pr * 5 + k * 104729) & M) : 0x5a5a & M; dut::px(in, k) = px; dut::pr(in, k) = pr; }
    if (v) q[t++ % QN] = e;
    dut::step(a, in, o, b); a = b;
    if (o.valid_out) {
      if (h == t) { S.fail(what + ": an output appears with no input in flight"); ok = false; break; }
      Exp x = q[h++ % QN];
      if ((bool)o.end_out != x.end) { S.fail(what + fmt(": end flag %d on output %llu", (int)o.end_out, (unsigned long long)h)); ok = false; break; }
      for (int k = 0; k < PS; k++) { unsigned px = k == 0 ? x.px : (x.px * 3 + k * 7919) & M, pr = k == 0 ? x.pr : (x.pr * 5 + k * 104729) & M;
        int d = ref::diff16(BD, px, pr); ref::Code c = ref::code(d); unsigned en = (unsigned)dut::enc(o, k), ct = (unsigned)dut::ctr(o, k); int dd; int used = ref::decode(en, ct, dd, ref::HUFF, BD + 1);
        unsigned back = (unsigned)(pr + dd) & (BD == 16 ? 0xffffu : 0xffffffffu);
        if (ct != c.len || en != c.bits || used != (int)ct || back != px) { S.fail(what + fmt(": pixel %u predicted %u (lane %d) is coded as %u bits 0x%x, LJ92 prescribes %u bits 0x%x; it decodes to %d", px, pr, k, ct, en, c.len, c.bits, used < 0 ? -1 : (int)back)); ok = false; break; } } }
    if (t - h > QN - 2) { S.fail(what + ": no output"); ok = false; } }
  if (ok && h != t) { S.fail(what + fmt(": %llu groups in, %llu out", (unsigned long long)t, (unsigned long long)h)); ok = false; }
  dut::sink = nullptr; return ok; }
int main(int c, char** v) {
  Sweep S(c, v); uint64_t N = 1u << BD; std::vector<unsigned> preds;
  if (PREDS == 0) for (unsigned i = 0; i < N; i++) preds.push_back(i);
  else { std::set<unsigned> s; for (int k = 0; k <= BD; k++) for (int d = -2; d <= 2; d++) { s.insert((unsigned)((1 << k) + d) & M); s.insert((unsigned)(M - (1 << k) + d) & M); } for (unsigned x : s) preds.push_back(x); }
  std::atomic<uint64_t> n{0};
  S.parallel(preds.size(), [&](uint64_t i) { unsigned pr = preds[i]; auto g = [&](uint64_t k, Exp& e) { e = {(unsigned)k, pr, false}; return true; };
    if (!stream(S, N, g, nullptr, "sweep")) { if (!S.T.n) { TraceSink t; if (N <= 4096) { Sweep S2 = Sweep(0, nullptr); stream(S2, N, g, &t, "sweep"); std::lock_guard<std::mutex> l(S.m); if (!S.T.n) S.T.add("violation", t, S.r.message); } } } n += N; });
  // all patterns of valid and stalled cycles, with an end mark on the last group
  const int L = 12; std::atomic<uint64_t> p{0};
  S.parallel(1u << L, [&](uint64_t pat) { auto g = [&](uint64_t k, Exp& e) { e = {(unsigned)(k * 40503u) & M, (unsigned)(k * k * 911 + 17) & M, (pat >> k) == 1}; return (bool)(pat >> k & 1); };
    TraceSink t; bool tr = pat == 0xb5d; stream(S, L, g, tr ? &t : nullptr, fmt("valid pattern %03llx", (unsigned long long)pat)); if (tr && !S.bad) { std::lock_guard<std::mutex> l(S.m); S.T.add("explored", t, "pattern"); } p++; });
  S.r.executions = p + preds.size(); S.r.states = n; S.r.transitions = n + p * (L + 12); S.r.outcomes = 2 * N - 1;
  S.r.samples.push_back(fmt("bit depth %d: pixel %u predicted %u -> LJ92 code %u bits", BD, M, 0u, ref::code(ref::diff16(BD, M, 0)).len));
  S.done(); }
