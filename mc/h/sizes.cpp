// Frame geometry, free running: every row length with two rows, every number of rows of one and of two groups.
#include "sweep.h"
#include <cstring>
int main(int c, char** v) {
  Sweep S(c, v); std::atomic<uint64_t> n{0}, frames{0};
  auto frame = [&](uint32_t g, uint32_t h) { dut::S a, b; dut::reset(a); dut::I in; dut::O o; in.height = h; in.width = g * PS; in.new_input = 1; uint32_t tot = g * h, x = 0;
    for (uint32_t i = 0; i <= tot && !S.bad; i++) { in.new_input = i < tot; dut::step(a, in, o, b); a = b;
      if (i < tot && (bool)o.new_row != (x == 0)) S.fail(fmt("frame %ux%u, before group %u: new_row=%d", g * PS, h, i, (int)o.new_row));
      if ((bool)o.end_of_frame != (i >= tot - 1)) S.fail(fmt("frame %ux%u, before group %u of %u: end_of_frame=%d", g * PS, h, i, tot, (int)o.end_of_frame));
      if (++x == g) x = 0; }
    n += tot + 1; frames++; };
  const uint32_t MG = 65535 / PS;
  S.parallel(MG, [&](uint64_t k) { uint32_t g = k + 1; if (S.bad) return; frame(g, 2); });
  S.parallel(65535, [&](uint64_t k) { uint32_t h = k + 1; if (S.bad) return; if (h > 1) frame(1, h); frame(2, h); });
  S.r.executions = frames; S.r.states = n; S.r.transitions = n; S.r.outcomes = frames; S.r.samples.push_back(fmt("%llu frame sizes, %llu cycles compared", (unsigned long long)frames, (unsigned long long)n)); S.done(); }
