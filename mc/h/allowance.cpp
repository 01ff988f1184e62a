// Forced end with every allowance around every power of two up to the 24-bit maximum, and the shipped one: the
// source stops for good after the first group; the frame is cut neither before its allowance nor long after.
#include "sweep.h"
#include "frame.h"
int main(int c, char** v) {
  Sweep S(c, v); std::vector<uint32_t> L; for (int k = 24; k >= 5; k--) for (int d = -1; d <= 1; d++) { uint32_t a = (1u << k) + d; if (a < (1u << 24) && (k < 24 || d < 0)) L.push_back(a); } L.insert(L.begin() + 1, 6666000); L.push_back(0xa5a5a5);
  std::atomic<uint64_t> cyc{0};
  S.parallel(L.size(), [&](uint64_t i) { uint32_t al = L[i]; dut::S a, b; dut::reset(a); uint64_t t0 = 0; int got = 0, fm = 0; std::string nm = fmt("allowance %u", al);
    for (uint64_t t = 0; t < (uint64_t)al + 200; t++) { if (S.bad) return; dut::I in; dut::O o; in.valid_in = t > 20 && !t0; in.height = 4; in.width = 8; in.allowed = al; for (int k = 0; k < PS; k++) dut::px(in, k) = 5; dut::step(a, in, o, b); a = b; cyc++;
      if (in.valid_in && !o.nready) t0 = t;
      if (!o.valid_out) continue;
      if (got < 8) { if (o.data_out != 0xffff || o.end_out) return S.fail(nm + ": bad opening marker"); got++; continue; }
      if (o.data_out == 0xfffe) { fm++; if (fm == 1 && (t - t0 < al || t - t0 > al + 26)) return S.fail(nm + fmt(": cut after %llu cycles", (unsigned long long)(t - t0))); if ((bool)o.end_out != (fm == 8)) return S.fail(nm + ": bad closing marker"); if (fm == 8) return; }
      else if (fm) return S.fail(nm + ": word inside the closing marker"); }
    S.fail(nm + ": the frame was not ended within 200 cycles of it"); });
  S.r.executions = L.size(); S.r.states = S.r.transitions = cyc; S.r.samples.push_back(fmt("%zu allowances, %llu cycles", L.size(), (unsigned long long)cyc)); S.done(); }
