// Debug counters over long times: whole frames of WIDTH x HEIGHT, one after the other, under each duty of source and sink of a
// list; each counter is read at every end of a frame and whenever it stands next to a power of two, the environment counts too.
#include "sweep.h"
#include "frame.h"
#include "axi.h"
struct Duty { int sp, sq, kp, kq, frames; };   // source withholds sq of every sp cycles, sink stalls kq of every kp
int main(int c, char** v) {
  Sweep S(c, v); Duty L[] = {DUTIES}; int n = sizeof L / sizeof *L; std::atomic<uint64_t> cyc{0}, reads{0}; uint32_t most[8] = {};
  S.parallel(n, [&](uint64_t di) { Duty& q = L[di]; std::string nm = fmt("source withholds %d/%d, sink stalls %d/%d", q.sq, q.sp, q.kq, q.kp); dut::S a, b; dut::reset(a);
    axi_write(a, 0x2000, (uint32_t)WIDTH << 16 | HEIGHT); axi_write(a, 0x2004, 0xffffff);
    uint32_t cnt[8] = {}; uint64_t t = 0, idle = 0;
    auto look = [&](int k, int frame, uint32_t slack) { static thread_local dut::S s; s = a; uint32_t x = 0; reads++; if (!axi_read(s, 0x4000 + 4 * k, x)) { S.fail(nm + fmt(": counter %d cannot be read", k)); return; } if (x - cnt[k] > slack) S.fail(nm + fmt(": in frame %d counter %d shows %u, %u cycles were seen", frame, k, x, cnt[k])); };
    for (int f = 0; f < q.frames && !S.bad; f++) { uint64_t fed = 0; bool started = false; const uint64_t G = (uint64_t)WIDTH * HEIGHT / PS; uint32_t s = f + 1;
      while (!S.bad) { t++; dut::I in; dut::O o; in.valid_in = fed < G && (int)(t % q.sp) >= q.sq; in.busy_in = (int)(t % q.kp) < q.kq;
        for (int k = 0; k < PS; k++) dut::px(in, k) = in.valid_in ? 2040 + (uint32_t)((fed * 2 + k) * 2654435761u >> 29) : 0;
        dut::step(a, in, o, b); a = b; cyc++; bool end = o.end_out;
        if (started && !end) { bool e[4] = {!in.valid_in, !o.valid_out, (bool)o.nready, (bool)in.busy_in}; for (int k = 0; k < 8; k++) { bool up = e[k / 2] ^ (k & 1); cnt[k] += up; } }
        if (started && !end) for (int k = 0; k < 8; k++) if (cnt[k] > 200 && !(cnt[k] & (cnt[k] - 1))) look(k, f, 8);   // the counters run on while one is read
        if (in.valid_in) started = true;
        if (in.valid_in && !o.nready) { fed++; idle = 0; } else if (++idle > 300000) { S.fail(nm + fmt(": frame %d stops after %llu groups", f, (unsigned long long)fed)); break; }
        if (o.end_out && o.valid_out && !in.busy_in) { for (int z = 0; z < 8; z++) { dut::I i0; dut::step(a, i0, o, b); a = b; } for (int k = 0; k < 8; k++) look(k, f, 0); break; } } }
    std::lock_guard<std::mutex> g(S.m); for (int k = 0; k < 8; k++) most[k] = std::max(most[k], cnt[k]); });
  uint32_t least = *std::min_element(most, most + 8);
  S.r.executions = n; S.r.states = cyc; S.r.transitions = cyc; S.r.outcomes = reads; S.r.samples.push_back(fmt("%llu readings, every counter goes beyond %u", (unsigned long long)reads, (unsigned)least)); S.done(); }
