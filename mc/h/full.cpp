// The core with its own frame geometry (WIDTH x HEIGHT as shipped), two frames back to back, under every
// schedule of a family: source duty x sink duty x image.  Checks every output word of every run.
#include "sweep.h"
#include "frame.h"
struct Sched { const char* img; int sp, sq; int kp, kq; bool forced; };  // source withholds sq of every sp cycles, sink stalls kq of every kp
int main(int c, char** v) {
  Sweep S(c, v); Sched L[] = {SCHEDS}; int n = sizeof L / sizeof *L; const uint64_t GR = (uint64_t)WIDTH * HEIGHT / PS;
  auto pix = [&](const char* k, uint32_t f, uint64_t i) -> unsigned { uint32_t s = (uint32_t)(i * 2654435761u) ^ (f * 977u); s ^= s >> 15; s *= 2246822519u; s ^= s >> 13; if (k[0] == 'n') return s & ((1 << BD) - 1); unsigned base = (1 << (BD - 1)); if ((s & 63) == 0) return (s >> 8) & ((1 << BD) - 1); return base + ((s >> 7) & 1); };
  std::atomic<uint64_t> cyc{0}, wds{0};
  S.parallel(n, [&](uint64_t si) { Sched& q = L[si]; dut::S a, b; dut::reset(a); int frames = q.forced ? 1 : FRAMES; std::string nm = fmt("image %s, source withholds %d/%d, sink stalls %d/%d", q.img, q.sq, q.sp, q.kq, q.kp);
    uint64_t t = 0, last = 0;
    for (int f = 0; f < frames && !S.bad; f++) {
      Image im{WIDTH, HEIGHT, std::vector<uint16_t>((size_t)WIDTH * HEIGHT), ""}; for (size_t i = 0; i < im.px.size(); i++) im.px[i] = pix(q.img, f, i);
      std::vector<uint64_t> ex; { auto bits = encode_bits(im, BD); auto w = words(bits, 16); std::vector<uint8_t>().swap(bits); ex = mark(stuff(w)); }
      uint64_t fed = 0, got = 0, first = 0, fm = 0; bool over = false;
      while (true) { t++; if (S.bad) return;
        dut::I in; dut::O o; in.valid_in = fed < GR && (int)(t % q.sp) >= q.sq; in.busy_in = (int)(t % q.kp) < q.kq; for (int k = 0; k < PS; k++) dut::px(in, k) = in.valid_in ? im.px[fed * PS + k] : 0x5a5;
        EXTRA_IN(in);
        dut::step(a, in, o, b); a = b; cyc++;
        if (in.valid_in && !o.nready) { if (!fed) first = t; fed++; }
        if (o.valid_out && !in.busy_in) { last = t; wds++;
          if (!over && q.forced && got >= 8 && o.data_out == 0xfffe && ex[got] != 0xfffe) over = true;
          if (over) { if (o.data_out != 0xfffe) { S.fail(nm + ": bad forced-end marker"); return; } fm++; if ((bool)o.end_out != (fm == 8)) { S.fail(nm + fmt(": forced end marker word %d has end=%d", (int)fm, (int)o.end_out)); return; } if (fm == 8) { if (t - first < ALLOWEDC || t - first > ALLOWEDC + 64) S.fail(nm + fmt(": frame forced to end after %llu cycles, allowed %llu", (unsigned long long)(t - first), (unsigned long long)ALLOWEDC)); break; } }
          else { if (got >= ex.size() || o.data_out != ex[got] || (bool)o.end_out != (got + 1 == ex.size())) { S.fail(nm + fmt(": frame %d word %llu of %zu is 0x%llx end=%d, reference 0x%llx", f, (unsigned long long)got, ex.size(), (unsigned long long)o.data_out, (int)o.end_out, (unsigned long long)(got < ex.size() ? ex[got] : 0))); return; } got++;
            if (got == ex.size()) { if (fed != GR) { S.fail(nm + ": end before every pixel was accepted"); return; } if (q.forced) S.fail(nm + ": the frame exceeds its allowed cycles but was not forced to end"); break; } } }
        if (t - last > 200000) { S.fail(nm + fmt(": no output for 200000 cycles (frame %d, %llu groups in, %llu words out)", f, (unsigned long long)fed, (unsigned long long)got)); return; } } } });
  S.r.executions = n; S.r.states = cyc; S.r.transitions = cyc; S.r.outcomes = wds; S.r.samples.push_back(fmt("%dx%d frames: %llu cycles, %llu words compared", WIDTH, HEIGHT, (unsigned long long)cyc, (unsigned long long)wds)); S.done(); }
