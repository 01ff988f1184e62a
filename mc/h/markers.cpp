// Framing markers: any number of frames of any length, every stall schedule, the forced end at every cycle.
#include "mc.h"
#include "sweep.h"
struct Harness : mc::Base<dut::Tag> {
  struct R { uint8_t ph, n, pos, off, end, force, rst, frames, endacc; };   // ph: 0 opening, 1 data, 2 closing, 3 closed
  struct W { dut::S s; R r; };
  static unsigned word(int pos) { static const unsigned V[4] = {0xa5c3, 0x5a3c, 0x0ff6, 0xf009}; return V[pos]; }
  void init(W& w, int k) { dut::reset(w.s); }
  // choice: bit0 stall, bit1 raise force, 0/1/2 << 2: offer nothing / word / last word
  int nchoices(const W& w) { return 12; }
  int dflt(const W& w) { return w.r.off ? 0 : 2 << 2; }
  int step(const W& a, int c, W& b) { R& r = b.r; r = a.r; dut::I in; dut::O o; int stall = c & 1, k = c >> 2;
    if (r.rst > 1) r.rst--; else if (r.rst) { if (c & 2 || k) { if (c != dflt(a)) return mc::PRUNE; } in.rst = 1; in.i_busy = 0; dut::step(a.s, in, o, b.s); uint8_t f = r.frames; r = R{}; r.frames = f; return f > 1 ? mc::DONE : mc::OK; }
    if (c & 2) { if (r.force) return mc::PRUNE; r.force = 1; }
    if (k) { if (r.off) return mc::PRUNE; r.off = 1; r.end = k == 2; }
    in.valid_in = r.off; in.data_in = r.off ? word(r.pos) : 0xfff1; in.end_in = r.off ? r.end : (r.pos & 1); in.force_end_in = r.force; in.i_busy = stall; in.rst = 0;
    dut::step(a.s, in, o, b.s);
    bool acc = r.off && !o.o_busy, tx = o.valid_out && !stall;
    if (acc && r.endacc) { return mc::fail("a word is accepted after the frame's last word"); }
    if (tx) { unsigned d = o.data_out; bool e = o.end_out; if (e && !(r.ph == 2 && r.n == 7)) if (!(r.ph == 1)) return mc::fail("end flagged on word 0x%x", d);
      if (r.ph == 0) { if (d != 0xffff || acc) return mc::fail("opening marker word %d is 0x%x", (int)r.n, d); if (++r.n == 8) { r.ph = 1; r.n = 0; } }
      else if (r.ph == 3) return mc::fail("a word (0x%x) is transferred after the end", d);
      else if (acc) { if (r.ph != 1) return mc::fail("frame data inside the closing marker"); if (d != word(r.pos) || e) return mc::fail("frame word 0x%x leaves as 0x%x, end=%d", word(r.pos), d, (int)e); }
      else { if (r.ph == 1) { r.ph = 2; r.n = 0; if (!r.endacc && !(r.force && d == 0xfffe)) return mc::fail("word 0x%x appears inside the frame", d); r.end |= 0; }
        if (r.ph == 2) { unsigned want = r.endacc ? 0xffff : 0xfffe; if (d != want) return mc::fail("closing marker word %d is 0x%x, expected 0x%x", (int)r.n, d, want); bool last = r.n == 7; if (e != last) return mc::fail("closing marker word %d carries end=%d", (int)r.n, (int)e); r.n++; if (last) { r.ph = 3; r.n = 0; r.rst = 4; r.frames++; } } } }
    if (acc) { if (!tx) return mc::fail("a word is accepted but not passed on"); if (r.ph != 1) return mc::fail("a word is accepted outside the frame"); r.off = 0; r.pos = (r.pos + 1) & 3; r.endacc = r.end; r.end = 0; }
    return mc::OK; }
  std::string show(const W& w) { return fmt("phase %d word %d", w.r.ph, w.r.n); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = r.terminals; mc::print(o, r); }
