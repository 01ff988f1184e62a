// Forced end: with a small allowance of cycles, every schedule of the source (which may stop for good at any
// point) and the sink.  The frame ends normally, or is cut: opening marker, a prefix of the reference words,
// closing marker 0xFFFE x 8.  Never before the allowance is used up, always soon after; then the next frame works.
#include "mc.h"
#include "sweep.h"
#include "frame.h"
#ifndef FRAMES
#define FRAMES 2
#endif
#ifndef SLACK
#define SLACK 26
#endif
struct Harness : mc::Base<dut::Tag> {
  struct R { uint16_t img, fed, got; uint8_t frame, fm, gap, quiet, late, cut; uint16_t age; };
  struct W { dut::S s; R r; };
  struct Fr { std::vector<uint16_t> px; std::vector<uint64_t> out; };
  struct Item { int w, h, al; std::string name; Fr f[FRAMES]; }; std::vector<Item> it;
  Harness() { struct G { int w, h; const char* k; int seed, al; }; G gs[] = {IMAGES};
    for (auto& g : gs) { Item x{g.w, g.h, g.al, fmt("%s_%dx%d_s%d allowed=%d", g.k, g.w, g.h, g.seed, g.al)}; for (int f = 0; f < FRAMES; f++) { Image im = make_image(g.w, g.h, BD, g.k, g.seed + f); x.f[f].px = im.px; x.f[f].out = mark(stuff(words(encode_bits(im, BD), 16))); } it.push_back(x); } }
  int ninit() { return (int)it.size(); } std::string init_name(int k) { return it[k].name; }
  void init(W& w, int k) { dut::reset(w.s); w.r.img = k; }
  int nchoices(const W&) { return 4; }
  int dflt(const W& w) { return w.r.fed ? 1 : 0; }   // a frame that has started ends even if its source stops for good
  int step(const W& a, int c, W& b) {
    const Item& x = it[a.r.img]; R& r = b.r; r = a.r; dut::I in; dut::O o; const unsigned groups = x.w * x.h / PS; bool fin = r.frame >= FRAMES;
    int iv = !(c & 1), ob = c >> 1 & 1; const Fr& f = x.f[fin ? FRAMES - 1 : r.frame];
    if (r.gap) { iv = 0; if (c & 1) return mc::PRUNE; }
    in.valid_in = !fin && iv && r.fed < groups; if (iv && !in.valid_in && !r.gap && !fin && r.fed) return mc::PRUNE;  // same as withholding
    in.busy_in = ob; in.height = x.h; in.width = x.w; in.allowed = x.al; for (int k = 0; k < PS; k++) dut::px(in, k) = in.valid_in ? f.px[r.fed * PS + k] : (0xaaa & ((1 << BD) - 1));
    SET_RST(in, 0); dut::step(a.s, in, o, b.s); dut::forget(a.s, b.s);
    if (r.gap) r.gap--;
    if (!fin && r.fed) { if (r.age < x.al + 4) r.age++; else if (!ob && r.late < 255) r.late++; }
    if (in.valid_in && !o.nready) r.fed++;
    if (r.late > SLACK) return mc::fail("frame %u not ended %u accepting cycles after its allowance of %d", r.frame, r.late, x.al);
    if (o.valid_out && !ob) {
      if (fin) return mc::fail("word 0x%llx transferred after the end", (unsigned long long)o.data_out);
      unsigned d = o.data_out; bool end = o.end_out;
      if (!r.cut && d == 0xfffe && !(r.got < f.out.size() && f.out[r.got] == 0xfffe)) { r.cut = 1;
        if (r.got < 8) return mc::fail("forced end before the opening marker"); if (r.age < x.al) return mc::fail("frame %u forced to end after %u of %d allowed cycles", r.frame, r.age, x.al); }
      bool over = false;
      if (r.cut) { if (d != 0xfffe) return mc::fail("word 0x%x inside the forced-end marker", d); r.fm++; over = r.fm == 8; if (end != over) return mc::fail("forced-end marker word %u has end=%d", r.fm, end); }
      else { if (r.got >= f.out.size() || d != f.out[r.got]) return mc::fail("frame %u word %u: got 0x%x, reference 0x%llx", r.frame, r.got, d, (unsigned long long)f.out[r.got]); r.got++; over = r.got == f.out.size(); if (end != over) return mc::fail("frame %u word %u has end=%d", r.frame, r.got - 1, end); }
      if (over) { uint16_t img = r.img; uint8_t fr = r.frame + 1; r = R{}; r.img = img; r.frame = fr; r.gap = 2; if (fr >= FRAMES) return mc::DONE; } }
    return mc::OK; }
  std::string show(const W& w) { return fmt("%s: frame %u, %u groups accepted, %u words out, age %u%s", it[w.r.img].name.c_str(), w.r.frame, w.r.fed, w.r.got, w.r.age, w.r.cut ? ", cut" : ""); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = h.it.size(); mc::print(o, r); }
