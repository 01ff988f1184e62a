// Stream-wrapped cores: frames back to back through the wrapper's own ports, every schedule of source and sink (or
// all with at most SW departures from free running).  Expected: the concatenated reference streams, word by word.
//   PS: pixels per source word   HELD: the source is a FIFO   OUTB: output word   LAST: words carry the frame's end
//   AHEAD: source words that may be taken before the frame they belong to is due
#include "mc.h"
#include "sweep.h"
#include "frame.h"
#ifndef SW
#define SW -1
#endif
#ifndef FRAMES
#define FRAMES 2
#endif
#ifndef HELD
#define HELD 0
#endif
#ifndef AHEAD
#define AHEAD 0
#endif
#ifndef FRAMED
#define FRAMED 1
#endif
#ifndef GRAIN
#define GRAIN 1
#endif
#ifdef AXI
#include "axi.h"
#endif
struct Harness : mc::Base<dut::Tag> {
  struct R { uint32_t img, fed, got, quiet; uint8_t iv, ob, left, off, t; };
  struct W { dut::S s; R r; };
  struct Item { int w, h; std::string name; std::vector<uint16_t> px; std::vector<uint64_t> out; std::vector<uint8_t> last; std::vector<uint32_t> due; };
  std::vector<Item> it;
  Harness() { struct G { int w, h; const char* k; int seed; }; G gs[] = {IMAGES};
    for (auto& g : gs) { Item x{g.w, g.h, fmt("%s_%dx%d_s%d", g.k, g.w, g.h, g.seed)}; std::vector<uint8_t> by;
      for (int f = 0; f < FRAMES; f++) { Image im = make_image(g.w, g.h, BD, f == 0 ? g.k : "mix", g.seed + f); x.px.insert(x.px.end(), im.px.begin(), im.px.end());
        if (FRAMED) { auto w = mark(stuff(words(encode_bits(im, BD), 16)));
          if (LAST) { for (auto v : w) { x.out.push_back(v); x.last.push_back(0); x.due.push_back(x.px.size() / PS); } x.last.back() = 1; }
          else for (auto v : w) { by.push_back(v >> 8); by.push_back(v); } }
        else { for (auto v : words(encode_bits(im, BD), OUTB)) { x.out.push_back(v); x.last.push_back(0); x.due.push_back(x.px.size() / PS); } x.last.back() = 1; } }
      if (FRAMED && !LAST) for (size_t i = 0; i + OUTB / 8 <= by.size(); i += OUTB / 8) { uint64_t v = 0; for (int k = 0; k < OUTB / 8; k++) v = v << 8 | by[i + k]; x.out.push_back(v); x.last.push_back(0); x.due.push_back(~0u); }
      it.push_back(x); } }
  int ninit() { return (int)it.size(); } std::string init_name(int k) { return it[k].name; }
  void init(W& w, int k) { dut::reset(w.s);
#ifdef AXI
    axi_write(w.s, 0x2000, (uint32_t)it[k].w << 16 | it[k].h); axi_write(w.s, 0x2004, 0xffffff);
#endif
    w.r.img = k; w.r.left = SW < 0 ? 0 : SW; w.r.iv = 1; }
  int nchoices(const W&) { return 4; }
  int dflt(const W& w) { return GRAIN > 1 && w.r.t ? (w.r.iv ? 0 : 1) | w.r.ob << 1 : 0; }
  int step(const W& a, int c, W& b) {
    const Item& x = it[a.r.img]; R& r = b.r; r = a.r; dut::I in; dut::O o; bool more = r.fed < x.px.size() / PS, fin = r.got >= x.out.size();
    int iv = !(c & 1), ob = c >> 1 & 1;
    if (GRAIN > 1) { r.t = (a.r.t + 1) % GRAIN; if (a.r.t && (iv != a.r.iv || ob != a.r.ob)) return mc::PRUNE; }
    if (HELD && r.off && !iv) return mc::PRUNE;
    if (SW >= 0) { int cost = (a.r.iv && !iv) + (!a.r.ob && ob); if (cost > r.left) return mc::PRUNE; r.left -= cost; r.iv = iv; r.ob = ob; }
    in.valid_in = more && iv; in.busy_in = ob; for (int k = 0; k < PS; k++) dut::px(in, k) = in.valid_in ? x.px[r.fed * PS + k] : (0xaaa & ((1 << BD) - 1));
#ifndef NOSTUB
    in.height = x.h; in.width = x.w; in.allowed = 0xffffff;
#endif
    dut::step(a.s, in, o, b.s); dut::forget(a.s, b.s);
    r.off = HELD && in.valid_in && o.nready;
    if (in.valid_in && !o.nready) { r.fed++; if (!fin && x.due[r.got] != ~0u && r.fed > x.due[r.got] + AHEAD) return mc::fail("source word %u is taken, the frame's end is at %u", r.fed, x.due[r.got]); }
    if (o.valid_out && !ob) {
      if (fin) return mc::fail("a word (0x%llx) is transferred after the last frame", (unsigned long long)o.data_out);
      if (o.data_out != x.out[r.got]) return mc::fail("word %u of %zu: got 0x%llx, reference 0x%llx", r.got, x.out.size(), (unsigned long long)o.data_out, (unsigned long long)x.out[r.got]);
#if LAST
      if ((bool)o.end_out != x.last[r.got]) return mc::fail("word %u of %zu carries last=%d", r.got, x.out.size(), (int)o.end_out);
      if (x.last[r.got] && (r.fed < x.due[r.got])) return mc::fail("end of frame after %u source words", r.fed);
#endif
      r.got++; }
    if (r.got >= x.out.size()) { if (++r.quiet > 6) return mc::DONE; }
    return mc::OK; }
  std::string show(const W& w) { const Item& x = it[w.r.img]; return fmt("%s: %u source words taken, %u of %zu words out", x.name.c_str(), w.r.fed, w.r.got, x.out.size()); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = h.it.size(); mc::print(o, r); }
