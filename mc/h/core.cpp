// Whole-core exploration: every schedule of "source offers / withholds a pixel group" and "sink accepts /
// stalls" (all of them, or all with at most SW departures from the free-running schedule), optionally with a
// reset at any cycle, over a list of frames.  Expected output: the reference encoding, word by word.
//   KIND 3: integration_3 (raw words, end on last)   KIND 4: marker-framed core with auto reset, FRAMES frames
#include "mc.h"
#include "sweep.h"
#include "frame.h"
#include <array>
#ifndef SW
#define SW -1
#endif
#ifndef RESETS
#define RESETS 0
#endif
#ifndef FRAMES
#define FRAMES 1
#endif
#ifndef GRAIN
#define GRAIN 1      // the schedule may change only every GRAIN cycles
#endif
#ifndef QUIET
#define QUIET (KIND == 4 ? 12 : 3)     // idle cycles watched after the last word
#endif
#ifndef REPROG
#define REPROG 0      // the frame size is programmed anew between frames
#endif
#ifdef AXI
#include "axi.h"
#ifndef TABLE
#define TABLE
#endif
// (class, code, length) entries written over the default table
static const std::vector<std::array<unsigned, 3>> CUSTOM = {TABLE};
#endif
struct Fr { int w, h; std::vector<uint16_t> px; std::vector<uint64_t> out; };
struct Harness : mc::Base<dut::Tag> {
  struct R {
#ifdef DBG
    uint32_t n[8]; uint8_t started;   // what the debug counters must show; DBG bounds the cycles of a transfer
#endif
    uint32_t img, fed, got, frame, quiet; uint8_t iv, ob, left, resets, t; };
  struct W { dut::S s; R r; };
  struct Item { int w, h; std::string name; std::vector<Fr> f; };
  std::vector<Item> it;
  ref::Code T[17];
  Harness() { memcpy(T, ref::HUFF, sizeof T);
#ifdef AXI
    for (auto& e : CUSTOM) T[e[0]] = {e[1], e[2]};
#endif
    struct G { int w, h; const char* k; int seed; }; G gs[] = {IMAGES};
    for (auto& g : gs) { Item x{g.w, g.h, fmt("%s_%dx%d_s%d", g.k, g.w, g.h, g.seed), {}};
      for (int f = 0; f < FRAMES; f++) { int w2 = g.w + REPROG * f * PS, h2 = g.h + REPROG * f; Image im = make_image(w2, h2, BD, f == 0 ? g.k : "mix", g.seed + f); Fr fr; fr.w = w2; fr.h = h2; fr.px = im.px; auto w = words(encode_bits(im, BD, T), OUTB); if (KIND == 4) w = mark(stuff(w)); fr.out = w; x.f.push_back(fr); }
      it.push_back(x); }
#ifdef ALLIMG
    // every frame of ALLIMG_W x ALLIMG_H over the listed pixel values
    { std::vector<uint16_t> al{ALLIMG}; int n = ALLIMG_W * ALLIMG_H; uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= al.size();
      for (uint64_t k = 0; k < tot; k++) { Item x{ALLIMG_W, ALLIMG_H, fmt("all#%llu", (unsigned long long)k), {}}; Image im{ALLIMG_W, ALLIMG_H, std::vector<uint16_t>(n), ""}; uint64_t r = k; for (int i = 0; i < n; i++) { im.px[i] = al[r % al.size()]; r /= al.size(); }
        for (int f = 0; f < FRAMES; f++) { Fr fr; fr.w = ALLIMG_W; fr.h = ALLIMG_H; fr.px = im.px; auto w = words(encode_bits(im, BD, T), OUTB); if (KIND == 4) w = mark(stuff(w)); fr.out = w; x.f.push_back(fr); } it.push_back(x); } }
#endif
  }
  int ninit() { return (int)it.size(); }
#ifdef DBG
  bool check_liveness() { return false; }
#endif
  std::string init_name(int k) { return it[k].name; }
  void program(dut::S& s, int k) {
#ifdef AXI
    // one byte enable at a time, as well as whole words
    uint32_t hw = (uint32_t)it[k].w << 16 | it[k].h; for (int b = 0; b < 4; b++) axi_write(s, 0x2000, hw, 1 << b);
    axi_write(s, 0x2004, 0xffffff);
    for (auto& e : CUSTOM) { uint64_t m = (uint64_t)e[2] << (16 + BD) | (uint64_t)e[1] << (e[0] == 16 ? 0 : e[0]); axi_write(s, 0x1000 + 8 * e[0], (uint32_t)m); axi_write(s, 0x1004 + 8 * e[0], (uint32_t)(m >> 32)); }
#endif
  }
  void reprogram(dut::S& s, int k, int f) {
#ifdef AXI
    axi_write(s, 0x2000, (uint32_t)it[k].f[f].w << 16 | it[k].f[f].h); axi_write(s, 0x2004, 0x7f0000, 4);
#endif
  }
  void init(W& w, int k) { dut::reset(w.s); program(w.s, k);w.r.img = k; w.r.left = SW < 0 ? 0 : SW; w.r.iv = 1; w.r.resets = RESETS; }
  // choice: bit0 = withhold input, bit1 = stall output, 4 = reset
  int nchoices(const W& w) { return w.r.resets ? 5 : 4; }
  int dflt(const W& w) { return GRAIN > 1 && w.r.t ? (w.r.iv ? 0 : 1) | w.r.ob << 1 : 0; }
  int step(const W& a, int c, W& b) {
    const Item& x = it[a.r.img]; R& r = b.r; r = a.r; dut::I in; dut::O o;
    const uint32_t groups = x.w * x.h / PS; (void)groups; bool alldone = r.frame >= FRAMES;
    int iv = !(c & 1), ob = c >> 1 & 1; bool rst = c == 4; if (rst) { iv = 1; ob = 0; }
    if (GRAIN > 1) { r.t = (a.r.t + 1) % GRAIN; if (a.r.t && (iv != a.r.iv || ob != a.r.ob)) return mc::PRUNE; }
    if (SW >= 0 && !rst) { int cost = (a.r.iv && !iv) + (!a.r.ob && ob); if (cost > r.left) return mc::PRUNE; r.left -= cost; r.iv = iv; r.ob = ob; }
    // offered pixel: of the frame whose input is next.  In the framed core the next frame may already be offered.
    uint32_t ff = 0, fi = r.fed, upto = 0; while (ff < FRAMES && fi >= x.f[ff].px.size() / PS) { fi -= x.f[ff].px.size() / PS; ff++; }
    for (int k = 0; k <= (int)r.frame && k < FRAMES; k++) upto += x.f[k].px.size() / PS;
    bool more = KIND == 4 ? ff < FRAMES && (!REPROG || ff <= r.frame) : r.fed < groups;
    in.valid_in = more && iv; in.busy_in = ob;
#ifndef AXI
    in.height = x.h; in.width = x.w;
#ifdef ALLOWED
    in.allowed = ALLOWED;
#else
    in.allowed = 0xffffff;
#endif
#endif
    for (int k = 0; k < PS; k++) dut::px(in, k) = in.valid_in ? x.f[ff].px[fi * PS + k] : (0xaaa & ((1 << BD) - 1));
    SET_RST(in, rst);
    dut::step(a.s, in, o, b.s); dut::forget(a.s, b.s);
#ifdef DBG
    // from the cycle after the first offer to the cycle before the end is presented
    if (r.started == 1 && !o.end_out) { bool v[4] = {!in.valid_in, !o.valid_out, (bool)o.nready, (bool)in.busy_in}; for (int k = 0; k < 4; k++) { r.n[2 * k] += v[k]; r.n[2 * k + 1] += !v[k]; } if (r.n[0] + r.n[1] > DBG) return mc::PRUNE; }
    if (r.started == 2) r.started = 0; else if (in.valid_in) r.started = 1;   // 2: the core resets itself
    if (o.end_out && o.valid_out && !ob) r.started = 2;
#endif
    if (rst) { program(b.s, a.r.img); r = R{}; r.img = a.r.img; r.left = SW < 0 ? 0 : SW; r.iv = 1; r.resets = a.r.resets - 1; return mc::OK; }
    if (in.valid_in && !o.nready) { r.fed++;
      if (KIND == 4 && ff > r.frame) return mc::fail("a pixel group of frame %u is accepted before frame %u was delivered", ff, r.frame); }
    if (o.valid_out && !ob) {
      if (alldone) { return mc::fail("a word (0x%llx, end=%d) is transferred after the end of the last frame", (unsigned long long)o.data_out, (int)o.end_out); }
      else { const auto& e = x.f[r.frame].out;
        if (o.data_out != e[r.got]) return mc::fail("frame %u word %u of %zu: got 0x%llx, reference 0x%llx", r.frame, r.got, e.size(), (unsigned long long)o.data_out, (unsigned long long)e[r.got]);
        bool last = r.got + 1 == e.size(); if ((bool)o.end_out != last) return mc::fail("frame %u word %u of %zu carries end=%d", r.frame, r.got, e.size(), (int)o.end_out);
        r.got++; if (last) { r.frame++; r.got = 0; r.quiet = 0; if (r.fed != upto) return mc::fail("end of frame after %u of %u groups were accepted", r.fed, upto); if (REPROG && r.frame < FRAMES) reprogram(b.s, r.img, r.frame); } } }
#ifdef DBG
    if (r.frame >= FRAMES && r.quiet == 8) { for (int k = 0; k < 8; k++) { uint32_t x = 0; if (!axi_read(b.s, 0x4000 + 4 * k, x)) return mc::fail("debug counter %d cannot be read", k); if (x != r.n[k]) return mc::fail("debug counter %d shows %u, %u cycles were seen", k, x, r.n[k]); } }
#endif
    if (r.frame >= FRAMES) { if (++r.quiet > QUIET) return mc::DONE; }
    return mc::OK; }
  std::string show(const W& w) { const Item& x = it[w.r.img]; return fmt("%s: %u groups accepted, frame %u, %u words of it out", x.name.c_str(), w.r.fed, w.r.frame, w.r.got); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = h.it.size(); mc::print(o, r); }
