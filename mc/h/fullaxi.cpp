// The core behind its own DMA (full-AXI top): pixels read from a memory, the framed stream written to a memory, with
// any timing of the five AXI channels (at most SW departures from free running).
//   TAIL: require the whole stream in memory and nothing in flight when the core resets itself (see known_findings.txt)
//   MODES: kinds of memory: 0 takes every address at once and answers at once; 1 takes the next address only while it offers
//          the last beat of the burst before; 2 queues two addresses and answers 20 cycles late
//   LIM:  start from a state LIM bursts before the read or write limit (reached by free running), explore around it
#include "mc.h"
#include "sweep.h"
#include "frame.h"
#include "axi.h"
#ifndef FRAMES
#define FRAMES 2
#endif
#ifndef TAIL
#define TAIL 0
#endif
#ifndef GRAIN
#define GRAIN 1
#endif
#ifndef LIM
#define LIM 0
#endif
#ifndef STATUS
#define STATUS 0       // in every state, with the bus at rest, read the status registers
#endif
#ifndef READS
#define READS 0        // the registers are read one after the other all the time
#endif
#ifndef MODES
#define MODES 0
#endif
static const uint32_t RA = 0x18000080u, WA = 0x1c000f80u, RLIM = 196608, WLIM = 131072;
struct Harness : mc::Base<dut::Tag> {
  struct R { uint32_t arn, rb, awn, wb, bn, due; uint8_t img, frame, left, st, rheld, bheld, awheld, wheld, arheld, t, mode, rwait, bwait, reg; uint16_t quiet; };
  struct W { dut::S s; R r; };
  struct Item { int w, h; std::string name; std::vector<uint16_t> px; std::vector<uint64_t> out; size_t n16; };
  std::vector<std::vector<Item>> it; std::vector<int> modes{MODES}; bool warming = false; std::vector<W> warm;
  Harness() { struct G { int w, h; const char* k; int seed; }; G gs[] = {IMAGES};
    for (auto& g : gs) { std::vector<Item> v;
      for (int f = 0; f < FRAMES; f++) { Item x{g.w, g.h, fmt("%s_%dx%d_s%d", g.k, g.w, g.h, g.seed)}; Image im = make_image(g.w, LIM ? 200 : g.h, 12, g.k, g.seed + f); x.px = im.px;
        auto s = mark(stuff(words(encode_bits(im, 12), 16))); x.n16 = s.size(); while (s.size() & 3) s.push_back(0); for (size_t i = 0; i < s.size(); i += 4) x.out.push_back(s[i] << 48 | s[i + 1] << 32 | s[i + 2] << 16 | s[i + 3]); v.push_back(x); }
      it.push_back(v); }
    if (LIM) { warming = true; warm.resize(ninit()); for (int k = 0; k < ninit(); k++) warm[k] = run_up(k); warming = false; } }
  int ninit() { return (int)(it.size() * modes.size()); } std::string init_name(int k) { return fmt("%s_memory%d", it[k / modes.size()][0].name.c_str(), modes[k % modes.size()]); }
  const Item& cur(const R& r) const { return it[r.img][r.frame]; }
  dut::I geo(const R& r) const { dut::I in; in.height = cur(r).h; in.width = cur(r).w; in.allowed = 0xffffff; return in; }
  bool program(dut::S& s, const R& r) { dut::I in = geo(r); bool ok = axi_write(s, 0x1000, RA, 15, in) && axi_write(s, 0x1004, WA, 15, in) && axi_write(s, 0x1008, 0xffffffffu, 15, in); return ok; }
  void init(W& w, int k) { if (LIM && !warm.empty()) { memcpy((void*)&w, &warm[k], sizeof w); return; } dut::reset(w.s); w.r.img = k / modes.size(); w.r.mode = modes[k % modes.size()]; w.r.left = SW; program(w.s, w.r); }
  W run_up(int k) { W a, b; memset((void*)&a, 0, sizeof a); dut::reset(a.s); a.r.img = k / modes.size(); a.r.mode = modes[k % modes.size()]; a.r.left = SW; program(a.s, a.r);
    for (uint64_t n = 0; n < 60000000; n++) { memset((void*)&b, 0, sizeof b); int st = step(a, 0, b); if (st != mc::OK) { fprintf(stderr, "limit not reached: %s after %llu cycles\n", st == mc::FAIL ? mc::msg : "end", (unsigned long long)n); if (st == mc::FAIL) { memcpy((void*)&a, &b, sizeof a); bad = mc::msg; return a; } exit(3); }
      memcpy((void*)&a, &b, sizeof a); if (a.r.arn + LIM >= RLIM || a.r.awn + LIM >= WLIM) { a.r.quiet = 0; return a; } }
    fprintf(stderr, "limit not reached\n"); exit(3); }
  std::string bad;
  int nchoices(const W&) { return 32; }
  // 0: right or the frame ends meanwhile
  int status(const W& b) { static thread_local dut::S s, n; const R& r = b.r; static const char* nm[] = {"state", "next read address", "next write address", "read bursts", "write bursts"};
    uint32_t ra = r.arn - r.rb / 16, wa = r.awn - r.wb / 16, un = r.awn - r.bn;
    uint32_t want[] = {(uint32_t)(r.arn == RLIM) << 5 | (uint32_t)(r.awn == WLIM) << 6 | (uint32_t)(ra == 0) << 7 | (uint32_t)(wa == 0 && un == 0) << 8 | wa << 11 | ra << 15 | un << 19, RA + 0x80 * r.arn, WA + 0x80 * r.awn, r.arn, r.awn};
    memcpy((void*)&s, &b.s, sizeof s); dut::I base = geo(r);
    for (int k = 0; k < 5; k++) { dut::I in = base; dut::O o; in.araddr = 0x100c + 4 * k; in.arvalid = 1; in.rready = 1; bool got = false;
      for (int t = 0; t < 40 && !got; t++) { memset((void*)&n, 0, sizeof n); dut::step(s, in, o, n); memcpy((void*)&s, &n, sizeof s); if (o.core_rst) return 0; if (in.arvalid && o.arready) in.arvalid = 0;
        if (o.rvalid) { got = true; uint32_t v = o.rdata, m = k == 0 ? 0x7fffe0 : ~0u; if ((v & m) != want[k] || o.rresp) return mc::fail("status register %d (%s) reads 0x%x, expected 0x%x", k + 1, nm[k], (unsigned)(v & m), want[k]); } }
      if (!got) return mc::fail("status register %d does not answer", k + 1);
      memset((void*)&n, 0, sizeof n); dut::step(s, base, o, n); memcpy((void*)&s, &n, sizeof s); if (o.core_rst) return 0; }
    return 0; }
  int dflt(const W& w) { return GRAIN > 1 && w.r.t ? w.r.st : 0; }
  uint64_t pixels(const Item& x, uint64_t beat) const { size_t i = beat * 4; uint64_t q[4]; for (int k = 0; k < 4; k++) q[k] = i + k < x.px.size() ? x.px[i + k] : 0x5a5; // two pixels per 32-bit half, the first half first; the unused bits are ones
    return (0xff000000ull | q[1] << 12 | q[0]) << 32 | 0xff000000ull | q[3] << 12 | q[2]; }
  // choice bits: stall 1 AR, 2 R, 4 AW, 8 W, 16 B
  int step(const W& a, int c, W& b) {
    R& r = b.r; r = a.r; const Item& x = cur(a.r); dut::I in = geo(a.r); dut::O o; if (!bad.empty()) return mc::fail("%s", bad.c_str());
    if (GRAIN > 1) { r.t = (a.r.t + 1) % GRAIN; if (a.r.t && c != a.r.st) return mc::PRUNE; }
    int cost = __builtin_popcount(c & ~a.r.st); if (cost > a.r.left) return mc::PRUNE; r.left -= cost; r.st = c;
    if ((a.r.rheld && (c & 2)) || (a.r.bheld && (c & 16))) return mc::PRUNE;    // what the memory offers it keeps offering
    bool pend = a.r.rb < a.r.arn * 16; int M = a.r.mode, depth = M == 0 ? 255 : M; bool rv = pend && !a.r.rwait && !(c & 2), bany = a.r.bn < a.r.wb / 16 && a.r.bn < a.r.awn, bv = bany && !a.r.bwait && !(c & 16);
    int rq = a.r.arn - a.r.rb / 16, wq = a.r.awn - a.r.wb / 16;   // bursts accepted and not finished
    in.r_arready = !(c & 1) && (rq < depth || (rv && a.r.rb % 16 == 15 && rq == depth)); in.w_awready = !(c & 4) && a.r.awn - a.r.bn < 8 && (wq < depth || (a.r.wb % 16 == 15 && wq == depth)); in.w_wready = !(c & 8);
    in.r_rvalid = rv; in.r_rdata = rv ? pixels(x, a.r.rb) : 0xbadbadbadbadbadull; in.r_rlast = rv && a.r.rb % 16 == 15; in.w_bvalid = bv;
    if (READS) { in.arvalid = in.rready = 1; in.araddr = 0x1000 + 4 * a.r.reg; }
    dut::step(a.s, in, o, b.s); dut::forget(a.s, b.s);
    if (READS && o.arready) r.reg = (a.r.reg + 1) % 12;
    if (a.r.arheld && !o.r_arvalid) return mc::fail("arvalid withdrawn"); if (a.r.awheld && !o.w_awvalid) return mc::fail("awvalid withdrawn"); if (a.r.wheld && !o.w_wvalid) return mc::fail("wvalid withdrawn");
    if (o.r_arvalid && (o.r_araddr != RA + 0x80 * a.r.arn || o.r_arlen != 15 || o.r_arsize != 3 || o.r_arburst != 1)) return mc::fail("read burst %u at 0x%x (len %d), expected 0x%x", a.r.arn, (unsigned)o.r_araddr, (int)o.r_arlen, RA + 0x80 * a.r.arn);
    if (o.r_arvalid && a.r.arn >= RLIM) return mc::fail("a read burst beyond the frame: number %u of %u", a.r.arn + 1, RLIM);
    if (o.w_awvalid && (o.w_awaddr != WA + 0x80 * a.r.awn || o.w_awlen != 15 || o.w_awsize != 3 || o.w_awburst != 1)) return mc::fail("write burst %u at 0x%x (len %d), expected 0x%x", a.r.awn, (unsigned)o.w_awaddr, (int)o.w_awlen, WA + 0x80 * a.r.awn);
    if (o.w_awvalid && a.r.awn >= WLIM) return mc::fail("a write burst beyond the destination: number %u of %u", a.r.awn + 1, WLIM);
    if (o.w_wvalid) { if (a.r.wb >= x.out.size()) return mc::fail("a word is written after the end of the stream"); if (o.w_wdata != x.out[a.r.wb] || o.w_wstrb != 0xff) return mc::fail("word %u written 0x%llx strobes %x, expected 0x%llx", a.r.wb, (unsigned long long)o.w_wdata, (unsigned)o.w_wstrb, (unsigned long long)x.out[a.r.wb]);
      if ((bool)o.w_wlast != (a.r.wb % 16 == 15)) return mc::fail("word %u has wlast=%d", a.r.wb, (int)o.w_wlast); }
    bool ar = o.r_arvalid && in.r_arready, rd = rv && o.r_rready, aw = o.w_awvalid && in.w_awready, wh = o.w_wvalid && in.w_wready, bh = bv && o.w_bready;
    r.arn += ar; r.rb += rd; r.awn += aw; r.wb += wh; r.bn += bh; r.arheld = o.r_arvalid && !ar; r.awheld = o.w_awvalid && !aw; r.wheld = o.w_wvalid && !wh; r.rheld = rv && !rd; r.bheld = bv && !bh;
    if (M == 2) { if (a.r.rwait && pend) r.rwait--; if (a.r.bwait && bany) r.bwait--; if (rd && a.r.rb % 16 == 15) r.rwait = 20; if (ar && !pend) r.rwait = 20; if (bh || !bany) r.bwait = 20; }
    if (o.core_rst) { // the core resets itself: the frame's last word has left it
      if (r.rb * 4 < x.px.size()) return mc::fail("the frame ends after %u of %zu pixels", r.rb * 4, x.px.size());
      if (r.wb + 32 + 3 < x.n16 / 4) return mc::fail("the frame ends after %u of %zu words were written", r.wb, x.n16 / 4);
      if (TAIL && (r.wb < x.n16 / 4 || r.awn != r.bn || r.rb != r.arn * 16)) return mc::fail("at the frame's end the core resets its DMA: %s", r.awn != r.bn ? "write bursts are unfinished" : r.wb < x.n16 / 4 ? "words are not written" : "read bursts are unfinished");
      if (a.r.frame + 1 == FRAMES) { r.frame = a.r.frame + 1; return mc::DONE; }
      int f = a.r.frame + 1, im = a.r.img, left = r.left, md = r.mode; memset((void*)&r, 0, sizeof r); r.frame = f; r.img = im; r.left = left; r.mode = md; if (!program(b.s, r)) return mc::fail("the registers do not answer after the frame's end"); return mc::OK; }
    if (STATUS && !warming) { auto* t = dut::sink; dut::sink = nullptr; int q = status(b); dut::sink = t; if (q) { if (t) status(b); return q; } }
    if (LIM) { bool act = ar | rd | aw | wh | bh; r.quiet = act || c ? 0 : a.r.quiet + 1; if (r.quiet > 100) { if (r.arn != RLIM && r.awn != WLIM) return mc::fail("stopped after %u read and %u write bursts", r.arn, r.awn); return mc::DONE; } }
    return mc::OK; }
  std::string show(const W& w) { if (w.r.frame >= FRAMES) return "finished"; const Item& x = cur(w.r); return fmt("%s frame %d: %u read bursts, %u beats, %u write bursts, %u beats of %zu, %u answers", x.name.c_str(), (int)w.r.frame, w.r.arn, w.r.rb, w.r.awn, w.r.wb, x.out.size(), w.r.bn); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); static Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = h.it.size(); mc::print(o, r); }
