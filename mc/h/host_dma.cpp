// XilinxDMA (host library) on a model of the Xilinx AXI DMA in direct register mode: every sequence of library calls,
// with every way the two channels can complete, until no new state appears; every status word; every order of the two
// completion bits.
#include "mc.h"
#include "sweep.h"
#include "host.h"
#include "xilinx_dma.h"
struct Chan { uint32_t cr, addr, len; uint8_t run, busy, ioc_in, idle_in, pad; uint32_t sr; };
struct Dev { Chan c[2]; };   // 0: MM2S (0x00), 1: S2MM (0x30)
static Dev D; static int lastread[2]; static uint32_t lastval[2]; static long polls; static int script_ioc, script_idle; static bool forced; static std::vector<uint32_t> forced_seq; static size_t forced_i;
static uint32_t bread(int, uint32_t off) { int k = off >= 0x30; uint32_t r = off - (k ? 0x30 : 0); if (r != 4) { Chan& c = D.c[k]; return r == 0 ? c.cr : r == 0x18 ? c.addr : r == 0x28 ? c.len : 0xeeeeeeee; }
  if (++polls > 200) host::leave(3); if (forced) { uint32_t v = forced_seq[std::min(forced_i, forced_seq.size() - 1)]; forced_i++; lastread[k]++; return lastval[k] = v; }
  Chan& c = D.c[k]; if (c.busy) { if (c.ioc_in) c.ioc_in--; else c.sr |= 1 << 12; if (c.idle_in) c.idle_in--; else c.sr |= 2; if ((c.sr & 0x1002) == 0x1002) c.busy = 0; } lastread[k]++; return lastval[k] = c.sr; }
static void bwrite(int, uint32_t off, uint32_t v) { int k = off >= 0x30; uint32_t r = off - (k ? 0x30 : 0); Chan& c = D.c[k];
  if (r == 0) { if (v & 4) { memset(&c, 0, sizeof c); c.sr = 1; } else { c.cr = v; c.run = v & 1; if (c.run) c.sr &= ~1u; else { c.sr |= 1; c.busy = 0; } } }
  else if (r == 4) c.sr &= ~(v & 0x7000); else if (r == 0x18) c.addr = v; else if (r == 0x28) { c.len = v; if (c.run && v) { c.busy = 1; c.sr &= ~2u; c.ioc_in = script_ioc; c.idle_in = script_idle; } } else host::complain("write of 0x%x to the register at 0x%x", v, off); }
static XilinxDMA* X; static uint64_t calls;
static std::vector<std::string> decode(uint32_t s) { std::vector<std::string> d; d.push_back(s & 1 ? "halted" : "running"); static const std::pair<int, const char*> B[] = {{1, "idle"}, {3, "SGIncld"}, {4, "DMAIntErr"}, {5, "DMASlvErr"}, {6, "DMADecErr"}, {8, "SGIntErr"}, {9, "SGSlvErr"}, {10, "SGDecErr"}, {12, "IOC_Irq"}, {13, "Dly_Irq"}, {14, "Err_Irq"}}; for (auto& b : B) if (s >> b.first & 1) d.push_back(b.second); return d; }
static const uint32_t A[4][2] = {{0x10000000, 0x12000000}, {0xffffffff, 0}, {4, 0xfffffffc}, {0, 0x80000001}}, LN[3][2] = {{1 << 20, 0x1800000}, {4, 0x3ffffff}, {0x3fffffc, 8}};
enum { RESET, HALT, START, ST0, ST1, SYNC0, SYNC1, ADDR, LEN = ADDR + 4, NOPS = LEN + 3 * 9 };
struct NoDut { static void set_sink(TraceSink*) {} };
struct Harness : mc::Base<NoDut> {
  struct R { uint32_t x; }; struct W { Dev d; R r; };
  void init(W& w, int) { memset((void*)&w, 0, sizeof w); w.d.c[0].sr = w.d.c[1].sr = 1; }
  int nchoices(const W&) { return NOPS; }
  bool check_liveness() { return false; }
  int step(const W& a, int c, W& b) { b = a; D = a.d; polls = 0; lastread[0] = lastread[1] = 0; Dev e = a.d; int why = 0; calls++; std::vector<std::string> st; auto run = [&](auto f) { why = host_run(f); };
    script_ioc = script_idle = 0;
    if (c == RESET) { run([&] { X->reset_dma(); }); for (auto& k : e.c) { memset(&k, 0, sizeof k); k.sr = 1; } }
    else if (c == HALT) { run([&] { X->halt_dma(); }); for (auto& k : e.c) { k.cr = 0; k.run = 0; k.busy = 0; k.sr |= 1; } }
    else if (c == START) { run([&] { X->start_dma(); }); for (int k = 0; k < 2; k++) { if ((D.c[k].cr & 0x7005) != 0x7001) return mc::fail("start_dma leaves the control register of channel %d at 0x%x", k, D.c[k].cr); e.c[k].cr = D.c[k].cr; e.c[k].run = 1; e.c[k].sr &= ~1u; } }
    else if (c == ST0 || c == ST1) { int k = c - ST0; run([&] { st = k ? X->dma_s2mm_status() : X->dma_mm2s_status(); }); if (!lastread[k]) return mc::fail("the status of channel %d is reported without being read", k); if (lastread[1 - k]) return mc::fail("the status of channel %d is read instead of channel %d's", 1 - k, k); if (!why && st != decode(lastval[k])) return mc::fail("status 0x%x is reported wrongly", lastval[k]);
      Dev keep = D; D = a.d; for (int i = 0; i < lastread[k]; i++) { int n = lastread[k]; uint32_t v = lastval[k]; bread(0, k ? 0x34 : 4); lastread[k] = n; lastval[k] = v; } e = D; D = keep; }
    else if (c == SYNC0 || c == SYNC1) { int k = c - SYNC0; bool can = (a.d.c[k].sr & 0x1002) == 0x1002 || a.d.c[k].busy; run([&] { k ? X->dma_s2mm_sync() : X->dma_mm2s_sync(); });
      if (can && why) return mc::fail("waiting for channel %d does not end although it has completed", k); if (!can && !why) return mc::fail("waiting for channel %d ends although it has not completed (status 0x%x)", k, a.d.c[k].sr);
      if (!why && (lastval[k] & 0x1002) != 0x1002) return mc::fail("waiting for channel %d ends on status 0x%x", k, lastval[k]); why = 0;
      e.c[k] = D.c[k]; if (D.c[k].cr != a.d.c[k].cr || D.c[k].addr != a.d.c[k].addr || D.c[k].len != a.d.c[k].len) return mc::fail("waiting changes registers"); }
    else if (c < LEN) { int k = c - ADDR; run([&] { X->set_dma_src_dist(A[k][0], A[k][1]); }); e.c[0].addr = A[k][0]; e.c[1].addr = A[k][1]; }
    else { int k = (c - LEN) / 9, s = (c - LEN) % 9; script_ioc = s / 3; script_idle = s % 3; run([&] { X->set_dma_transfer_len(LN[k][0], LN[k][1]); }); for (int q = 0; q < 2; q++) { Chan& h = e.c[q]; h.len = LN[k][1 - q]; if (h.run) { h.busy = 1; h.sr &= ~2u; h.ioc_in = script_ioc; h.idle_in = script_idle; } } }
    if (why) return mc::fail("call %d does not return", c); if (!host::problem.empty()) return mc::fail("%s", host::problem.c_str());
    for (int k = 0; k < 2; k++) if (memcmp(&D.c[k], &e.c[k], sizeof(Chan))) return mc::fail("call %d leaves channel %d with control 0x%x address 0x%x length 0x%x status 0x%x, expected 0x%x 0x%x 0x%x 0x%x", c, k, D.c[k].cr, D.c[k].addr, D.c[k].len, D.c[k].sr, e.c[k].cr, e.c[k].addr, e.c[k].len, e.c[k].sr);
    b.d = D; return mc::OK; }
  std::string show(const W& w) { return fmt("status 0x%x 0x%x", w.d.c[0].sr, w.d.c[1].sr); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); o.threads = 1; host_guard(o); const uint32_t BASE = 0x40400000; host::setup({{BASE, 65536, nullptr, true, 0}}); host::bus_read = bread; host::bus_write = bwrite; mc::Result r; std::string bad; X = new XilinxDMA(BASE); bad = host::problem; uint64_t n = 0;
  // every status word (all values of bits 0-15, and every upper bit), on both channels
  forced = true; for (uint32_t s = 0; s < 65536 + 16 && bad.empty(); s++) for (int k = 0; k < 2; k++) { uint32_t x = s < 65536 ? s : 1u << (s - 65536 + 16); forced_seq = {x}; forced_i = 0; polls = 0; std::vector<std::string> st; host_run([&] { st = k ? X->dma_s2mm_status() : X->dma_mm2s_status(); }); n++; if (st != decode(x)) bad = fmt("status 0x%x of channel %d is reported wrongly", x, k);
      forced_seq = {x}; forced_i = 0; polls = 0; int why = host_run([&] { k ? X->dma_s2mm_sync() : X->dma_mm2s_sync(); }); bool fin = (x & 0x1002) == 0x1002; if (fin != !why && bad.empty()) bad = fmt("waiting on status 0x%x of channel %d %s", x, k, why ? "does not end" : "ends"); }
  // every sequence of up to five status words of the list, then completion
  static const uint32_t L[] = {0, 2, 0x1000, 1, 0x1001, 0x7ffd & ~0x1000u, 0xffffeffd, 0xffffeffe, 0xffffffff & ~2u}; const int NL = 9;
  for (int len = 0; len <= 5 && bad.empty(); len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= NL; for (int q = 0; q < tot && bad.empty(); q++) for (int k = 0; k < 2; k++) { forced_seq.clear(); int z = q; for (int i = 0; i < len; i++, z /= NL) forced_seq.push_back(L[z % NL]); forced_seq.push_back(0x1002); forced_i = 0; polls = 0; n++; int why = host_run([&] { k ? X->dma_s2mm_sync() : X->dma_mm2s_sync(); }); if (why || forced_i <= (size_t)len) bad = fmt("waiting for channel %d ends after %zu of %d status words", k, forced_i, len + 1); } }
  forced = false; if (bad.empty()) bad = host::problem;
  if (!bad.empty()) { r.violation = true; r.message = bad; guard_done = true; mc::print(o, r); return 0; }
  Harness h; mc::Explorer<Harness> ex(h, o); r = ex.run(); r.executions += n; r.outcomes = calls; guard_done = true; mc::print(o, r); }
