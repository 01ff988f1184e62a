// AXI-Lite slave, cycle level: a write engine and a read engine issue up to NW writes and NR reads of a small
// alphabet, raising every valid and ready at every possible cycle (independently, in any order).
//   init 0: ready signals may be raised at any time; init 1: the master raises ready only once it has seen valid
#include "mc.h"
#include "sweep.h"
#include "regmap.h"
#include <array>
#if defined(RESETS)
#define SETRST(in) in.core_rst = 1
#else
#define SETRST(in)
#endif
#ifndef RESETS
#define RESETS 0      // pulses of the core's own reset, at any cycle: the registers and the bus must not notice
#endif
static std::vector<std::array<uint32_t, 3>> WOPS{WOPLIST};   // byte address, data, strobe
static std::vector<uint32_t> ROPS{ROPLIST};
struct Harness : mc::Base<dut::Tag> {
  struct R { Regs m; uint8_t wleft, rleft, wop, aw, w, wst, rop, ar, rst, mode, sawb, sawr, heldb, heldr, hbresp, hrresp; uint32_t hrdata; uint32_t cand[4]; uint8_t ncand, wresp, quiet, rsts; };
  struct W { dut::S s; R r; };
  int ninit() { return 2; }
  std::string init_name(int k) { return k ? "ready_after_valid" : "ready_any_time"; }
  void init(W& w, int k) { dut::reset(w.s); w.r.m.reset(); w.r.wleft = NW; w.r.rleft = NR; w.r.mode = k; w.r.rsts = RESETS; }
  // wst: 0 idle, 1 op chosen; aw/w: 0 not raised 1 raised 2 accepted
  int nw() { return 1 + (int)WOPS.size(); } int nr() { return 1 + (int)ROPS.size(); }
  int nchoices(const W& w) { return 16 * nw() * nr() * (w.r.rsts ? 2 : 1); }
  int dflt(const W& w) { int ws = w.r.wst == 0 && w.r.wleft ? 1 : 0, rs = w.r.rst == 0 && w.r.rleft ? 1 : 0; int k = 0;
    bool hasw = w.r.wst || ws; k |= (hasw && !w.r.aw) ? 1 : 0; k |= (hasw && !w.r.w) ? 2 : 0; k |= (w.r.mode ? w.r.sawb : 1) ? 4 : 0; k |= (w.r.mode ? w.r.sawr : 1) ? 8 : 0; return k + 16 * (ws + nw() * rs); }
  int step(const W& a, int c, W& b) { R& r = b.r; r = a.r; dut::I in; dut::O o; int k = c & 15, ws = c / 16 % nw(), rs = c / 16 / nw() % nr();
    if (c / 16 / nw() / nr()) { r.rsts--; SETRST(in); }
    if (ws) { if (r.wst || !r.wleft) return mc::PRUNE; r.wst = 1; r.wop = ws - 1; r.wleft--; r.aw = r.w = 0; }
    if (k & 1) { if (!r.wst || r.aw) return mc::PRUNE; r.aw = 1; }
    if (k & 2) { if (!r.wst || r.w) return mc::PRUNE; r.w = 1; }
    if (rs) { if (r.rst || !r.rleft) return mc::PRUNE; r.rst = 1; r.rop = rs - 1; r.rleft--; r.ar = 1; uint32_t d = 0; bool any; r.m.read(ROPS[r.rop], d, any); r.cand[0] = d; r.ncand = 1; 
      if (r.wst) { Regs t = r.m; t.write(WOPS[r.wop][0], WOPS[r.wop][1], WOPS[r.wop][2]); t.read(ROPS[r.rop], d, any); r.cand[r.ncand++] = d; } }
    else if (ws && r.rst && r.ncand < 4) { Regs t = r.m; uint32_t d = 0; bool any; t.write(WOPS[r.wop][0], WOPS[r.wop][1], WOPS[r.wop][2]); t.read(ROPS[r.rop], d, any); r.cand[r.ncand++] = d; }
    int br = k >> 2 & 1, rr = k >> 3 & 1;
    if (r.mode) { if (br && !r.sawb) return mc::PRUNE; if (rr && !r.sawr) return mc::PRUNE; }
    in.awvalid = r.aw == 1; in.wvalid = r.w == 1; in.arvalid = r.ar == 1; in.bready = br; in.rready = rr;
    in.awaddr = r.aw == 1 ? WOPS[r.wop][0] : 0x2004; in.wdata = r.w == 1 ? WOPS[r.wop][1] : 0x33333333; in.wstrb = r.w == 1 ? WOPS[r.wop][2] : 15; in.araddr = r.ar == 1 ? ROPS[r.rop] : 0;
    extra_in(in);
    dut::step(a.s, in, o, b.s);
    // handshakes
    if (in.awvalid && o.awready) r.aw = 2;
    if (in.wvalid && o.wready) r.w = 2;
    if (in.arvalid && o.arready) r.ar = 2;
    if (a.r.heldb) { if (!o.bvalid) return mc::fail("bvalid is withdrawn before bready"); if (o.bresp != a.r.hbresp) return mc::fail("bresp changes while bvalid waits"); }
    if (a.r.heldr) { if (!o.rvalid) return mc::fail("rvalid is withdrawn before rready"); if (o.rresp != a.r.hrresp || o.rdata != a.r.hrdata) return mc::fail("the read response changes while rvalid waits"); }
    r.heldb = r.heldr = 0; r.hbresp = r.hrresp = 0; r.hrdata = 0; r.sawb = o.bvalid && !br; r.sawr = o.rvalid && !rr; if (!r.mode) r.sawb = r.sawr = 0;
    if (o.bvalid) { if (a.r.aw != 2 || a.r.w != 2) return mc::fail("a write response appears without an accepted write");
      if (br) { int e = r.m.write(WOPS[r.wop][0], WOPS[r.wop][1], WOPS[r.wop][2]); if (o.bresp != e) return mc::fail("write 0x%x: response %d, expected %d", WOPS[r.wop][0], (int)o.bresp, e); r.wst = 0; r.aw = r.w = 0; r.wop = 0;  }
      else { r.heldb = 1; r.hbresp = o.bresp; } }
    if (o.rvalid) { if (a.r.ar != 2) return mc::fail("a read response appears without an accepted read");
      if (rr) { uint32_t d = 0; bool any; int e = r.m.read(ROPS[r.rop], d, any); if (o.rresp != e) return mc::fail("read 0x%x: response %d, expected %d", ROPS[r.rop], (int)o.rresp, e);
        if (!any) { bool ok = false; for (int i = 0; i < r.ncand; i++) ok |= r.cand[i] == o.rdata; if (!ok) return mc::fail("read 0x%x: 0x%x, expected 0x%x", ROPS[r.rop], (unsigned)o.rdata, r.cand[r.ncand - 1]); }
        r.rst = 0; r.ar = 0; r.rop = 0; r.ncand = 0; memset(r.cand, 0, sizeof r.cand); }
      else { r.heldr = 1; r.hrresp = o.rresp; r.hrdata = o.rdata; } }
    if (!r.wst) { int x = ports(r.m, o, in); if (a.r.wst == 0 && x) return x; }
    if (!r.wleft && !r.rleft && !r.wst && !r.rst) { if (++r.quiet > 3) return mc::DONE; }
    return mc::OK; }
#ifdef DMA
  void extra_in(dut::I& in) { in.in1 = Regs::inval(0); in.in2 = Regs::inval(1); in.in3 = Regs::inval(2); in.in4 = Regs::inval(3); in.in5 = Regs::inval(4); in.in6 = Regs::inval(5); in.in7 = Regs::inval(6); in.in8 = Regs::inval(7); in.in9 = Regs::inval(8); }
  int ports(Regs& m, dut::O& o, dut::I&) { if (o.read_addr != m.rw[0] || o.write_addr != m.rw[1] || o.start != m.rw[2]) return mc::fail("register outputs %x %x %x, written %x %x %x", (unsigned)o.read_addr, (unsigned)o.write_addr, (unsigned)o.start, m.rw[0], m.rw[1], m.rw[2]); return 0; }
#else
  void extra_in(dut::I& in) {}
  int ports(Regs& m, dut::O& o, dut::I&) { if (o.height != (m.hw & 0xffff) || o.width != m.hw >> 16 || o.allowed_cycles != m.ac) return mc::fail("outputs height %u width %u allowed %u, written %u %u %u", (unsigned)o.height, (unsigned)o.width, (unsigned)o.allowed_cycles, m.hw & 0xffff, m.hw >> 16, m.ac); return 0; }
#endif
  std::string show(const W& w) { return fmt("%d writes, %d reads left", w.r.wleft, w.r.rleft); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = r.terminals; mc::print(o, r); }
