// AXI-Lite slave, transaction level: every sequence of up to DEPTH transactions (reads and writes of every address,
// data pattern and byte strobe of the alphabet), each with every handshake profile; response, read data and register
// outputs are compared with the reference map after each one.
#include "mc.h"
#include "sweep.h"
#include "regmap.h"
static std::vector<uint32_t> ADDR{ADDRS}, DATA{DATAS};
struct Harness : mc::Base<dut::Tag> {
  struct R { Regs m; uint8_t depth; };
  struct W { dut::S s; R r; };
  void init(W& w, int k) { dut::reset(w.s); w.r.m.reset(); w.r.depth = 0; }
  enum { PROF = 4 };
  int nreads() { return (int)ADDR.size() * 2; } int nwrites() { return (int)(ADDR.size() * DATA.size() * NSTRB * PROF); }
  int nchoices(const W& w) { return w.r.depth >= DEPTH ? 0 : nreads() + nwrites() + EXTRA; }
  bool check_liveness() { return false; }
  static dut::I base() { dut::I in;
#ifdef DMA
    in.in1 = Regs::inval(0); in.in2 = Regs::inval(1); in.in3 = Regs::inval(2); in.in4 = Regs::inval(3); in.in5 = Regs::inval(4); in.in6 = Regs::inval(5); in.in7 = Regs::inval(6); in.in8 = Regs::inval(7); in.in9 = Regs::inval(8);
#endif
    return in; }
  int step(const W& a, int c, W& b) { R& r = b.r; r = a.r; r.depth++; dut::S s = a.s, n; memset((void*)&n, 0, sizeof n); dut::O o; dut::I in = base(); auto tick = [&] { dut::step(s, in, o, n); s = n; };
    if (c < nreads()) { uint32_t ad = ADDR[c >> 1]; int lazy = c & 1; in.araddr = ad; in.arvalid = 1; in.rready = !lazy; bool ok = false;
      for (int k = 0; k < 24 && !ok; k++) { tick(); if (in.arvalid && o.arready) in.arvalid = 0; if (o.rvalid && in.rready) { ok = true; } else if (o.rvalid && lazy) in.rready = 1; if (lazy && k == 12) in.rready = 1; }
      if (!ok) return mc::fail("the read of 0x%x is never answered", ad);
      uint32_t d = 0; bool any; int e = r.m.read(ad, d, any); if (o.rresp != e) return mc::fail("read 0x%x: response %d, expected %d", ad, (int)o.rresp, e); if (!any && o.rdata != d) return mc::fail("read 0x%x: 0x%x, expected 0x%x", ad, (unsigned)o.rdata, d); }
    else if (c < nreads() + nwrites()) { int k = c - nreads(); int prof = k % PROF; k /= PROF; int st = NSTRB == 16 ? k % NSTRB : (int[]){15, 1, 2, 4, 8, 0}[k % NSTRB]; k /= NSTRB; uint32_t d = DATA[k % DATA.size()], ad = ADDR[k / DATA.size()];
      // profiles: all at once | data after address | address after data | late response
      in.awaddr = ad; in.wdata = d; in.wstrb = st; in.awvalid = prof != 2; in.wvalid = prof != 1; in.bready = prof != 3; bool awd = false, wd = false, ok = false;
      for (int t = 0; t < 32 && !ok; t++) { if (prof == 2 && t == 3 && !awd) in.awvalid = 1; tick(); if (in.awvalid && o.awready) { in.awvalid = 0; awd = true; in.awaddr = 0x2004; } if (in.wvalid && o.wready) { in.wvalid = 0; wd = true; in.wdata = 0x77777777; in.wstrb = 15; } if (prof == 1 && awd && !wd && t > 5) in.wvalid = 1; if (o.bvalid && in.bready) ok = true; if (prof == 3 && (t > 12 || o.bvalid)) in.bready = 1; }
      if (!ok || !awd || !wd) return mc::fail("the write of 0x%x is never answered", ad);
      int e = r.m.write(ad, d, st); if (o.bresp != e) return mc::fail("write 0x%x: response %d, expected %d", ad, (int)o.bresp, e); }
#if EXTRA
    else { int k = c - nreads() - nwrites(); in.debug_en = 1 << k | 1; tick(); for (int i = 0; i < 8; i++) if ((1 << k | 1) >> i & 1) r.m.dbg[i]++; }
#endif
    in = base(); tick(); tick();
    if (o.bvalid || o.rvalid) return mc::fail("a response stays after it was taken");
#ifdef DMA
    if (o.read_addr != r.m.rw[0] || o.write_addr != r.m.rw[1] || o.start != r.m.rw[2]) return mc::fail("register outputs %x %x %x, expected %x %x %x", (unsigned)o.read_addr, (unsigned)o.write_addr, (unsigned)o.start, r.m.rw[0], r.m.rw[1], r.m.rw[2]);
#else
    if (o.height != (r.m.hw & 0xffff) || o.width != r.m.hw >> 16 || o.allowed_cycles != r.m.ac) return mc::fail("outputs height %u width %u allowed %u, expected %u %u %u", (unsigned)o.height, (unsigned)o.width, (unsigned)o.allowed_cycles, r.m.hw & 0xffff, r.m.hw >> 16, r.m.ac);
#endif
    b.s = s; return mc::OK; }
  std::string show(const W& w) { return fmt("after %d transactions", w.r.depth); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = ADDR.size(); mc::print(o, r); }
