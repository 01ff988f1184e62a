// CoreAXILite (host library) on the core's AXI-Lite slave: the register outputs and everything the getters report, in
// every state reachable by setting height, width and allowed cycles to values of a list (and counting debug events).
#include "mc.h"
#include "sweep.h"
#include "regmap.h"
#include "host.h"
#include "core_axi_lite.h"
static dut::S* S_; static CoreAXILite* L;
static void tick(dut::I& in, dut::O& o) { dut::S n; memset((void*)&n, 0, sizeof n); dut::step(*S_, in, o, n); *S_ = n; }
static uint32_t bread(int, uint32_t off) { dut::I in; dut::O o; in.araddr = off; in.arvalid = 1; in.rready = 1; bool ok = false; uint32_t d = 0;
  for (int k = 0; k < 24 && !ok; k++) { tick(in, o); if (in.arvalid && o.arready) in.arvalid = 0; if (o.rvalid) { ok = true; d = o.rdata; if (o.rresp) host::complain("the core answers the read of 0x%x with error %d", off, (int)o.rresp); } }
  if (!ok) host::complain("the read of 0x%x is never answered", off); in = dut::I(); tick(in, o); tick(in, o); return d; }
static void bwrite(int, uint32_t off, uint32_t v) { dut::I in; dut::O o; in.awaddr = off; in.wdata = v; in.wstrb = 15; in.awvalid = in.wvalid = in.bready = 1; bool ok = false;
  for (int t = 0; t < 32 && !ok; t++) { tick(in, o); if (in.awvalid && o.awready) in.awvalid = 0; if (in.wvalid && o.wready) in.wvalid = 0; if (o.bvalid) { ok = true; if (o.bresp) host::complain("the core answers the write of 0x%x with error %d", off, (int)o.bresp); } }
  if (!ok) host::complain("the write of 0x%x is never answered", off); in = dut::I(); tick(in, o); tick(in, o); }
static uint64_t calls = 0;
static int outputs(const Regs& m) { dut::I in; dut::O o; tick(in, o); if (o.height != (m.hw & 0xffff) || o.width != m.hw >> 16 || o.allowed_cycles != m.ac) return mc::fail("the core has height %u width %u allowed cycles %u, set were %u %u %u", (unsigned)o.height, (unsigned)o.width, (unsigned)o.allowed_cycles, m.hw & 0xffff, m.hw >> 16, m.ac); return 0; }
static int getters(const Regs& m, bool lists) {
  uint32_t h = 0, w = 0, a = 0; std::vector<std::string> s, d; int why = host_run([&] { h = L->get_height(); w = L->get_width(); a = L->get_allowed_cycles(); if (lists) { s = L->get_ssss(); if (DEBUG) d = L->get_debug(); } }); calls += 5;
  if (why) return mc::fail("a getter does not return"); if (!host::problem.empty()) return mc::fail("%s", host::problem.c_str());
  if (h != (m.hw & 0xffff) || w != m.hw >> 16 || a != m.ac) return mc::fail("the getters report height %u width %u allowed cycles %u, set were %u %u %u", h, w, a, m.hw & 0xffff, m.hw >> 16, m.ac);
  if (lists) {
    if (s.size() != BD + 1) return mc::fail("get_ssss reports %zu classes of %d", s.size(), BD + 1);
    for (int k = 0; k <= BD; k++) { std::string e = fmt("%d - SSSS_CODE: %u - LENGTH: %d", k, (unsigned)ref::HUFF[k].bits, ref::HUFF[k].len); if (s[k] != e) return mc::fail("get_ssss reports '%s' instead of '%s'", s[k].c_str(), e.c_str()); }
    if (DEBUG) { static const char* N[8] = {"valid_in=0", "valid_in=1", "valid_out=0", "valid_out=1", "nready=1", "nready=0", "busy_in=1", "busy_in=0"};
      for (int i = 0; i < 8; i++) { std::string e = fmt("%s : %u", N[i], m.dbg[i]); int n = 0; for (auto& x : d) n += x == e; if (n != 1) return mc::fail("get_debug does not report '%s' once", e.c_str()); } } }
  return outputs(m); }
static std::vector<uint32_t> HV{0, 1, 0x00ff, 0xff00, 0xffff}, AV{0, 1, 0xffffff, 0xabcdef, 0xff000000, 0xffffffff};
static int apply(int c, Regs& m) {
  int nh = HV.size(), na = AV.size(); int why = 0;
  if (c < nh) { why = host_run([&] { L->set_height(HV[c]); }); m.hw = (m.hw & 0xffff0000) | HV[c]; }
  else if (c < 2 * nh) { why = host_run([&] { L->set_width(HV[c - nh]); }); m.hw = (m.hw & 0xffff) | HV[c - nh] << 16; }
  else if (c < 2 * nh + na) { why = host_run([&] { L->set_allowed_cycles(AV[c - 2 * nh]); }); m.ac = AV[c - 2 * nh] & 0xffffff; }
#if DEBUG
  else { int k = c - 2 * nh - na; dut::I in; dut::O o; in.debug_en = 1 << k; tick(in, o); m.dbg[k]++; }
#endif
  calls++; if (why) return mc::fail("a setter does not return"); if (!host::problem.empty()) return mc::fail("%s", host::problem.c_str()); return 0; }
struct Harness : mc::Base<dut::Tag> {
  struct R { Regs m; uint8_t ev; }; struct W { dut::S s; R r; };
  void init(W& w, int) { dut::reset(w.s); w.r.m.reset(); w.r.ev = 0; }
  int nchoices(const W& w) { return 2 * HV.size() + AV.size() + (DEBUG && w.r.ev < DEPTH ? 8 : 0); }
  bool check_liveness() { return false; }
  int step(const W& a, int c, W& b) { b = a; S_ = &b.s; if (c >= (int)(2 * HV.size() + AV.size())) b.r.ev++; if (int e = apply(c, b.r.m)) return mc::FAIL; if (getters(b.r.m, true)) return mc::FAIL; return mc::OK; }
  std::string show(const W& w) { return fmt("height and width 0x%08x allowed cycles 0x%06x", w.r.m.hw, w.r.m.ac); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); o.threads = 1; host_guard(o); const uint32_t BASE = 0x83C00000; host::setup({{BASE, 65536, nullptr, true, 0}}); host::bus_read = bread; host::bus_write = bwrite; mc::Result r;
  dut::S s; dut::reset(s); S_ = &s; L = new CoreAXILite(BASE, BD); std::string bad;
  if (!host::problem.empty()) bad = host::problem;
  for (int k : {0, 1, 17, 255}) if (bad.empty() && !host_dies([&] { CoreAXILite x(BASE, k); })) bad = fmt("a bit depth of %d is accepted", k);
  // every height and width, with the other one all ones, all zeros or mixed
  Regs m; m.reset(); int e = 0;
  for (unsigned k = 0; k < 65536 && bad.empty() && !e; k += SWEEP) { uint16_t oth = k * 0x9e37 >> 3; host_run([&] { L->set_height(k); }); m.hw = (m.hw & 0xffff0000) | k; e = getters(m, false); if (e) break; host_run([&] { L->set_width(oth ^ k); }); m.hw = (m.hw & 0xffff) | (uint32_t)(uint16_t)(oth ^ k) << 16; e = getters(m, false); if (e) break; host_run([&] { L->set_width(k); L->set_allowed_cycles(k * 257 ^ k << 8); }); m.hw = (m.hw & 0xffff) | k << 16; m.ac = (k * 257 ^ k << 8) & 0xffffff; e = getters(m, false); }
  uint64_t n0 = calls;
  if (e) bad = mc::msg;
  if (!bad.empty()) { r.violation = true; r.message = bad; guard_done = true; mc::print(o, r); return 0; }
  Harness h; mc::Explorer<Harness> ex(h, o); r = ex.run(); r.executions += n0; r.outcomes = calls; guard_done = true; mc::print(o, r); }
