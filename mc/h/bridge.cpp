// AXI3-to-AXI-Lite bridge between a master with single-beat reads and writes of several ids and a slave that works on
// one read and one write at a time: every handshake timing, both directions at once. Every response must carry the id of
// the address it answers; everything else passes through unchanged in the same cycle.
#include "mc.h"
#include "sweep.h"
static const uint32_t ID[3] = {0xabc, 0x543, 0x800};
static uint32_t pat(int id, int field) { uint32_t x = (0x9e3779b9u * (field + 1)) ^ (field << 3); x ^= x >> 15; x *= 0x2c1b3c6du; x ^= x >> 13; return id == 1 ? ~x : id == 2 ? x ^ 0x0f0f3355u : x; }
static void payload(dut::I& in, int ar, int aw, int w, int r, int b) {
  in.s_arid = ID[ar]; in.s_araddr = pat(ar, 0); in.s_arprot = pat(ar, 1) & 7; in.s_arsize = 2; in.s_arburst = 1; in.s_awid = ID[aw]; in.s_awaddr = pat(aw, 2); in.s_awprot = pat(aw, 3) & 7; in.s_awsize = 2; in.s_awburst = 1;
  in.s_wid = ID[w]; in.s_wdata = pat(w, 4); in.s_wstrb = pat(w, 5) & 15; in.s_wlast = 1; in.m_rdata = pat(r, 6); in.m_rresp = pat(r, 7) & 3; in.m_bresp = pat(b, 8) & 3; }
static const char* through(const dut::I& in, const dut::O& o) {
#define SAME(x, y) if (o.x != in.y) return #x " differs from " #y;
  SAME(s_arready, m_arready) SAME(s_rdata, m_rdata) SAME(s_rresp, m_rresp) SAME(s_rvalid, m_rvalid) SAME(s_awready, m_awready) SAME(s_wready, m_wready) SAME(s_bresp, m_bresp) SAME(s_bvalid, m_bvalid)
  SAME(m_araddr, s_araddr) SAME(m_arprot, s_arprot) SAME(m_arvalid, s_arvalid) SAME(m_rready, s_rready) SAME(m_awaddr, s_awaddr) SAME(m_awprot, s_awprot) SAME(m_awvalid, s_awvalid) SAME(m_wdata, s_wdata) SAME(m_wstrb, s_wstrb) SAME(m_wvalid, s_wvalid) SAME(m_bready, s_bready) SAME(aclk_out, aclk_in) SAME(aresetn_out, aresetn_in)
  if (o.s_rvalid && !o.s_rlast) return "a single-beat response is not marked last"; return nullptr; }
struct Harness : mc::Base<dut::Tag> {
  // 0 idle, otherwise 1 + the id: address offered, address accepted; rv, bv: the response is offered
  struct R { uint8_t aro, arp, rv, awo, awp, wo, wd, bv, nid_r, nid_w; }; struct W { dut::S s; R r; };
  void init(W& w, int) { dut::reset(w.s); memset(&w.r, 0, sizeof w.r); }
  bool check_liveness() { return false; }
  int nchoices(const W&) { return 1 << 10; }
  int step(const W& a, int c, W& b) { R& r = b.r; r = a.r; auto bit = [&](int k) { return c >> k & 1; }; dut::I in; dut::O o;
    // canonical choices: a bit that has no effect in this state must be zero
    if (r.aro && bit(0)) return mc::PRUNE; if (r.awo && bit(1)) return mc::PRUNE; if ((r.wo || (!r.awo && !r.awp && !bit(1)) || r.wd) && bit(2)) return mc::PRUNE; if ((!r.arp || r.rv) && bit(3)) return mc::PRUNE; if ((!r.awp || !r.wd || r.bv) && bit(4)) return mc::PRUNE;
    if (bit(0)) { r.aro = 1 + r.nid_r; r.nid_r = (r.nid_r + 1) % 3; } if (bit(1)) { r.awo = 1 + r.nid_w; r.nid_w = (r.nid_w + 2) % 3; } if (bit(2)) r.wo = r.awp && !r.wd ? r.awp : r.awo; if (bit(3)) r.rv = 1; if (bit(4)) r.bv = 1;
    payload(in, r.aro ? r.aro - 1 : 2, r.awo ? r.awo - 1 : 1, r.wo ? r.wo - 1 : 0, r.arp ? r.arp - 1 : 1, r.awp ? r.awp - 1 : 2);
    if (!r.aro) in.s_arid = 0x777; if (!r.awo) in.s_awid = 0x888;
    in.s_arvalid = r.aro != 0; in.s_awvalid = r.awo != 0; in.s_wvalid = r.wo != 0; in.m_rvalid = r.rv; in.m_bvalid = r.bv; in.s_rready = bit(5); in.s_bready = bit(6);
    bool rd = r.rv && bit(5), bd = r.bv && bit(6);
    in.m_arready = bit(7) && (!r.arp || rd); in.m_awready = bit(8) && (!r.awp || bd); in.m_wready = bit(9) && (!r.wd || bd);
    if (bit(7) && !in.m_arready || bit(8) && !in.m_awready || bit(9) && !in.m_wready) return mc::PRUNE;
    in.aclk_in = c & 1; in.aresetn_in = c >> 1 & 1;
    dut::step(a.s, in, o, b.s); if (auto m = through(in, o)) return mc::fail("%s", m);
    if (r.rv && o.s_rid != ID[r.arp - 1]) return mc::fail("the read of id 0x%x is answered with id 0x%x", ID[r.arp - 1], (unsigned)o.s_rid);
    if (r.bv && o.s_bid != ID[r.awp - 1]) return mc::fail("the write of id 0x%x is answered with id 0x%x", ID[r.awp - 1], (unsigned)o.s_bid);
    if (rd) { r.rv = 0; r.arp = 0; } if (bd) { r.bv = 0; r.awp = 0; r.wd = 0; }
    if (in.s_arvalid && in.m_arready) { r.arp = r.aro; r.aro = 0; } if (in.s_awvalid && in.m_awready) { r.awp = r.awo; r.awo = 0; } if (in.s_wvalid && in.m_wready) { r.wd = 1; r.wo = 0; }
    return mc::OK; }
  std::string show(const W& w) { return fmt("read %d/%d/%d write %d/%d/%d/%d", w.r.aro, w.r.arp, w.r.rv, w.r.awo, w.r.awp, w.r.wd, w.r.bv); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); mc::Result r0; dut::S s; dut::reset(s); uint64_t n = 0;
  // every payload bit alone, over zeros and over ones
  for (int inv = 0; inv < 2; inv++) for (int k = 0; k < 32 * 9; k++) { dut::I in; dut::O q; dut::S t = s; uint32_t z = inv ? ~0u : 0, x[9]; for (int i = 0; i < 9; i++) x[i] = z ^ (k / 32 == i ? 1u << k % 32 : 0);
    in.s_araddr = x[0]; in.s_arprot = x[1] & 7; in.s_awaddr = x[2]; in.s_awprot = x[3] & 7; in.s_wdata = x[4]; in.s_wstrb = x[5] & 15; in.m_rdata = x[6]; in.m_rresp = x[7] & 3; in.m_bresp = x[8] & 3; dut::step(s, in, q, t); n++; if (auto m = through(in, q)) { r0.violation = true; r0.message = m; mc::print(o, r0); return 0; } }
  // every id: address, then response
  for (unsigned id = 0; id < 4096; id++) { dut::S t = s, u; memset((void*)&u, 0, sizeof u); dut::I in; dut::O q; auto go = [&] { dut::step(t, in, q, u); t = u; n++; }; in.s_arid = id; in.s_awid = id ^ 0x5a5; in.s_arvalid = in.s_awvalid = in.m_arready = in.m_awready = in.s_wvalid = in.m_wready = 1; go(); in = dut::I(); in.m_rvalid = in.m_bvalid = in.s_rready = in.s_bready = 1; go(); if (q.s_rid != id || q.s_bid != (id ^ 0x5a5)) { r0.violation = true; r0.message = fmt("ids 0x%x and 0x%x are answered with 0x%x and 0x%x", id, id ^ 0x5a5, (unsigned)q.s_rid, (unsigned)q.s_bid); mc::print(o, r0); return 0; } }
  Harness h; mc::Explorer<Harness> ex(h, o); auto r = ex.run(); r.executions += n; mc::print(o, r); }
