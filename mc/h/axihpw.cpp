// AXI-HP writer in closed loop with a FIFO, an address source and any AXI slave (every ready/valid timing).
//   NB: number of addresses the source has (0: unlimited)   DC: beats per burst   UMAX: bursts the slave takes without answering
#include "mc.h"
#include "sweep.h"
#ifndef NB
#define NB 0
#endif
#ifndef UMAX
#define UMAX 15
#endif
struct Harness : mc::Base<dut::Tag> {
  // act: bursts addressed, data not finished; unc: addressed, not answered; comp: data finished, not answered
  struct R { uint8_t act, unc, comp, beat, avail, dtag, atag, left, bv, br, aoff, awheld, wheld, wonce, fin, en, aempty, ek; };
  struct W { dut::S s; R r; };
  // the error a slave answers is a slave error or a decode error
  int ninit() { return 2; } std::string init_name(int k) { return k ? "decode errors" : "slave errors"; }
  void init(W& w, int k) { dut::reset(w.s); w.r.ek = 2 + k; w.r.left = NB; w.r.aempty = 1; }
  // bits: 0 awready low, 1 wready low, 2 no address, 3 no refill, 4-5: B nothing / ok / error, 6 enable low; 128: stop for good
  int nchoices(const W& w) { return 192; }
  int dflt(const W& w) { int b = w.r.bv ? w.r.br : w.r.comp ? 1 : 0; int d = b << 4; if (NB == 0) d |= 128; else if (!w.r.left && !w.r.aoff) d |= 4; if (NB == 0 && !w.r.aoff) d |= 4; return pack(d); }
  static int pack(int d) { int b = d >> 4 & 3; return (d & 15) + 16 * b + 48 * (d >> 6 & 1) + 96 * (d >> 7 & 1); }
  int step(const W& a, int c, W& b) {
    R& r = b.r; r = a.r; dut::I in; dut::O o;
    bool awr = !(c & 1), wr = !(c & 2), addr = !(c & 4), refill = !(c & 8); int bb = c / 16 % 3; bool en = !(c / 48 % 2), stop = c / 96;
    if ((r.fin && !stop) || (stop && NB)) return mc::PRUNE; if (stop && !en) return mc::PRUNE;
    if (stop) { r.fin = 1; en = false; }
    if (r.aoff && !addr) return mc::PRUNE;                 // an address offered stays
    if (!r.aoff && addr && NB && !r.left) return mc::PRUNE;
    if (awr && r.unc >= UMAX) awr = false;                    // the slave's acceptance limit
    if (r.bv ? bb != r.br : (bb && !r.comp)) return mc::PRUNE; // a response is only given to a finished burst and is held
    if (refill && r.avail <= 1) r.avail += DC; else if (!refill && r.avail > 1) return mc::PRUNE;
    if (addr && !r.aoff) { r.aoff = 1; if (NB) r.left--; }
    in.enable = en; in.addr_empty = !r.aoff; in.addr_in = r.aoff ? 0xa0000000u + 0x80u * r.atag : 0xdeadbeef; in.data_empty = r.avail < DC; uint64_t data = 0x0123456789abcdefull * (r.dtag * 2 + 1);
    in.data_in = r.avail ? data : 0xdeaddeaddeadull; uint8_t strb = r.avail ? 0xff ^ r.dtag * 0x25 : 0; in.write_strobe = strb; in.awready = awr; in.wready = wr; in.bvalid = bb != 0; in.bresp = bb == 2 ? r.ek : 0; in.bid = 0; in.wacount = 0; in.wcount = 0;
    dut::step(a.s, in, o, b.s);
    // registered in-flight counts
    if (o.writer_active != r.act || o.writer_unconf != r.unc) return mc::fail("active=%d unconf=%d, really %d bursts await data and %d an answer", (int)o.writer_active, (int)o.writer_unconf, (int)r.act, (int)r.unc);
    if ((bool)o.inactive != (r.act == 0 && r.unc == 0)) return mc::fail("inactive=%d with %d/%d in flight", (int)o.inactive, (int)r.act, (int)r.unc);
    // address channel
    if (r.awheld && !o.awvalid) return mc::fail("awvalid dropped before awready");
    if (o.awvalid && !r.awheld) { if (!r.en) return mc::fail("a burst is started while disabled"); if (r.aempty) return mc::fail("a burst is started without an address"); }
    if (o.awvalid && (o.awaddr != in.addr_in || o.awlen != DC - 1 || o.awsize != 3 || o.awburst != 1)) return mc::fail("address 0x%x len %d size %d burst %d offered, expected 0x%x", (unsigned)o.awaddr, (int)o.awlen, (int)o.awsize, (int)o.awburst, (unsigned)in.addr_in);
    bool ah = o.awvalid && awr; if ((bool)o.addr_enable != ah) return mc::fail("address taken=%d, handshake=%d", (int)o.addr_enable, (int)ah);
    r.awheld = o.awvalid && !awr;
    // data channel
    if (r.wheld && !o.wvalid) return mc::fail("wvalid dropped before wready");
    bool wh = o.wvalid && wr; if ((bool)o.data_enable != wh) return mc::fail("data taken=%d, handshake=%d", (int)o.data_enable, (int)wh);
    if (o.wvalid) { if (!r.avail) return mc::fail("a data beat is offered that the FIFO does not hold"); if (o.wdata != data || o.wstrb != strb) return mc::fail("beat %d: data 0x%llx, expected 0x%llx, strobes %x", (int)r.beat, (unsigned long long)o.wdata, (unsigned long long)data, (int)o.wstrb);
      if ((bool)o.wlast != (r.beat == DC - 1)) return mc::fail("beat %d of %d has wlast=%d", (int)r.beat + 1, DC, (int)o.wlast);
      if (!r.act && !ah) return mc::fail("a data beat without an address"); }
    r.wheld = o.wvalid && !wr;
    bool wl = wh && r.beat == DC - 1;
    if (wh) { r.avail--; r.dtag = (r.dtag + 1) % (2 * DC + 1); r.beat = (r.beat + 1) % DC; }
    // response channel
    bool bh = o.bready && bb; if ((bool)o.writer_error != (bh && bb == 2)) return mc::fail("error=%d on response %d taken=%d", (int)o.writer_error, bb, (int)bh);
    if (bb && !bh) { r.bv = 1; r.br = bb; } else r.bv = r.br = 0;
    r.act += ah; if (wl) { r.act--; r.comp++; } r.unc += ah; if (bh) { r.unc--; r.comp--; }
    if (ah) { r.atag = (r.atag + 1) & 3; r.aoff = 0; }
    if (r.act > 15) return mc::fail("more bursts in flight than the counter holds");
    r.en = en; r.aempty = in.addr_empty;
    if (NB ? (!r.left && !r.aoff && !r.unc && !r.act) : (r.fin && a.r.fin && o.inactive && !o.awvalid && !r.awheld && !r.unc && r.fin < 2)) { r.fin = 2; return mc::DONE; }
    return mc::OK; }
  std::string show(const W& w) { return fmt("%d await data (beat %d), %d await an answer", (int)w.r.act, (int)w.r.beat, (int)w.r.unc); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = r.terminals; mc::print(o, r); }
