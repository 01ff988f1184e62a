// AXI-HP reader in closed loop with a FIFO, an address source and any AXI slave (every ready/valid timing; rlast and
// rdata are arbitrary while rvalid is low).   NB, DC as in axihpw.cpp
#include "mc.h"
#include "sweep.h"
#ifndef NB
#define NB 0
#endif
#ifndef UMAX
#define UMAX 15
#endif
struct Harness : mc::Base<dut::Tag> {
  struct R { uint8_t act, beat, space, dtag, atag, left, rv, rr, aoff, arheld, fin, en, aempty, ek; };
  struct W { dut::S s; R r; };
  int ninit() { return 2; } std::string init_name(int k) { return k ? "decode errors" : "slave errors"; }
  void init(W& w, int k) { dut::reset(w.s); w.r.ek = 2 + k; w.r.left = NB; w.r.aempty = 1; }
  // bits: 0 arready low, 1 no address, 2 no room made; R: 0 nothing, 1 nothing with rlast high, 2 ok, 3 error; enable low; stop
  int nchoices(const W& w) { return 128; }
  int dflt(const W& w) { int rr = w.r.rv ? w.r.rr : w.r.act ? 2 : 0; int d = rr << 3; if (NB == 0) d |= 64; if (!w.r.aoff && (NB == 0 || !w.r.left)) d |= 2; return d; }
  int step(const W& a, int c, W& b) {
    R& r = b.r; r = a.r; dut::I in; dut::O o;
    bool arr = !(c & 1), addr = !(c & 2), room = !(c & 4); int rr = c >> 3 & 3; bool en = !(c >> 5 & 1), stop = c >> 6;
    if ((r.fin && !stop) || (stop && (NB || !en))) return mc::PRUNE;
    if (stop) { r.fin = 1; en = false; }
    if (r.aoff && !addr) return mc::PRUNE;
    if (!r.aoff && addr && NB && !r.left) return mc::PRUNE;
    if (arr && r.act >= UMAX) arr = false;
    if (r.rv ? rr != r.rr : (rr >= 2 && !r.act)) return mc::PRUNE;
    if (room && r.space <= 1) r.space += DC; else if (!room && r.space > 1) return mc::PRUNE;
    if (addr && !r.aoff) { r.aoff = 1; if (NB) r.left--; }
    bool rv = rr >= 2, rlast = rv ? r.beat == DC - 1 : rr == 1; uint64_t data = 0x0123456789abcdefull * (r.dtag * 2 + 1);
    in.enable = en; in.addr_empty = !r.aoff; in.addr_in = r.aoff ? 0xa0000000u + 0x80u * r.atag : 0xdeadbeef; in.data_full = r.space < DC;
    in.arready = arr; in.rvalid = rv; in.rlast = rlast; in.rresp = rr == 3 ? r.ek : rr == 1 ? 3 : 0; in.rdata = rv ? data : 0xdeaddeaddeadull; in.rid = 0; in.racount = 0; in.rcount = 0;
    dut::step(a.s, in, o, b.s);
    if (o.reader_active != r.act || (bool)o.inactive != !r.act) return mc::fail("active=%d inactive=%d, really %d bursts in flight", (int)o.reader_active, (int)o.inactive, (int)r.act);
    if (r.arheld && !o.arvalid) return mc::fail("arvalid dropped before arready");
    if (o.arvalid && !r.arheld) { if (!r.en) return mc::fail("a burst is started while disabled"); if (r.aempty) return mc::fail("a burst is started without an address"); }
    if (o.arvalid && (o.araddr != in.addr_in || o.arlen != DC - 1 || o.arsize != 3 || o.arburst != 1)) return mc::fail("address 0x%x len %d size %d burst %d offered, expected 0x%x", (unsigned)o.araddr, (int)o.arlen, (int)o.arsize, (int)o.arburst, (unsigned)in.addr_in);
    bool ah = o.arvalid && arr; if ((bool)o.addr_enable != ah) return mc::fail("address taken=%d, handshake=%d", (int)o.addr_enable, (int)ah);
    r.arheld = o.arvalid && !arr;
    bool rh = o.rready && rv; if ((bool)o.data_enable != rh) return mc::fail("data written=%d, handshake=%d", (int)o.data_enable, (int)rh);
    if ((bool)o.reader_error != (rh && rr == 3)) return mc::fail("error=%d on beat with response %d taken=%d", (int)o.reader_error, rr, (int)rh);
    if (rh) { if (o.data_out != data) return mc::fail("0x%llx written to the FIFO, read 0x%llx", (unsigned long long)o.data_out, (unsigned long long)data); if (!r.space) return mc::fail("a beat is taken that the FIFO has no room for"); r.space--; r.dtag = (r.dtag + 1) % (2 * DC + 1); }
    if (rv && !rh) { r.rv = 1; r.rr = rr; } else r.rv = r.rr = 0;
    if (rh) { if (r.beat == DC - 1) r.act--; r.beat = (r.beat + 1) % DC; } r.act += ah;
    if (ah) { r.atag = (r.atag + 1) & 3; r.aoff = 0; }
    if (r.act > 15) return mc::fail("more bursts in flight than the counter holds");
    r.en = en; r.aempty = in.addr_empty;
    if (NB ? (!r.left && !r.aoff && !r.act && r.fin < 2) : (r.fin == 1 && a.r.fin && o.inactive && !o.arvalid)) { r.fin = 2; return mc::DONE; }
    return mc::OK; }
  std::string show(const W& w) { return fmt("%d bursts in flight (beat %d)", (int)w.r.act, (int)w.r.beat); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = r.terminals; mc::print(o, r); }
