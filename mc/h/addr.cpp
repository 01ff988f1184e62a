// Address generator: the n-th address taken is the starting address plus n steps, for every schedule.  Run 0: any of seven
// starting addresses, changed before the start, 200 addresses.  Runs 1..: one starting address just below each power of two,
// six addresses (every carry of the addition).
#include "mc.h"
#include "sweep.h"
static uint32_t STARTS[7 + 64] = {0, 0x80, 0x10000000, 0x1ffff000, 0xffffff00, 0x7fffff80, 0x12345678};
struct Harness : mc::Base<dut::Tag> {
  struct R { uint8_t start, prev, used, n, up, run; };
  struct W { dut::S s; R r; };
  Harness() { for (int k = 0; k < 32; k++) { STARTS[7 + 2 * k] = (uint32_t)((2ull << k) - 2 * STEP); STARTS[8 + 2 * k] = (uint32_t)((2ull << k) - STEP) | (k > 12 ? 0x1fff - STEP : 0); } }
  int ninit() { return 65; } std::string init_name(int k) { return k ? fmt("start_%x", STARTS[6 + k]) : "any"; }
  void init(W& w, int k) { dut::reset(w.s); w.r.run = k; w.r.start = k ? 6 + k : 0; }
  int nchoices(const W& w) { return w.r.run ? 2 : 14; }
  int dflt(const W& w) { return w.r.run ? 1 : 2 * w.r.start + 1; }
  int step(const W& a, int c, W& b) {
    R& r = b.r; r = a.r; dut::I in; dut::O o; bool latch = c & 1; int st = a.r.run ? a.r.start : c >> 1; if (r.used && st != r.start) { if (r.n > 3) return mc::PRUNE; }
    r.start = st;
    in.starting_address = STARTS[st]; in.address_latch = latch && r.up;      // an address is only taken once it is valid
    dut::step(a.s, in, o, b.s);
    if (r.up && !o.address_valid) return mc::fail("no address is offered");
    // the starting address in force is the one programmed before the first address was taken
    uint32_t base = r.used ? STARTS[r.used - 1] : STARTS[a.r.start], e = base + r.n * STEP;
    if (r.up && o.address_o != e) return mc::fail("address %d is 0x%x, expected 0x%x", (int)r.n, (unsigned)o.address_o, e);
    if (in.address_latch) { if (!r.used) r.used = a.r.start + 1; r.n++; if (r.n > (r.run ? 6 : 200)) return mc::DONE; }
    if (r.up < 2) r.up++; if (r.up == 1 && !o.address_valid) {} 
    return mc::OK; }
  std::string show(const W& w) { return fmt("%d addresses taken", (int)w.r.n); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); auto r = e.run(); r.outcomes = r.terminals; mc::print(o, r); }
