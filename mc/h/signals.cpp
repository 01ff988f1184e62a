// Frame geometry: all stall schedules over frames of every listed size; new_row must be up exactly while
// the next group starts a row, end_of_frame exactly once only the last group is missing.
#include "mc.h"
#include "sweep.h"
struct Harness : mc::Base<dut::Tag> {
  struct R { uint32_t fed, w, h, idle; };
  struct W { dut::S s; R r; };
  std::vector<std::pair<int, int>> sizes;
  Harness() { for (int h = 1; h <= MAXH; h++) for (int g = 1; g <= MAXG; g++) if (g * h >= 2) sizes.push_back({g * PS, h});
    for (auto e : std::vector<std::pair<int, int>>{BIGS}) sizes.push_back({e.first - e.first % PS, e.second}); }
  int ninit() { return (int)sizes.size(); }
  std::string init_name(int k) { return std::to_string(sizes[k].first) + "x" + std::to_string(sizes[k].second); }
  void init(W& w, int k) { dut::reset(w.s); w.r.w = sizes[k].first; w.r.h = sizes[k].second; }
  int nchoices(const W& w) { return 2; }
  int dflt(const W&) { return 1; }
  int step(const W& a, int c, W& b) {
    b.r = a.r; dut::I in; dut::O o; uint32_t gw = a.r.w / PS, tot = gw * a.r.h; in.height = a.r.h; in.width = a.r.w; in.new_input = c;
    dut::step(a.s, in, o, b.s);
    bool row = a.r.fed % gw == 0, last = a.r.fed >= tot - 1;
    if (a.r.fed < tot && (bool)o.new_row != row) return mc::fail("frame %ux%u, before group %u: new_row=%d", a.r.w, a.r.h, a.r.fed, (int)o.new_row);
    if ((bool)o.end_of_frame != last) return mc::fail("frame %ux%u, before group %u of %u: end_of_frame=%d", a.r.w, a.r.h, a.r.fed, tot, (int)o.end_of_frame);
    if (a.r.fed == tot) { return ++b.r.idle == 3 ? mc::DONE : mc::OK; }
    b.r.fed += c; return mc::OK; }
  std::string show(const W& w) { return fmt("frame %ux%u, %u groups in", w.r.w, w.r.h, w.r.fed); }
};
int main(int c, char** v) { auto o = mc::parse(c, v); Harness h; mc::Explorer<Harness> e(h, o); mc::print(o, e.run()); }
