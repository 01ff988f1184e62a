// Decoder: every conforming stream of a bounded family is encoded by the reference codec, decoded through the API and compared.
#include "lj_api.h"
static const std::vector<lj::Table> TB = lj::tables();
struct Ctx { Sweep& S; std::atomic<uint64_t> ex{0}, nocode{0}, px{0}; };
static bool one(Ctx& c, const lj::Img& im, int pred, const lj::Table& t, const lj::Layout& L = {}, int wl = -1, int skip = 0, const std::vector<uint16_t>* lin = nullptr) {
  lj::Bytes b; if (!lj::encode(im, pred, t, L, b)) { c.nocode++; return true; }
  auto what = [&] { return fmt("predictor %d, table %s, segments %s, writeLength %d skipLength %d%s: ", pred, t.name.c_str(), L.order.c_str(), wl, skip, lin ? ", linearization" : "") + lj::show(im) + " stream " + lj::hex(b.data(), b.size()); };
  size_t n = im.s.size(); if (wl < 0) wl = n; size_t tot = n + (n - 1) / wl * (size_t)skip;
  Case now([&] { return what(); }); Buf<uint8_t> d(b); lj92 h = nullptr; int X = 0, Y = 0, P = 0, N = 0;
  int r = lj92_open(&h, d.p, d.n, &X, &Y, &P, &N); c.ex++;
  if (r) { c.S.fail("open reports " + std::to_string(r) + " for a conforming stream: " + what()); return false; }
  bool ok = true; if (X != im.X || Y != im.Y || P != im.P || N != im.N) { c.S.fail(fmt("open reports %dx%d, %d bits, %d components: ", X, Y, P, N) + what()); ok = false; }
  for (int rep = 0; rep < 2 && ok; rep++) {  // a handle decodes again and again
    Buf<uint16_t> o(tot), l(lin ? *lin : std::vector<uint16_t>{}); std::fill(o.p, o.p + tot, 0xa5a5);
    r = lj92_decode(h, o.p, wl, skip, lin ? l.p : nullptr, lin ? (int)lin->size() : 0);
    if (r) { c.S.fail("decode reports " + std::to_string(r) + " for a conforming stream: " + what()); ok = false; break; }
    size_t k = 0; for (size_t i = 0; i < tot && ok; i++) { bool in = i % (wl + skip) < (size_t)wl; int e = in ? (lin ? (*lin)[im.s[k]] : im.s[k]) : 0xa5a5; k += in; if (o.p[i] != e) { c.S.fail(fmt("target[%zu] is %d, not %d: ", i, o.p[i], e) + what()); ok = false; } }
    c.px += n; }
  if (memcmp(d.p, b.data(), b.size())) { c.S.fail("the caller's data was changed: " + what()); ok = false; }
  lj92_close(h); if (ok && lj_live) { c.S.fail(fmt("%ld allocations are not freed: ", lj_live) + what()); ok = false; } return ok; }
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int ac, char** av) {
  Sweep S(ac, av); lj_begin(S); Ctx c{S}; const bool deep = DEEP; uint64_t images = 0;
  if (MODE == 1) {  // all images over all values of 2 or 3 bits, and over two or three corner values for more samples
    struct Sz { int P, X, Y, N; std::vector<uint16_t> vals; }; std::vector<Sz> z; auto full = [](int P) { std::vector<uint16_t> v; for (int i = 0; i < 1 << P; i++) v.push_back(i); return v; };
    for (int P : {2, 3}) for (int X = 1; X <= 4; X++) for (int Y = 1; Y <= 4; Y++) for (int N = 1; N <= 4; N++) { int n = X * Y * N; if (ipow(1 << P, n) <= (deep ? 300000 : 5000)) z.push_back({P, X, Y, N, full(P)}); }
    for (int P : {2, 8, 12, 16}) for (int X = 1; X <= 5; X++) for (int Y = 1; Y <= 5; Y++) for (int N = 1; N <= 4; N++) { int n = X * Y * N; uint16_t M = (1 << P) - 1; if (ipow(2, n) <= (deep ? 70000u : 4096u)) z.push_back({P, X, Y, N, {0, M}}); if (ipow(3, n) <= (deep ? 60000u : 2200u)) z.push_back({P, X, Y, N, {1, (uint16_t)(M / 2), (uint16_t)(M - 1)}}); }
    for (auto& q : z) { int n = q.X * q.Y * q.N; uint64_t cnt = ipow(q.vals.size(), n); images += cnt; const uint64_t G = 64;
      S.parallel((cnt + G - 1) / G, [&](uint64_t g) { for (uint64_t k = g * G; k < std::min(cnt, (g + 1) * G); k++) { lj::Img im{q.P, q.X, q.Y, q.N, std::vector<uint16_t>(n)}; uint64_t v = k; for (int i = 0; i < n; i++) { im.s[i] = q.vals[v % q.vals.size()]; v /= q.vals.size(); }
        for (int pred = 1; pred <= 7; pred++) for (size_t t : {(size_t)0, k % 2 ? (size_t)1 : (size_t)4}) if (!one(c, im, pred, TB[t])) return; } }); } }
  if (MODE == 2) {  // every precision, corner values, every table
    S.parallel(15 * 36, [&](uint64_t j) { int P = 2 + j / 36; uint16_t M = (1 << P) - 1; uint16_t H = 1 << (P - 1); std::vector<uint16_t> v{0, 1, (uint16_t)(H - 1), H, (uint16_t)(M - 1), M};
      for (uint64_t k = j % 36; k < 1296; k += 36) { lj::Img im{P, 2, 2, 1, {v[k % 6], v[k / 6 % 6], v[k / 36 % 6], v[k / 216]}}; for (int pred = 1; pred <= 7; pred++) for (auto& t : TB) if (!one(c, im, pred, t)) return;
        lj::Img i2{P, 1, 2, 2, im.s}; for (int pred = 1; pred <= 7; pred++) if (!one(c, i2, pred, TB[0])) return; } }); images = 15 * 1296 * 2; }
  if (MODE == 3) {  // every difference at every position within a byte, with every table: prefix samples move the bit position
    images = 65536ull * 8 * TB.size();
    S.parallel(4096, [&](uint64_t g) { for (int k = 0; k < 16; k++) { int diff = g * 16 + k; for (size_t t = 0; t < TB.size(); t++) for (int ph = 0; ph < 8; ph++) { if (!deep && ph != (int)((diff + t) % 8) && ph != (int)((diff / 7 + t + 3) % 8)) continue;
      // ph prefix differences whose codes together take ph bits modulo 8, found by search over the classes
      std::vector<int> pre; int want = ph; lj::Img im{16, 0, 1, 1, {}}; uint16_t p = 32768; static thread_local std::vector<std::vector<int>> memo[16]; auto& mm = memo[t]; if (mm.empty()) { mm.resize(8); std::vector<bool> have(8); have[0] = true; bool more = true; while (more) { more = false; for (int s = 0; s < 8; s++) if (have[s]) for (int q = 0; q < 16; q++) { auto cd = TB[t].code(q); if (!cd.second) continue; int nx = (s + cd.second + q) % 8; if (!have[nx]) { have[nx] = true; mm[nx] = mm[s]; mm[nx].push_back(q ? 1 << (q - 1) : 0); more = true; } } } }
      pre = mm[want]; pre.push_back(diff); pre.push_back(1); pre.push_back(0); for (int d : pre) { p += d; im.s.push_back(p); } im.X = im.s.size(); if (!one(c, im, 1 + (diff + ph) % 7, TB[t])) return; } } }); }
  if (MODE == 4) {  // layouts of the stream and of the target, linearization, large dimensions
    std::vector<std::string> orders{"HS", "SH", "CHS", "HCS", "HSC", "cHcSc", "AHS", "HAS", "HSA", "XHS", "XSH", "SXH", "HSH", "ACXAHCSA", "SCH"}; uint32_t s = 7;
    std::vector<lj::Img> ims; for (int N = 1; N <= 4; N++) for (int X = 1; X <= 4; X++) for (int Y = 1; Y <= 3; Y++) for (int P : {3, 12, 16}) { lj::Img im{P, X, Y, N, std::vector<uint16_t>(X * Y * N)}; for (auto& v : im.s) { s = s * 1664525 + 1013904223; v = (s >> 9) & ((1 << P) - 1); if ((s >> 29) == 1) v = (1 << P) - 1; } ims.push_back(im); } images = ims.size();
    S.parallel(ims.size(), [&](uint64_t k) { auto& im = ims[k]; int n = im.s.size();
      for (int pred = 1; pred <= 7; pred++) { for (auto& o : orders) for (int pad : {0, 1}) for (int tail : {0, 3}) for (int id : {0, 2}) for (int eoi : {1, 0}) { if (!eoi && tail) continue; lj::Layout L; L.order = o; L.pad = pad; L.tail = tail; L.id = id; L.eoi = eoi; L.other_ids = id; if (!one(c, im, pred, TB[0], L)) return; }
        for (int wl = 1; wl <= n + 1; wl++) for (int skip = 0; skip <= 3; skip++) if (!one(c, im, pred, TB[0], {}, wl, skip)) return;
        std::vector<uint16_t> lin(1 << im.P); for (size_t i = 0; i < lin.size(); i++) lin[i] = i * 40503 + 17; for (int wl : {n, im.X, 1}) if (!one(c, im, pred, TB[0], {}, wl, wl == n ? 0 : 2, &lin)) return; } });
    std::vector<lj::Img> big; for (auto [X, Y, N] : {std::tuple{65535, 1, 1}, {1, 65535, 1}, {65535, 2, 1}, {65535, 1, 3}, {2, 65535, 2}, {301, 203, 4}}) { lj::Img im{12, X, Y, N, std::vector<uint16_t>((size_t)X * Y * N)}; for (auto& v : im.s) { s = s * 1664525 + 1013904223; v = s >> 20; } big.push_back(im); } images += big.size();
    S.parallel(big.size() * 7, [&](uint64_t k) { one(c, big[k / 7], 1 + k % 7, TB[0]); }); }
  S.r.states = images; S.r.executions = c.ex; S.r.transitions = c.px; S.r.terminals = c.ex; S.r.samples.push_back(fmt("%llu streams decoded twice, %llu samples compared, %llu combinations without a code for a class", (unsigned long long)c.ex, (unsigned long long)c.px, (unsigned long long)c.nocode)); S.done(); return 0; }
