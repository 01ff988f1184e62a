// Encoder: every image of a bounded family is encoded through the API; the stream is parsed and decoded by the strict reference
// parser and by the library, and its size is compared with the smallest one that a Huffman table for these classes can give.
#include "lj_api.h"
struct Ctx { Sweep& S; std::atomic<uint64_t> ex{0}, px{0}, opt{0}; };
struct Tile { int read = -1, skip = 0; const std::vector<uint16_t>* lin = nullptr; };  // lin: values in memory are indices into it
// least total length of the codes of symbols with these frequencies, lengths 1..16, one codeword (of all ones) kept free: package-merge
static uint64_t least(const std::vector<uint64_t>& f) { struct It { uint64_t w; std::vector<int> s; }; std::vector<std::pair<uint64_t, int>> sym{{0, -1}}; for (size_t i = 0; i < f.size(); i++) if (f[i]) sym.push_back({f[i], (int)i}); std::sort(sym.begin(), sym.end()); size_t n = sym.size();
  std::vector<uint64_t> cur; for (int l = 0; l < 16; l++) { std::vector<uint64_t> nx; for (auto& s : sym) nx.push_back(s.first); for (size_t i = 0; i + 1 < cur.size(); i += 2) nx.push_back(cur[i] + cur[i + 1]); std::sort(nx.begin(), nx.end()); cur = nx; }
  uint64_t t = 0; for (size_t i = 0; i < 2 * n - 2; i++) t += cur[i]; return t; }
static bool one(Ctx& c, lj::Img im, const Tile& L = {}, bool own = true) {  // im: the values to be coded
  int n = im.X * im.Y, read = L.read < 0 ? n : L.read; std::vector<uint16_t> mem; std::vector<int> inv;
  auto what = [&] { return fmt("readLength %d skipLength %d%s: ", read, L.skip, L.lin ? ", delinearization" : "") + lj::show(im); };
  Case now([&] { return "encoding, " + what(); });
  if (L.lin) { inv.assign(65536, -1); for (size_t i = 0; i < L.lin->size(); i++) inv[(*L.lin)[i]] = i; }
  for (int i = 0; i < n; i++) { mem.push_back(L.lin ? inv[im.s[i]] : im.s[i]); if ((i + 1) % read == 0 && i + 1 < n) for (int k = 0; k < L.skip; k++) mem.push_back(0xffff); }
  Buf<uint16_t> m(mem), lin(L.lin ? *L.lin : std::vector<uint16_t>{}); uint8_t* e = nullptr; int len = -1;
  int r = lj92_encode(m.p, im.X, im.Y, im.P, read, L.skip, L.lin ? lin.p : nullptr, L.lin ? (int)L.lin->size() : 0, &e, &len); c.ex++;
  if (r || !e || len < 1) { c.S.fail(fmt("encode reports %d: ", r) + what()); return false; }
  bool ok = true; auto bad = [&](const std::string& s) { c.S.fail(s + ": " + what() + " stream " + lj::hex(e, len)); ok = false; };
  if (memcmp(m.p, mem.data(), mem.size() * 2)) bad("the caller's image was changed");
  lj::Parsed p; lj::Img q;
  if (ok && !lj::parse_header(e, len, p)) bad("the header is not that of a lossless JPEG");
  if (ok && (p.im.X != im.X || p.im.Y != im.Y || p.im.N != 1 || p.im.P != im.P)) bad("the frame header has other dimensions");
  if (ok && (len < 2 || e[len - 2] != 0xff || e[len - 1] != 0xd9)) bad("the stream does not end with an end of image");
  if (ok) { q = p.im; lj::BitR at{nullptr, 0}; if (!lj::decode_scan(e + p.scan, len - 2 - p.scan, q, p.pred, p.t, &at)) bad("the scan does not hold the image");
    else { for (int i = 0; i < n && ok; i++) if (q.s[i] != im.s[i]) bad(fmt("sample %d decodes to %d, not %d", i, q.s[i], im.s[i])); if (ok && at.i != len - 2 - p.scan) bad(fmt("%zu bytes follow the scan's last code", len - 2 - p.scan - at.i)); 
      if (ok) { std::vector<uint64_t> f(17); uint64_t code = 0; for (int y = 0; y < im.Y; y++) for (int x = 0; x < im.X; x++) { int d = (int16_t)(im.at(x, y, 0) - lj::predict(im, p.pred, x, y, 0)); int k = lj::cls(d); f[k]++; code += p.t.code(k).second; }
        uint64_t l = least(f); if (code != l) bad(fmt("the Huffman table is not optimal: its codes take %llu bits, %llu would do", (unsigned long long)code, (unsigned long long)l)); else c.opt++; } } }
  if (ok && own) { Buf<uint8_t> d(std::vector<uint8_t>(e, e + len)); Buf<uint16_t> o(n); lj92 h = nullptr; int X, Y, P, N; if (lj92_open(&h, d.p, d.n, &X, &Y, &P, &N)) bad("the library cannot open its own stream"); else { if (lj92_decode(h, o.p, n, 0, nullptr, 0)) bad("the library cannot decode its own stream"); else if (memcmp(o.p, im.s.data(), n * 2)) bad("the library decodes its own stream to another image"); lj92_close(h); } }
  c.px += n; lj_free(e); if (ok && lj_live) bad(fmt("%ld allocations are not freed", lj_live)); return ok; }
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static lj::Img row(int P, const std::vector<int>& diffs) { lj::Img im{P, (int)diffs.size(), 1, 1, {}}; uint16_t v = 1 << (P - 1); for (int d : diffs) { v += d; im.s.push_back(v); } return im; }
int main(int ac, char** av) {
  Sweep S(ac, av); lj_begin(S); Ctx c{S}; const bool deep = DEEP; uint64_t images = 0;
  if (MODE == 1) {  // all small images
    struct Sz { int P, X, Y; std::vector<uint16_t> v; }; std::vector<Sz> z; auto full = [](int P) { std::vector<uint16_t> v; for (int i = 0; i < 1 << P; i++) v.push_back(i); return v; };
    for (int P = 2; P <= 4; P++) for (int X = 1; X <= 6; X++) for (int Y = 1; Y <= 6; Y++) if (ipow(1 << P, X * Y) <= (deep ? 300000 : 70000)) z.push_back({P, X, Y, full(P)});
    for (int P = 2; P <= 16; P++) { uint16_t M = (1 << P) - 1; for (int X = 1; X <= 5; X++) for (int Y = 1; Y <= 5; Y++) { if (ipow(2, X * Y) <= (deep ? 70000u : 600u)) z.push_back({P, X, Y, {0, M}}); if (ipow(6, X * Y) <= 1296) z.push_back({P, X, Y, {0, 1, (uint16_t)(M / 2), (uint16_t)(M / 2 + 1), (uint16_t)(M - 1), M}}); } }
    for (auto& q : z) { int n = q.X * q.Y; uint64_t cnt = ipow(q.v.size(), n); images += cnt; const uint64_t G = 64; S.parallel((cnt + G - 1) / G, [&](uint64_t g) { for (uint64_t k = g * G; k < std::min(cnt, (g + 1) * G); k++) { lj::Img im{q.P, q.X, q.Y, 1, std::vector<uint16_t>(n)}; uint64_t v = k; for (auto& s : im.s) { s = q.v[v % q.v.size()]; v /= q.v.size(); } if (!one(c, im)) return; } }); } }
  if (MODE == 2) {  // every difference; as the first sample, and after and before samples of other classes at every bit position
    images = 65536 * 8; S.parallel(4096, [&](uint64_t g) { for (int k = 0; k < 16; k++) for (int ph = 0; ph < 8; ph++) { int d = g * 16 + k; std::vector<int> v; for (int i = 0; i < ph; i++) v.push_back(0); v.insert(v.end(), {d, 1, 0, d, 32767, -d, 0}); if (!one(c, row(16, v))) return; } }); }
  if (MODE == 3) {  // the table: every set of classes, frequencies growing by none, some or a factor of two, in both directions
    std::vector<int> nb; for (int i = 0; i < 17; i++) nb.push_back(i); images = 131071 * 6;
    S.parallel(131071 / 64 + 1, [&](uint64_t g) { for (int k = 0; k < 64; k++) { int set = g * 64 + k; if (!set || set > 131071) continue; std::vector<int> cl; for (int i = 0; i < 17; i++) if (set >> i & 1) cl.push_back(i);
      for (int law = 0; law < 6; law++) { std::vector<int> d; double f = 1, f1 = 1; for (size_t i = 0; i < cl.size(); i++) { int s = cl[law & 1 ? cl.size() - 1 - i : i]; int times = law < 2 ? 1 + (i * 7 + set) % 3 * (law == 1) : law < 4 ? 1 + i : (int)f; if (law >= 4) { if (cl.size() <= 11) f *= 2; else { double t = f + f1; f1 = f; f = t; } } for (int q = 0; q < times; q++) d.push_back(s == 0 ? 0 : s == 16 ? 32768 : (q & 1 ? -1 : 1) * ((1 << (s - 1)) + (q * 37 % (1 << (s - 1))))); }
        if (!one(c, row(16, d))) return; } } });
    // all vectors of up to six frequencies
    S.parallel(ipow(7, 5), [&](uint64_t k) { std::vector<int> d; uint64_t v = k; static const int F[7] = {0, 1, 2, 3, 5, 8, 13}; for (int s = 1; s < 6; s++) { for (int q = 0; q < F[v % 7]; q++) d.push_back(1 << (s - 1)); v /= 7; } d.push_back(0); one(c, row(16, d)); }); images += ipow(7, 5); }
  if (MODE == 4) {  // tiles, delinearization, many stuffed bytes, large dimensions
    uint32_t s = 11; std::vector<lj::Img> ims; for (int X = 1; X <= 5; X++) for (int Y = 1; Y <= 4; Y++) for (int P = 2; P <= 16; P++) for (int rep = 0; rep < 3; rep++) { lj::Img im{P, X, Y, 1, std::vector<uint16_t>(X * Y)}; for (auto& v : im.s) { s = s * 1664525 + 1013904223; v = (s >> 9) & ((1 << P) - 1); if ((s >> 30) == rep) v = (1 << P) - 1; } ims.push_back(im); } images = ims.size();
    S.parallel(ims.size(), [&](uint64_t k) { auto& im = ims[k]; int n = im.s.size(); for (int read = 1; read <= n + 1; read++) for (int skip = 0; skip <= 3; skip++) if (!one(c, im, {read, skip})) return;
      std::vector<uint16_t> perm(1 << im.P); for (size_t i = 0; i < perm.size(); i++) perm[i] = (i * 40503 + 17) & (perm.size() - 1); for (int read : {n, im.X}) if (!one(c, im, {read, read == n ? 0 : 2, &perm})) return;
      std::vector<uint16_t> vals = im.s; std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end()); if (!one(c, im, {n, 0, &vals})) return;  // the shortest table that has all values
      if (vals.size() > 1) { std::vector<uint16_t> sh(vals.begin(), vals.end() - 1); Case now([&] { return "encoding a value beyond the delinearization table: " + lj::show(im); }); std::vector<uint16_t> ix; for (auto v : im.s) ix.push_back(std::lower_bound(vals.begin(), vals.end(), v) - vals.begin()); Buf<uint16_t> m(ix), l(sh); uint8_t* e = nullptr; int len = 0; int r = lj92_encode(m.p, im.X, im.Y, im.P, n, 0, l.p, l.n, &e, &len); c.ex++; if (r != LJ92_ERROR_TOO_WIDE) { S.fail(fmt("encode reports %d for a value beyond the delinearization table: ", r) + lj::show(im)); } } });
    for (int odd = -1; odd < 16; odd++) for (int base = 12; base < 17; base++) for (int len : {1, 50, 700, 3000}) { std::vector<int> d(len, base == 16 ? 32768 : (1 << base) - 1); if (odd >= 0) d[len / 3] = odd ? 1 << (odd - 1) : 0; one(c, row(16, d)); images++; }
    for (auto [X, Y] : {std::pair{65535, 1}, {1, 65535}, {65535, 2}, {401, 307}}) for (int P : {2, 12, 16}) { lj::Img im{P, X, Y, 1, std::vector<uint16_t>((size_t)X * Y)}; for (auto& v : im.s) { s = s * 1664525 + 1013904223; v = (s >> 8) & ((1 << P) - 1); } one(c, im); images++; } }
  S.r.states = images; S.r.executions = c.ex; S.r.transitions = c.px; S.r.terminals = c.ex; S.r.samples.push_back(fmt("%llu images encoded and decoded back, %llu tables compared with the optimum", (unsigned long long)c.ex, (unsigned long long)c.opt)); S.done(); return 0; }
