// Decoder on damaged streams: whatever the bytes, a call returns, touches no memory that is not its own, frees what it allocates
// and changes nothing of the caller's; a scan that is short or holds what is no code is reported, and one that is not is decoded.
#include "lj_api.h"
static const std::vector<lj::Table> TB = lj::tables();
struct Ctx { Sweep& S; std::atomic<uint64_t> ex{0}, strict{0}, accepted{0}, refused{0}, big{0}; };
static bool one(Ctx& c, const uint8_t* b, size_t n, const char* kind, int pos, bool trunc_header = false) {
  auto what = [&] { return fmt("%s at %d: ", kind, pos) + lj::hex(b, n); }; Case now([&] { return what(); });
  Buf<uint8_t> d(n); if (n) memcpy(d.p, b, n); lj92 h = (lj92)1; int X = 0, Y = 0, P = 0, N = 0; long calls = lj_calls; lj_live = 0; c.ex++;
  int r = lj92_open(&h, d.p, n, &X, &Y, &P, &N), dr = -99; bool ok = true; auto bad = [&](const std::string& s) { if (ok) c.S.fail(s + ": " + what()); ok = false; };
  lj::Parsed p; bool strict = lj::parse_header(b, n, p); uint64_t samples = (uint64_t)X * Y * N;
  if (r) { c.refused++; if (h) bad("open reports an error and yet returns a handle"); if (trunc_header == false && strict && p.scan < n) bad(fmt("open reports %d for a header without fault", r)); }
  else { if (!h) bad("open returns no handle"); if (trunc_header) bad("open accepts a header which is not complete");
    if (X < 1 || Y < 1 || N < 1 || P < 2 || P > 16) bad(fmt("open reports a %dx%d image of %d components and %d bits", X, Y, N, P));
    if (ok && samples > (DEEP ? 300000 : 20000)) { c.big++; }
    else if (ok) { Buf<uint16_t> o(samples); memset(o.p, 0x5a, samples * 2); dr = lj92_decode(h, o.p, samples, 0, nullptr, 0); if (dr) c.refused++; else c.accepted++;
      if (strict) { c.strict++; lj::Img im = p.im; if (X != im.X || Y != im.Y || N != im.N || P != im.P) bad("open reports other dimensions than the header"); else { bool k = lj::decode_scan(b + p.scan, n - p.scan, im, p.pred, p.t); if (k && dr) bad(fmt("decode reports %d for a scan that is complete", dr)); if (!k && !dr) bad("decode takes a scan that is damaged or too short for an image"); if (k && ok && memcmp(o.p, im.s.data(), samples * 2)) bad("another image is decoded than the stream holds"); } } } }
  lj92_close(h); if (n && memcmp(d.p, b, n)) bad("the caller's data was changed"); if (lj_live) bad(fmt("%ld allocations are not freed", lj_live)); return ok; }
struct Base { lj::Bytes b; size_t scan, bits; lj::Img im; int pred; const lj::Table* t; };
int main(int ac, char** av) {
  Sweep S(ac, av); lj_begin(S); Ctx c{S}; const bool deep = DEEP; uint32_t s = 5; std::vector<Base> bs;
  auto image = [&](int P, int X, int Y, int N) { lj::Img im{P, X, Y, N, std::vector<uint16_t>(X * Y * N)}; for (auto& v : im.s) { s = s * 1664525 + 1013904223; v = (s >> 9) & ((1 << P) - 1); if ((s >> 29) == 1) v = (1 << P) - 1; } return im; };
  auto base = [&](const lj::Img& im, int pred, const lj::Table& t, const std::string& order) { Base x; lj::Layout L; L.order = order; if (lj::encode(im, pred, t, L, x.b, &x.scan, &x.bits)) { x.im = im; x.pred = pred; x.t = &t; bs.push_back(x); } };
  if (MODE == 1) {  // every truncation, and every linearization table that is too short
    for (int P : {2, 5, 12, 16}) for (int X = 1; X <= 5; X++) for (int Y = 1; Y <= 4; Y++) for (int N = 1; N <= 4; N++) for (int pred = 1; pred <= 7; pred++) for (size_t t = 0; t < TB.size(); t++) for (const char* o : {"HS", "ASCH"}) { if (!deep && (int)t != (P + X + pred) % 5) continue; base(image(P, X, Y, N), pred, TB[t], o); }
    S.parallel(bs.size(), [&](uint64_t k) { auto& x = bs[k]; for (size_t n = 0; n <= x.b.size(); n++) if (!one(c, x.b.data(), n, "truncated", n, n < x.scan)) return;
      if (x.im.P <= 5) { Buf<uint8_t> d(x.b); lj92 h; int X, Y, P, N; if (lj92_open(&h, d.p, d.n, &X, &Y, &P, &N)) { S.fail("open fails"); return; } uint16_t top = *std::max_element(x.im.s.begin(), x.im.s.end());
        for (int len = 0; len <= 1 << P; len++) { Buf<uint16_t> lin(len), o(x.im.s.size()); for (int i = 0; i < len; i++) lin.p[i] = i + 1000; Case now([&] { return fmt("linearization table of %d values, predictor %d: ", len, x.pred) + lj::show(x.im); }); int r = lj92_decode(h, o.p, x.im.s.size(), 0, lin.p, len); c.ex++; if ((r == 0) != (top < len)) S.fail(fmt("decode reports %d: ", r) + now.f()); } lj92_close(h); } });
    Case now([] { return std::string("no handle"); }); if (lj92_decode(nullptr, nullptr, 1, 0, nullptr, 0) != LJ92_ERROR_BAD_HANDLE) S.fail("decode without a handle does not report it"); lj92_close(nullptr); }
  if (MODE == 2) {  // every byte of a stream replaced by every value, removed, doubled
    for (int pred = 1; pred <= 7; pred++) for (int N = 1; N <= 4; N++) for (auto [X, Y] : {std::pair{1, 1}, {4, 2}, {3, 3}}) for (size_t t = 0; t < TB.size(); t++) { if (!deep && (int)t != ((pred + N) % 3 == 2 ? 4 : (pred + N) % 3) && !(t == 2 && pred == 6 && X == 3)) continue; base(image(t == 1 ? 16 : 12, X, Y, N), pred, TB[t], "HS"); if (pred == 6) base(image(9, X, Y, N), pred, TB[t], "CSAXH"); }
    S.parallel(bs.size(), [&](uint64_t k) { auto& x = bs[k]; for (size_t i = 0; i < x.b.size(); i++) { lj::Bytes m = x.b; for (int v = 0; v < 256; v++) { m[i] = v; if (!one(c, m.data(), m.size(), "byte replaced", i)) return; } m = x.b; m.erase(m.begin() + i); if (!one(c, m.data(), m.size(), "byte removed", i)) return; m = x.b; m.insert(m.begin() + i, m[i]); if (!one(c, m.data(), m.size(), "byte doubled", i)) return;
      if (!deep && k % 4) continue; m = x.b; for (int v : {0, 255, x.b[i] ^ 1, x.b[i] ^ 128}) { m[i] = v; for (size_t n = i; n < m.size(); n++) if (!one(c, m.data(), n, "byte replaced and stream truncated", i)) return; } } }); }
  if (MODE == 3) {  // pairs of bytes of the header by significant values; neighbouring bytes of the scan by all values
    base(image(12, 2, 2, 1), 6, TB[0], "HS"); base(image(8, 2, 2, 2), 1, TB[1], "SH"); base(image(12, 3, 2, 1), 4, TB[4], "HCS"); std::vector<int> V{0, 1, 2, 3, 4, 8, 16, 17, 18, 19, 20, 36, 127, 128, 195, 196, 216, 217, 218, 254, 255};
    for (auto& x : bs) { size_t H = x.scan + 2; S.parallel(H, [&](uint64_t i) { for (size_t j = i + 1; j < H; j++) { lj::Bytes m = x.b; for (int a : V) for (int b : V) { m[i] = a; m[j] = b; if (!one(c, m.data(), m.size(), "two bytes replaced", i)) return; } } });
      for (size_t i = 0; i + 1 < x.b.size(); i++) { if (!deep && i + 1 < x.scan && i % 4) continue; S.parallel(256, [&](uint64_t a) { lj::Bytes m = x.b; m[i] = a; for (int b = 0; b < 256; b++) { m[i + 1] = b; if (!one(c, m.data(), m.size(), "two bytes replaced", i)) return; } }); } } }
  if (MODE == 4) {  // all short inputs over the bytes that mean something, after each prefix of a stream
    const std::vector<uint8_t> A{0xff, 0xd8, 0xc4, 0xc3, 0xda, 0xd9, 0, 2, 19, 1}; base(image(4, 2, 1, 1), 1, TB[0], "HS"); auto& x = bs[0]; std::vector<lj::Bytes> pre{{}, {0xff, 0xd8}, {0xff, 0xd8, 0xff}, {0xff, 0xd8, 0xff, 0xc4, 0}, {0xff, 0xd8, 0xff, 0xc3, 0}, {0xff, 0xd8, 0xff, 0xda, 0}}; for (size_t n : {(size_t)40, x.scan - 10, x.scan - 8, x.scan - 6, x.scan - 4, x.scan - 3, x.scan - 2, x.scan - 1, x.scan}) pre.push_back(lj::Bytes(x.b.begin(), x.b.begin() + n));
    int depth = deep ? 6 : 5; for (auto& p : pre) for (int len = 0; len <= depth; len++) { uint64_t n = 1; for (int i = 0; i < len; i++) n *= A.size(); S.parallel((n + 255) / 256, [&](uint64_t g) { for (uint64_t k = g * 256; k < std::min(n, g * 256 + 256); k++) { lj::Bytes m = p; uint64_t v = k; for (int i = 0; i < len; i++) { m.push_back(A[v % A.size()]); v /= A.size(); } if (!one(c, m.data(), m.size(), "short input", p.size())) return; } }); } }
  if (MODE == 5) {  // every allocation of every call fails in turn
    for (int pred : {1, 6}) for (int N : {1, 3}) for (const char* o : {"HS", "XSH"}) base(image(12, 3, 2, N), pred, TB[0], o);
    for (auto& x : bs) for (int k = 0; k < 8; k++) { Case now([&] { return fmt("open with failing allocation %d", k); }); Buf<uint8_t> d(x.b); lj92 h = nullptr; int X, Y, P, N; lj_live = lj_calls = 0; lj_fail_at = k; int r = lj92_open(&h, d.p, d.n, &X, &Y, &P, &N); bool failed = lj_calls > k; lj_fail_at = -1; c.ex++; if (failed && r != LJ92_ERROR_NO_MEMORY) S.fail(fmt("open reports %d when allocation %d fails", r, k)); if (!failed && r) S.fail("open fails"); lj92_close(h); if (lj_live) S.fail(fmt("%ld allocations are not freed after open with failing allocation %d", lj_live, k)); }
    for (int X = 1; X <= 3; X++) for (int k = 0; k < 8; k++) { lj::Img im = image(12, X, 2, 1); Case now([&] { return fmt("encode with failing allocation %d", k); }); Buf<uint16_t> m(im.s); uint8_t* e = nullptr; int len = 0; lj_live = lj_calls = 0; lj_fail_at = k; int r = lj92_encode(m.p, X, 2, 12, X, 0, nullptr, 0, &e, &len); bool failed = lj_calls > k; lj_fail_at = -1; c.ex++;
      if (!r) { lj::Parsed p; lj::Img q; if (!e || !lj::parse_header(e, len, p)) S.fail(fmt("encode reports success without a stream when allocation %d fails", k)); else { q = p.im; if (!lj::decode_scan(e + p.scan, len - p.scan, q, p.pred, p.t) || q.s != im.s) S.fail("encode reports success with a wrong stream"); } lj_free(e); } else if (r != LJ92_ERROR_NO_MEMORY || !failed) S.fail(fmt("encode reports %d when allocation %d fails", r, k)); if (lj_live) S.fail(fmt("%ld allocations are not freed after encode with failing allocation %d", lj_live, k)); } }
  S.r.states = bs.size(); S.r.executions = c.ex; S.r.transitions = c.ex; S.r.terminals = c.ex; S.r.samples.push_back(fmt("%llu inputs: %llu decoded, %llu refused, %llu judged by the reference decoder, %llu opened only (image too large)", (unsigned long long)c.ex, (unsigned long long)c.accepted, (unsigned long long)c.refused, (unsigned long long)c.strict, (unsigned long long)c.big)); S.done(); return 0; }
