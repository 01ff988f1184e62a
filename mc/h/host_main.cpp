// The host program from main() on, on a model of the DMA, of the core's registers and of memory: what it puts in the
// source memory, how it programs the devices, and its verdict, for every way the transfer can end of an enumerated set.
#include "mc.h"
#include "sweep.h"
#include "regmap.h"
#include "host.h"
#include "config.h"
#include <fstream>
#include <sstream>
extern "C" int xt_main(int, char**);
enum { RDMA, RAXI, RSRC, RDST };
static const uint32_t MEMSZ = 0x2000000, W = 4096, H = 3072;
struct Scn {
  int raw = 0, len = 256, ioc[2] = {0, 0}, idle[2] = {0, 0}; long flip = -1; uint8_t mask = 0; int first = 1, last = 1, lastoff = 0, lasthave = 4; bool never[2] = {false, false}; int argc = 3; int raw_short = 0; int missing = 0; bool noise = false;
};
static Scn S; static std::vector<uint8_t> lj; static std::string dir;
// source image number k: its triples of bytes run through all 2^24 values over the images
static inline uint32_t triple(int k, uint32_t i) { uint64_t n = (uint64_t)k * (W * H / 2 / (INPUT_LENGTH == 64 ? 2 : 1)) + (INPUT_LENGTH == 64 ? i >> 1 : i); uint32_t t = n & 0xffffff; if (INPUT_LENGTH == 64 && (i & 1)) t = t * 0x9e3779 & 0xffffff; return t; }
static Regs M;
struct Chan { uint32_t cr, addr, len, sr; int ioc_in, idle_in; bool run, busy, done; } C[2];
static long polls; static bool started = false;
static uint32_t bread(int r, uint32_t off) {
  if (r == RAXI) { uint32_t d = 0; bool any; int e = M.read(off, d, any); if (e) host::complain("the core answers the read of 0x%x with error %d", off, e); return any ? 0xeeeeeeee : d; }
  int k = off >= 0x30; uint32_t q = off - (k ? 0x30 : 0); Chan& c = C[k]; if (q == 0) return c.cr; if (q == 0x18) return c.addr; if (q == 0x28) return c.len; if (q != 4) return 0;
  if (++polls > 3000) { fflush(stdout); _exit(77); }
  if (c.busy && !S.never[k]) { if (c.ioc_in) c.ioc_in--; else c.sr |= 1 << 12; if (c.idle_in) c.idle_in--; else c.sr |= 2; if ((c.sr & 0x1002) == 0x1002) { c.busy = false; c.done = true;
      if (k == 1) { // what the core wrote: marker, stream, marker
        uint8_t* d = host::regions[RDST].p; std::vector<uint8_t> o(16, 0xff); if (!S.first) memset(o.data(), 0x11, 4); if (S.first == 2) o[15] = 0xfe; for (size_t i = 0; i + 1 < lj.size() + 1; i += 2) { o.push_back(lj[i + 1]); o.push_back(lj[i]); }
        for (int i = 0; i < S.lastoff; i++) o.push_back(0x20 + i); for (int i = 0; i < S.lasthave; i++) for (int b = 0; b < 4; b++) o.push_back(S.last == 1 ? 0xff : S.last == 2 ? (b & 1 ? 0xfe : 0xff) : 0); if (S.last == 2 && 0) o.back() = 0;
        if (S.flip >= 0) o[S.flip] ^= S.mask; if (o.size() > c.len) o.resize(c.len); memcpy(d, o.data(), o.size()); } } }
  return c.sr | (S.noise && !c.done ? 0x6000 : 0); }
static void check_start() {
  if (AXI_LITE_ENABLE && (M.hw != (W << 16 | H) || M.ac != 0xffffff)) host::complain("the transfer starts while the core is set to width %u height %u allowed cycles %u", M.hw >> 16, M.hw & 0xffff, M.ac);
  if (C[0].addr != SOURCE_BASE || C[1].addr != DEST_BASE) host::complain("the DMA's addresses are 0x%x and 0x%x", C[0].addr, C[1].addr);
  if (C[0].len != W * H * 2) host::complain("the DMA's source length is 0x%x", C[0].len);
  const uint8_t* d = host::regions[RDST].p; for (uint32_t i = 0; i < MEMSZ; i++) if (d[i]) { host::complain("the destination is not zero at 0x%x when the transfer starts", i); break; }
  const uint8_t* s = host::regions[RSRC].p; for (uint32_t i = W * H * 2; i < MEMSZ; i++) if (s[i] != 0x5a) { host::complain("the source memory is written at 0x%x, beyond the image", i); break; }
  for (uint32_t i = 0; i < W * H / 2; i++) { uint32_t t = triple(S.raw, i), a = t >> 12, b = t & 0xfff, x, y;
    if (INPUT_LENGTH == 64) { uint64_t w; memcpy(&w, s + (i >> 1) * 8, 8); static const int AT[4] = {PIXEL_AT64}; x = w >> AT[(i & 1) * 2] & 0xfff; y = w >> AT[(i & 1) * 2 + 1] & 0xfff; }
    else { uint32_t w; memcpy(&w, s + i * 4, 4); static const int AT[2] = {PIXEL_AT32}; x = w >> AT[0] & 0xfff; y = w >> AT[1] & 0xfff; }
    if (x != a || y != b) { host::complain("the source holds pixels %u and %u as 0x%03x 0x%03x, the image has 0x%03x 0x%03x", 2 * i, 2 * i + 1, x, y, a, b); break; } } }
static void bwrite(int r, uint32_t off, uint32_t v) {
  if (r == RAXI) { if (M.write(off, v, 15)) host::complain("the core answers the write of 0x%x with an error", off); return; }
  int k = off >= 0x30; uint32_t q = off - (k ? 0x30 : 0); Chan& c = C[k];
  if (q == 0) { if (v & 4) { memset(&c, 0, sizeof c); c.sr = 1; } else { c.cr = v; c.run = v & 1; if (c.run) c.sr &= ~1u; else { c.sr |= 1; c.busy = false; } } }
  else if (q == 4) c.sr &= ~(v & 0x7000); else if (q == 0x18) c.addr = v; else if (q == 0x28) { if (!c.run || !v) host::complain("length 0x%x written to channel %d while it is %s", v, k, c.run ? "running" : "halted"); if (c.run && v) { c.len = v; c.busy = true; c.sr &= ~2u; c.ioc_in = S.ioc[k]; c.idle_in = S.idle[k]; if (k == 0) { started = true; check_start(); } else if (v > MEMSZ || v % 4) host::complain("the DMA's destination length is 0x%x", v); } }
  else host::complain("write of 0x%x to the DMA register at 0x%x", v, off); }
struct Out { int code; std::string text, problem; bool started; };
static Out run_one(const Scn& s) {
  int fd = memfd_create("out", 0), pf = memfd_create("problem", 0); pid_t p = fork();
  if (!p) { S = s; dup2(fd, 1); setvbuf(stdout, nullptr, _IOFBF, 1 << 16); signal(SIGSEGV, SIG_DFL); alarm(60);
    lj.resize(s.len); for (int i = 0; i < s.len; i++) lj[i] = (uint8_t)(i * 37 + (i >> 8) * 11 + 1) % 251; lj[s.len - 2] = 0xff; lj[s.len - 1] = 0xd9;
    host::setup({{DMA_BASE, 65536, nullptr, true, 0}, {AXI_LITE_BASE, 65536, nullptr, true, 0}, {SOURCE_BASE, MEMSZ, nullptr, false, 0}, {DEST_BASE, MEMSZ, nullptr, false, 0}});
    for (int k : {RSRC, RDST}) { host::regions[k].p = (uint8_t*)__real_mmap(nullptr, MEMSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memset(host::regions[k].p, 0x5a, MEMSZ); }
    host::bus_read = bread; host::bus_write = bwrite; M.reset(); for (auto& c : C) { memset(&c, 0, sizeof c); c.sr = 0x1003; c.cr = 0x1000; }
    std::string rawf = dir + (s.missing == 1 ? "/none" : s.missing == 3 ? "/empty" : s.raw_short ? "/short.raw" : "/" + std::to_string(s.raw) + ".raw"), ljf = dir + (s.missing == 2 ? "/none" : s.missing == 4 ? "/empty" : "/" + std::to_string(s.len) + ".lj92");
    char a0[] = "xilinx_test"; char* av[] = {a0, rawf.data(), ljf.data(), a0, nullptr}; if (s.argc < 3) av[s.argc] = nullptr;
    auto fin = [](int) {}; (void)fin; static int pfs; pfs = pf; static auto rep = [] { host::flush(); std::string x = (started ? "S" : "-") + host::problem; if (write(pfs, x.data(), x.size()) < 0) {} }; atexit([] { rep(); });
    int rc = xt_main(s.argc, av); exit(rc); }
  int st; waitpid(p, &st, 0); auto rd = [](int f) { std::string r; lseek(f, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) r.append(b, n); close(f); return r; };
  Out o; o.text = rd(fd); std::string pr = rd(pf); o.started = !pr.empty() && pr[0] == 'S'; o.problem = pr.empty() ? "" : pr.substr(1); o.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); return o; }
static int count(const std::string& t, const std::string& l) { std::istringstream s(t); std::string x; int n = 0; while (std::getline(s, x)) n += x == l; return n; }
int main(int c, char** v) { Sweep sw(c, v); char tmpl[] = "/tmp/hostmainXXXXXX"; char* tdir = getenv("TMPDIR"); std::string base = std::string(tdir ? tdir : "/tmp") + "/hostmainXXXXXX"; std::vector<char> tb(base.begin(), base.end()); tb.push_back(0); if (!mkdtemp(tb.data())) return 3; dir = tb.data(); (void)tmpl;
  std::vector<int> lens{256, 258, 260, 270, 1026}; std::vector<std::string> files;
  auto put = [&](const std::string& n, const std::vector<uint8_t>& d) { std::ofstream f(dir + "/" + n, std::ios::binary); f.write((const char*)d.data(), d.size()); files.push_back(dir + "/" + n); };
  for (int l : lens) { std::vector<uint8_t> x(l); for (int i = 0; i < l; i++) x[i] = (uint8_t)(i * 37 + (i >> 8) * 11 + 1) % 251; x[l - 2] = 0xff; x[l - 1] = 0xd9; put(std::to_string(l) + ".lj92", x); }
  auto raw = [&](int k) { std::vector<uint8_t> x((size_t)W * H * 3 / 2); for (uint32_t i = 0; i < W * H / 2; i++) { uint32_t t = triple(k, i); x[3 * i] = t >> 16; x[3 * i + 1] = t >> 8; x[3 * i + 2] = t; } return x; };
  std::vector<Scn> L; Scn s; int NIMG = NIMAGES; std::vector<std::thread> th;
  for (int k = 0; k < NIMG; k++) { put(std::to_string(k) + ".raw", raw(k)); Scn q; q.raw = k; L.push_back(q); }
  { auto x = raw(0); x.pop_back(); put("short.raw", x); put("empty", {}); }
  int full = FULLSET;
  if (full) {
  for (int l : lens) for (int m = 0; m < 3; m++) for (int off = 0; off < 6; off++) { Scn q; q.len = l; q.last = m; q.lastoff = off; L.push_back(q); }
  for (int h = 0; h < 4; h++) for (int m = 1; m < 3; m++) { Scn q; q.lasthave = h; q.last = m; L.push_back(q); }
  for (int f = 0; f < 3; f++) { Scn q; q.first = f; L.push_back(q); }
  for (int d = 0; d < 81; d++) { Scn q; q.ioc[0] = d % 3; q.idle[0] = d / 3 % 3; q.ioc[1] = d / 9 % 3; q.idle[1] = d / 27; q.noise = d & 1; L.push_back(q); }
  for (int l : {256, 258}) for (int i = 0; i < 16 + l + 16; i++) for (int m : {1, 0x80}) { if (m == 1 && i > 24 && i < l && i % 4) continue; Scn q; q.len = l; q.flip = i; q.mask = m; L.push_back(q); }
  for (int k = 0; k < 2; k++) { Scn q; q.never[k] = true; L.push_back(q); }
  for (int a : {1, 2, 4}) { Scn q; q.argc = a; L.push_back(q); }
  for (int m = 1; m <= 4; m++) { Scn q; q.missing = m; L.push_back(q); }
  { Scn q; q.raw_short = 1; L.push_back(q); }
  }
  std::atomic<uint64_t> good{0};
  sw.parallel(L.size(), [&](uint64_t i) { const Scn& q = L[i]; Out o = run_one(q); char nm[160]; snprintf(nm, sizeof nm, "stream of %d bytes, byte %ld changed by 0x%x, marker %d +%d, image %d", q.len, q.flip, q.mask, q.last, q.lastoff, q.raw); auto F = [&](const std::string& m) { sw.fail(std::string(nm) + ": " + m); };
    bool refuse = q.argc != 3 || q.missing || q.raw_short; int ok = count(o.text, "Validation succeeded.");
    if (o.code >= 1000) return F("the program dies of signal " + std::to_string(o.code - 1000));
    if (!o.problem.empty()) return F(o.problem);
    if (refuse) { if (o.code == 0 || o.started || ok) return F("bad arguments are accepted"); return; }
    if (q.never[0] || q.never[1]) { if (o.code != 77 || ok) return F("the program does not wait for the DMA"); return; }
    if (o.code) return F("the program ends with status " + std::to_string(o.code));
    if (!o.started) return F("the transfer is never started");
    // what is in the destination, and the verdict it calls for
    std::vector<uint8_t> x(q.len); for (int k = 0; k < q.len; k++) x[k] = (uint8_t)(k * 37 + (k >> 8) * 11 + 1) % 251; x[q.len - 2] = 0xff; x[q.len - 1] = 0xd9;
    bool same = !(q.flip >= 16 && q.flip < 16 + q.len && q.mask); if (ok != same) return F(same ? "a correct stream is not reported as correct" : "a wrong stream is reported as correct");
    std::vector<uint8_t> d(16, 0xff); if (!q.first) memset(d.data(), 0x11, 4); if (q.first == 2) d[15] = 0xfe; for (int k = 0; k < q.len; k += 2) { d.push_back(x[k + 1]); d.push_back(x[k]); } for (int k = 0; k < q.lastoff; k++) d.push_back(0x20 + k); for (int k = 0; k < q.lasthave * 4; k++) d.push_back(q.last == 1 ? 0xff : q.last == 2 ? (k & 1 ? 0xfe : 0xff) : 0); if (q.flip >= 0) d[q.flip] ^= q.mask; d.resize(d.size() + 512, 0);
    auto u = [&](int p) { uint32_t w; memcpy(&w, &d[p], 4); return w; }; bool f0 = true; for (int k = 0; k < 4; k++) f0 &= u(4 * k) == 0xffffffff;
    if (count(o.text, "marker found.") != f0) return F("the first marker is reported wrongly");
    int p = -1; for (int k = 0; k < 128 && p < 0; k++) if (u(16 + q.len + k) == 0xffffffff || u(16 + q.len + k) == 0xfefffeff) p = k; bool l0 = p >= 0; if (l0) for (int k = 0; k < 4; k++) { uint32_t w = u(16 + q.len + p + 4 * k); l0 &= w == 0xffffffff || w == 0xfefffeff; }
    std::string e = l0 ? (u(16 + q.len + p) == 0xffffffff ? "normal" : "force") + std::string(" marker found - offset is ") + std::to_string(p) + "." : "";
    if (l0 && count(o.text, e) != 1) return F("the last marker is reported wrongly, expected '" + e + "'");
    if (count(o.text, "No marker found.") != !f0 + !l0) return F("a missing marker is reported wrongly");
    if (AXI_LITE_ENABLE) for (const char* w : {"width: 4096", "height: 3072", "allowed_cycles: 16777215"}) if (count(o.text, w) != 1) return F(std::string("the program does not report ") + w);
    good++; });
  for (auto& f : files) unlink(f.c_str()); rmdir(dir.c_str()); sw.r.executions = L.size(); sw.r.states = L.size(); sw.r.transitions = L.size(); sw.r.outcomes = good; sw.done(); }
