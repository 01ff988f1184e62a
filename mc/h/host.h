// Host software on simulated devices. Every load and store the repository's code makes is announced by the compiler
// (-fsanitize-coverage=trace-loads,trace-stores), so each access to a device register reaches the device model as one
// bus transaction, in order. /dev/mem is never opened: open, mmap, close, usleep are replaced at link time.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace host {
struct Region { uint32_t base; uint32_t size; uint8_t* p; bool regs; uint32_t mapped; };
inline std::vector<Region> regions;                 // register regions come first, from one arena
inline uint8_t* arena = nullptr; inline size_t arena_size = 0;
inline std::string problem;                          // first complaint about how the host used the devices
inline void complain(const char* f, ...) { if (!problem.empty()) return; char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); problem = b; }
inline uint32_t (*bus_read)(int region, uint32_t off) = nullptr;
inline void (*bus_write)(int region, uint32_t off, uint32_t v) = nullptr;
inline int pend_r = -1; inline uint32_t pend_off = 0; inline unsigned pend_n = 0;
inline jmp_buf escape; inline bool escape_on = false; inline long sleeps = 0;
inline int fake_fd = -1, opens = 0;
inline void flush() { if (pend_r < 0) return; int r = pend_r; pend_r = -1; for (unsigned k = 0; k < pend_n; k += 4) { uint32_t v; memcpy(&v, regions[r].p + pend_off + k, 4); bus_write(r, pend_off + k, v); } }
inline int find(const void* a) { for (size_t i = 0; i < regions.size(); i++) if (regions[i].regs && (uint8_t*)a >= regions[i].p && (uint8_t*)a < regions[i].p + regions[i].size) return (int)i; return -1; }
inline void access(void* a, unsigned n, bool store) {
  if ((size_t)((uint8_t*)a - arena) >= arena_size) return;
  flush(); int r = find(a); if (r < 0) return; uint32_t off = (uint8_t*)a - regions[r].p;
  if (off + n > regions[r].mapped) complain("access to the register at 0x%x, which the host has not mapped", off);
  if (n < 4 || off % 4) { complain("access of %u bytes to the register at 0x%x", n, off); return; }
  if (store) { pend_r = r; pend_off = off; pend_n = n; } else for (unsigned k = 0; k < n; k += 4) { uint32_t v = bus_read(r, off + k); memcpy(regions[r].p + off + k, &v, 4); } }
inline void setup(std::vector<Region> rs) { size_t t = 0; for (auto& r : rs) if (r.regs) t += r.size; arena_size = t; arena = (uint8_t*)aligned_alloc(4096, t ? t : 4096); memset(arena, 0xee, t); uint8_t* q = arena; for (auto& r : rs) { r.mapped = 0; if (r.regs) { r.p = q; q += r.size; } } regions = rs; }
inline void leave(int why) { if (escape_on) { escape_on = false; pend_r = -1; longjmp(escape, why); } fprintf(stderr, "host left with nowhere to go\n"); abort(); }
}
extern "C" {
#define HOOK(n, t) void __sanitizer_cov_load##n(t* a) { host::access((void*)a, n, false); } void __sanitizer_cov_store##n(t* a) { host::access((void*)a, n, true); }
HOOK(1, uint8_t) HOOK(2, uint16_t) HOOK(4, uint32_t) HOOK(8, uint64_t) HOOK(16, __uint128_t)
int __real_open(const char* p, int f, ...); void* __real_mmap(void* a, size_t n, int p, int f, int fd, off_t o); int __real_close(int fd);
int __wrap_open(const char* p, int f, ...) { if (!strncmp(p, "/dev/", 5)) { if (strcmp(p, "/dev/mem")) host::complain("opened %s", p); if ((f & O_ACCMODE) != O_RDWR) host::complain("opened /dev/mem with flags 0x%x", f); host::opens++; return host::fake_fd = __real_open("/dev/null", O_RDWR); } va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(p, f, m); }
int __wrap_open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __wrap_open(p, f, m); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  if (fd < 0) return __real_mmap(a, n, p, f, fd, o);
  if ((p & (PROT_READ | PROT_WRITE)) != (PROT_READ | PROT_WRITE)) host::complain("mapped with protection %d", p);
  if (!(f & MAP_SHARED)) host::complain("mapped with flags 0x%x", f);
  for (auto& r : host::regions) if (r.base == (uint64_t)o) { uint32_t m = (n + 4095) & ~4095u; if (m > r.size) { host::complain("mapped 0x%zx bytes at 0x%x", n, r.base); return MAP_FAILED; } if (m > r.mapped) r.mapped = m; return r.p; }
  host::complain("mapped address 0x%llx", (unsigned long long)o); return MAP_FAILED; }
void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
int __wrap_close(int fd) { return __real_close(fd); }
int __wrap_usleep(unsigned) { host::flush(); if (++host::sleeps > 5000) host::leave(2); return 0; }
}
// run f; 0: returned, otherwise the reason it was left
template<class F> static int host_run(F f) { host::sleeps = 0; int why = setjmp(host::escape); if (why) return why; host::escape_on = true; f(); host::flush(); host::escape_on = false; return 0; }
// does f end the process with a failure status?
template<class F> static bool host_dies(F f) { fflush(stdout); pid_t p = fork(); if (!p) { if (!freopen("/dev/null", "w", stdout)) _exit(0); f(); _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) != 0; }
// a crash or an exit of the host code in this process is a violation, reported as such
static mc::Opts* guard_o; static bool guard_done = false;
static void host_end(const char* w) { if (guard_done) return; guard_done = true; mc::Result r; r.violation = true; r.message = std::string(w) + (host::problem.empty() ? "" : ": " + host::problem); mc::print(*guard_o, r); }
static void host_guard(mc::Opts& o) { guard_o = &o; for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, [](int n) { host_end(n == SIGALRM ? "the host library hangs" : "the host library crashes"); fflush(stdout); _exit(0); }); alarm(600); atexit([] { host_end("the host library ends the process"); }); }
