// The library under test through its API; every buffer is exactly as long as the library may assume, so that the sanitizers see
// any access beyond it. A sanitizer's report, a crash or a hang is reported as a violation with the input that caused it.
#pragma once
#include "sweep.h"
#include <algorithm>
#include <functional>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include "lj_ref.h"
extern "C" {
#include "lj92.h"
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline thread_local const std::function<std::string()>* lj_now = nullptr; inline Sweep* lj_sweep; inline std::atomic<uint64_t> lj_progress{0}; inline std::atomic<bool> lj_dead{false};
// memory may be corrupt here: no harness objects but the description of the current input, one write, and out
static void lj_out(const char* m) { static char b[8192]; mc::Result r; int n = snprintf(b, sizeof b, "\nRESULT {\"name\":\"%s\",\"states\":0,\"transitions\":%llu,\"pruned\":0,\"terminals\":0,\"depth\":0,\"executions\":%llu,\"outcomes\":0,\"complete\":false,\"why_incomplete\":\"stopped by the violation\",\"violation\":true,\"message\":\"%s\",\"wall\":0,\"samples\":[]}\n", lj_sweep->o.name.c_str(), (unsigned long long)lj_progress, (unsigned long long)lj_progress, m); (void)!write(1, b, n); _exit(1); }
inline thread_local bool lj_dying = false;
static void lj_death() { if (lj_dying) lj_out("invalid memory access or undefined behaviour (sanitizer report), twice"); lj_dying = true; if (lj_dead.exchange(true)) for (;;) pause();
  static char m[3000] = "invalid memory access or undefined behaviour (sanitizer report) in "; std::string w = lj_now ? (*lj_now)() : "?"; size_t k = strlen(m); for (char c : w) if (k < sizeof m - 1 && c != '"' && c != '\\' && (unsigned char)c >= 32) m[k++] = c; m[k] = 0; lj_out(m); }
static void lj_sig(int) { lj_death(); }
static void lj_begin(Sweep& S) { lj_sweep = &S; __sanitizer_set_death_callback(lj_death); signal(SIGABRT, lj_sig); setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  std::thread([] { uint64_t last = ~0ull; int same = 0; for (;;) { sleep(1); uint64_t p = lj_progress; same = p == last ? same + 1 : 0; last = p; if (same >= 60) lj_out(lj_dead ? "a sanitizer report, and then no end" : "a call does not return"); } }).detach(); }
struct Case { std::function<std::string()> f; const std::function<std::string()>* old; Case(std::function<std::string()> g) : f(std::move(g)), old(lj_now) { lj_now = &f; lj_progress++; } ~Case() { lj_now = old; } };
// exact-size heap copy
template<class T> struct Buf { T* p; size_t n; Buf(size_t n) : p((T*)malloc(n * sizeof(T) ? n * sizeof(T) : 1)), n(n) {} Buf(const std::vector<T>& v) : Buf(v.size()) { if (n) memcpy(p, v.data(), n * sizeof(T)); } ~Buf() { free(p); } Buf(const Buf&) = delete; };

extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=32:symbolize=0:malloc_context_size=0"; }
// the library's allocations (lj92.c is compiled to call these): counted, and the n-th can be made to fail
inline thread_local long lj_live = 0, lj_calls = 0, lj_fail_at = -1;
extern "C" { void* lj_malloc(size_t n) { if (lj_calls++ == lj_fail_at) return nullptr; lj_live++; return malloc(n); } void* lj_calloc(size_t n, size_t m) { if (lj_calls++ == lj_fail_at) return nullptr; lj_live++; return calloc(n, m); }
void* lj_realloc(void* p, size_t n) { if (lj_calls++ == lj_fail_at) return nullptr; if (!p) lj_live++; return realloc(p, n); } void lj_free(void* p) { if (p) lj_live--; free(p); } }
