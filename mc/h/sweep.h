// Helpers for exhaustive enumerations that stream every input of a finite domain through a design.
#pragma once
#include "mc.h"
#include <set>
struct Sweep {
  mc::Opts o; mc::Result r; mc::Traces T; std::mutex m; std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  Sweep(int c, char** v) : o(mc::parse(c, v)) {}
  std::atomic<bool> bad{false};
  void fail(const std::string& s, const TraceSink* t = nullptr) { std::lock_guard<std::mutex> g(m); if (bad) return; bad = true; r.violation = true; r.message = s; if (t) T.add("violation", *t, s); }
  template<class F> void parallel(uint64_t n, F f) { std::atomic<uint64_t> k{0}; std::vector<std::thread> th; for (int t = 0; t < o.threads; t++) th.emplace_back([&] { while (!bad) { uint64_t i = k++; if (i >= n) break; f(i); } }); for (auto& t : th) t.join(); }
  void done() { T.write(o.trace_file); r.wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); mc::print(o, r); }
};
static inline std::string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
