// Explicit-state exploration of a closed system: design (real RTL, compiled) + environment + reference.
// Breadth-first, level-synchronous, multi-threaded; states are deduplicated by a 128-bit hash of
// all bytes of the world; every environment choice in every reachable state is taken.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <mutex>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>
#include <chrono>
#include "dutlib.h"

namespace mc {
enum { OK = 0, PRUNE = 1, DONE = 2, FAIL = 3 };
inline thread_local char msg[512];
inline int fail(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(msg, sizeof msg, f, a); va_end(a); return FAIL; }

struct H128 { uint64_t a, b; bool operator==(const H128& o) const { return a == o.a && b == o.b; } };
static inline uint64_t mix(uint64_t x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x; }
static inline H128 hash_bytes(const void* p, size_t n) {
  const uint8_t* c = (const uint8_t*)p; uint64_t h1 = 0x9e3779b97f4a7c15ull ^ n, h2 = 0xc2b2ae3d27d4eb4full + n, h3 = 0x165667b19e3779f9ull, h4 = 0x27d4eb2f165667c5ull;
  auto rd = [](const uint8_t* q) { uint64_t v; memcpy(&v, q, 8); return v; };
  auto mul = [](uint64_t a, uint64_t b) { __uint128_t m = (__uint128_t)a * b; return (uint64_t)m ^ (uint64_t)(m >> 64); };
  while (n >= 16) { uint64_t x = rd(c), y = rd(c + 8); h1 = mul(x ^ h1 ^ 0xa0761d6478bd642full, y ^ 0xe7037ed1a0b428dbull ^ h3); h2 = mul(y ^ h2 ^ 0x8ebc6af09c88c6e3ull, x ^ 0x589965cc75374cc3ull ^ h4); h3 += x * 0x9fb21c651e98df25ull + y; h4 ^= (y + 0x1d8e4e27c47d124full) * 0x9e3779b97f4a7c15ull + (h4 << 7); c += 16; n -= 16; }
  uint64_t x = 0, y = 0; if (n >= 8) { x = rd(c); memcpy(&y, c + 8, n - 8); } else if (n) memcpy(&x, c, n);
  h1 = mul(x ^ h1 ^ 0xa0761d6478bd642full, y ^ 0xe7037ed1a0b428dbull ^ h3); h2 = mul(y ^ h2 ^ 0x8ebc6af09c88c6e3ull, x ^ 0x589965cc75374cc3ull ^ h4);
  H128 r{mix(h1 + 3 * h3 + mix(h4)), mix(h2 ^ mix(h3) ^ (h4 << 1))}; if (!r.a && !r.b) r.a = 1; return r; }

struct Opts {
  uint64_t max_states = 200'000'000; double max_s = 700; int threads = 8; std::string trace_file; int traces = 3; std::string name = "run"; bool verbose = false;
  uint64_t mem_limit = 16ull << 30;
};
inline Opts parse(int argc, char** argv) {
  Opts o;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--max-states") o.max_states = std::stoull(val()); else if (a == "--max-s") o.max_s = std::stod(val()); else if (a == "--threads") o.threads = std::stoi(val());
    else if (a == "--trace-file") o.trace_file = val(); else if (a == "--traces") o.traces = std::stoi(val()); else if (a == "--name") o.name = val(); else if (a == "-v") o.verbose = true; else if (a == "--mem") o.mem_limit = std::stoull(val()) << 20; }
  return o; }

struct Result {
  uint64_t states = 0, transitions = 0, pruned = 0, terminals = 0, depth = 0, outcomes = 0, executions = 0; bool complete = true; std::string why_incomplete;
  bool violation = false; std::string message; std::vector<std::string> samples; double wall = 0; };
inline std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
inline void print(const Opts& o, const Result& r) {
  printf("RESULT {\"name\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"terminals\":%llu,\"depth\":%llu,\"executions\":%llu,\"outcomes\":%llu,\"complete\":%s,\"why_incomplete\":\"%s\",\"violation\":%s,\"message\":\"%s\",\"wall\":%.3f,\"samples\":[",
    esc(o.name).c_str(), (unsigned long long)r.states, (unsigned long long)r.transitions, (unsigned long long)r.pruned, (unsigned long long)r.terminals, (unsigned long long)r.depth, (unsigned long long)r.executions, (unsigned long long)r.outcomes, r.complete ? "true" : "false", esc(r.why_incomplete).c_str(), r.violation ? "true" : "false", esc(r.message).c_str(), r.wall);
  for (size_t i = 0; i < r.samples.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(r.samples[i]).c_str());
  printf("]}\n"); fflush(stdout); }

struct Traces { std::string s = "["; int n = 0; void add(const char* kind, const TraceSink& t, const std::string& note) { if (n++) s += ",\n"; s += std::string("{\"kind\":\"") + kind + "\",\"note\":\"" + esc(note) + "\",\"steps\":[" + t.s + "]}"; }
  void write(const std::string& f) { if (f.empty()) return; FILE* h = fopen(f.c_str(), "w"); if (!h) return; std::string x = s + "]"; fwrite(x.data(), 1, x.size(), h); fclose(h); } };

template<class H> class Explorer {
 public:
  using W = typename H::W;
  static_assert(std::is_trivially_copyable_v<W>);
  struct Node { uint32_t parent; uint32_t dsucc; uint16_t choice; uint8_t flags; uint8_t pad; };
  struct Slot { H128 k; uint32_t id; uint32_t pad; };
  static constexpr int SH = 256;
  struct Shard { std::mutex m; std::vector<Slot> t; size_t n = 0; };
  H& h; Opts o; Result r;
  std::vector<Shard> sh{SH};
  std::vector<std::vector<Node>> chunks;  // node storage, 1M per chunk
  std::mutex chm; std::atomic<uint32_t> nid{0};
  static constexpr uint32_t CB = 20;
  Node& node(uint32_t id) { return chunks[id >> CB][id & ((1u << CB) - 1)]; }
  Explorer(H& h, Opts o) : h(h), o(o) { chunks.resize(4096); for (auto& s : sh) s.t.resize(64); }
  uint32_t new_id() { uint32_t id = nid.fetch_add(1); auto& c = chunks[id >> CB]; if (c.empty()) { std::lock_guard<std::mutex> g(chm); if (c.empty()) { std::vector<Node> v(1u << CB); c.swap(v); } } return id; }
  // returns (id, is_new)
  std::pair<uint32_t, bool> insert(const W& w, uint32_t parent, int choice) {
    H128 k = hash_bytes(&w, sizeof w); Shard& s = sh[k.a >> 56]; std::lock_guard<std::mutex> g(s.m);
    size_t m = s.t.size() - 1, i = (size_t)k.b & m;
    while (s.t[i].k.a | s.t[i].k.b) { if (s.t[i].k == k) return {s.t[i].id, false}; i = (i + 1) & m; }
    uint32_t id = new_id(); Node& n = node(id); n.parent = parent; n.choice = (uint16_t)choice; n.dsucc = 0xffffffff; n.flags = 0;
    s.t[i].k = k; s.t[i].id = id; s.n++;
    if (s.n * 2 > s.t.size()) { std::vector<Slot> t2(s.t.size() * 2); size_t m2 = t2.size() - 1; for (auto& e : s.t) if (e.k.a | e.k.b) { size_t j = (size_t)e.k.b & m2; while (t2[j].k.a | t2[j].k.b) j = (j + 1) & m2; t2[j] = e; } s.t.swap(t2); }
    return {id, true}; }
  struct Item { uint32_t id; W w; };
  static constexpr uint32_t ROOT = 0x80000000u;   // parent field of an initial state: ROOT + index
  std::vector<int> path(uint32_t id, int& init) { std::vector<int> p; while (!(node(id).parent & ROOT)) { p.push_back(node(id).choice); id = node(id).parent; } init = node(id).parent & ~ROOT; std::reverse(p.begin(), p.end()); return p; }
  // replays a choice list from an initial state; returns the status of the last step
  int replay(int init, const std::vector<int>& p, W& w, TraceSink* sink) {
    h.trace(sink); memset((void*)&w, 0, sizeof w); h.init(w, init); int st = OK;
    for (int c : p) { W n; memset((void*)&n, 0, sizeof n); st = h.step(w, c, n); memcpy((void*)&w, &n, sizeof w); if (st == FAIL) break; }
    h.trace(nullptr); return st; }
  std::string describe(int init, const std::vector<int>& p) { std::string s = "init=" + h.init_name(init) + " choices="; size_t k = 0; for (int c : p) { if (k++) s += ","; s += std::to_string(c); if (k > 400) { s += "..."; break; } } return s; }

  Result run() {
    auto t0 = std::chrono::steady_clock::now();
    auto secs = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::vector<std::vector<Item>> cur(o.threads), nxt(o.threads);
    std::vector<uint32_t> done_ids; std::mutex dm;
    struct Bad { uint32_t id; int choice; std::string m; }; std::vector<Bad> bad;
    std::atomic<uint64_t> trans{0}, pruned{0}, terms{0};
    for (int k = 0; k < h.ninit(); k++) { Item it; memset((void*)&it, 0, sizeof it); h.init(it.w, k); auto [id, nw] = insert(it.w, ROOT + k, 0); if (nw) { it.id = id; cur[k % o.threads].push_back(it); } }
    bool stop = false; uint64_t depth = 0;
    while (!stop) {
      size_t tot = 0; for (auto& v : cur) tot += v.size(); if (!tot) break; depth++;
      // chunks of work over all the frontier vectors
      std::vector<std::pair<int, size_t>> work; const size_t G = 64; for (int v = 0; v < o.threads; v++) for (size_t i = 0; i < cur[v].size(); i += G) work.push_back({v, i});
      std::atomic<size_t> wi{0}, pushed{0}; std::vector<std::thread> th; std::atomic<bool> abort{false};
      int nt = tot < 256 ? 1 : o.threads;
      auto body = [&](int me) {
        Item n; uint64_t tr = 0, pr = 0, te = 0;
        while (!abort) { size_t k = wi++; if (k >= work.size()) break; auto& vec = cur[work[k].first]; size_t e = std::min(vec.size(), work[k].second + G);
          for (size_t i = work[k].second; i < e; i++) { const Item& it = vec[i]; int nc = h.nchoices(it.w); int df = h.dflt(it.w);
            for (int c = 0; c < nc; c++) { memset((void*)&n, 0, sizeof n); int st = h.step(it.w, c, n.w);
              if (st == PRUNE) { pr++; continue; } tr++;
              if (st == FAIL) { std::lock_guard<std::mutex> g(dm); bad.push_back({it.id, c, msg}); abort = true; break; }
              auto [id, nw] = insert(n.w, it.id, c); if (c == df) node(it.id).dsucc = id;
              if (st == DONE) { if (nw) { te++; node(id).flags |= 1; std::lock_guard<std::mutex> g(dm); if (done_ids.size() < 100000) done_ids.push_back(id); } continue; }
              if (nw) { n.id = id; nxt[me].push_back(n); pushed.fetch_add(1, std::memory_order_relaxed); } } if (abort) break; }
          if (nid.load() > o.max_states || secs() > o.max_s) abort = true; if (pushed.load(std::memory_order_relaxed) * sizeof(Item) + tot * sizeof(Item) + (uint64_t)nid.load() * 72 > o.mem_limit) abort = true; }
        trans += tr; pruned += pr; terms += te; };
      if (nt == 1) body(0); else { for (int t = 0; t < nt; t++) th.emplace_back(body, t); for (auto& t : th) t.join(); }
      if (o.verbose) fprintf(stderr, "depth %llu frontier %zu states %u %.1fs\n", (unsigned long long)depth, tot, nid.load(), secs());
      if (!bad.empty()) break;
      if (abort) { r.complete = false; r.why_incomplete = "cap (states/time/memory) reached at depth " + std::to_string(depth) + "; every state up to depth " + std::to_string(depth - 1) + " was fully expanded"; stop = true; }
      for (auto& v : cur) { std::vector<Item>().swap(v); } cur.swap(nxt); }
    r.states = nid.load(); r.transitions = trans; r.pruned = pruned; r.terminals = terms; r.depth = depth;
    Traces T;
    auto report = [&](uint32_t id, int choice, const std::string& m) { int init; auto p = path(id, init); if (choice >= 0) p.push_back(choice); TraceSink s; W w; int st = replay(init, p, w, &s); std::string m1 = msg; if (choice >= 0) { TraceSink s2; int st2 = replay(init, p, w, &s2); if (st != FAIL || st2 != FAIL || s.s != s2.s) { fprintf(stderr, "replay diverged\n"); exit(3); } (void)m1; }
      r.violation = true; r.message = m + " | " + describe(init, p) + " | " + h.show(w); T.add("violation", s, r.message); };
    if (!bad.empty()) report(bad[0].id, bad[0].choice, bad[0].m);
    // every state reaches completion under the default environment
    if (!r.violation && r.complete && h.check_liveness()) {
      uint32_t N = nid; std::vector<uint8_t> col(N, 0); for (uint32_t s = 0; s < N && !r.violation; s++) { if (col[s]) continue; std::vector<uint32_t> stk; uint32_t x = s;
        while (true) { if (col[x] == 2) break; if (col[x] == 1) { report(x, -1, "livelock: under the default (cooperative) environment the run never completes from the state reached"); break; }
          if (node(x).flags & 1) { col[x] = 2; break; } col[x] = 1; stk.push_back(x); uint32_t d = node(x).dsucc; if (d == 0xffffffff) { report(x, -1, "no default successor: the cooperative environment cannot continue"); break; } x = d; }
        for (uint32_t y : stk) col[y] = 2; } }
    if (!r.violation) { // sample traces for conformance: completed runs and arbitrary deep states, spread evenly
      std::sort(done_ids.begin(), done_ids.end());
      auto emit = [&](uint32_t id) { int init; auto p = path(id, init); TraceSink s; W w; replay(init, p, w, &s); std::string d = describe(init, p); T.add("explored", s, d); if (r.samples.size() < 3) r.samples.push_back(d + " -> " + h.show(w)); };
      int a = o.traces / 2; for (int i = 0; i < a && !done_ids.empty(); i++) emit(done_ids[(done_ids.size() - 1) * (size_t)(i + 1) / a]);
      uint32_t N = nid; for (int i = a; i < o.traces; i++) emit((uint32_t)((uint64_t)(N - 1) * (i - a + 1) / (o.traces - a))); }
    T.write(o.trace_file); r.wall = secs(); return r; }
};

// harness base with the optional hooks
template<class D> struct Base { int ninit() { return 1; } std::string init_name(int k) { return std::to_string(k); } bool check_liveness() { return true; } template<class X> int dflt(const X&) { return 0; } void trace(TraceSink* s) { D::set_sink(s); } };
}  // namespace mc
