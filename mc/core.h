// Exploration runner: suites of independently numbered cases, worked off by
// forked workers, with replay-before-report and evidence output.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::string Str;
Str sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
Str quote(const Str& s);                 // printable, escaped, shortened
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv(const Str& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ---- called from cases -------------------------------------------------
[[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harness_error(const char* f, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
extern bool g_verbose;                   // replaying one case
void trace_begin();                      // a new evaluation starts
void trace_put(const Str& s);
#define TRACE(...) do { if (g_verbose) trace_put(sfmt(__VA_ARGS__)); } while (0)
void heartbeat();
void n_eval(uint64_t n = 1);             // executions / inputs tried
void n_state(uint64_t n = 1);            // distinct states
void n_trans(uint64_t n = 1);            // transitions taken
void n_valid(uint64_t n = 1);            // model traces validated against the implementation / kernel
void outcome(uint64_t h);                // distinct non-trivial case or observation
inline void outcome(const Str& s) { outcome(fnv(s)); }
void sample(const Str& s);               // keep a few written-out cases
// A divergence the known-findings file may list, identified by `id`.
// Not listed: same as fail().
void finding(const char* id, const char* f, ...) __attribute__((format(printf, 2, 3)));
bool finding_listed(const char* id);

extern bool g_thorough;
extern int g_nworkers;
extern unsigned g_seed;

// ---- called from a check's main function --------------------------------
// Runs fn(0..n-1) in forked workers.
Str scratch_dir(bool memory = false);   // for real files; removed in the end
void suite(const char* name, uint64_t n, const std::function<void(uint64_t)>& fn, const char* rule);
// Same, but collects a string from every case (in index order).
std::vector<Str> suite_map(const char* name, uint64_t n, const std::function<Str(uint64_t)>& fn, const char* rule);
void note_capped(const char* why);       // exploration was cut: not exhaustive
double time_left();                      // seconds left of the time budget of the check (quick tier; otherwise: plenty)
void note_bound(const char* what);         // a stated bound below which everything was covered
void assumption(const char* s);

struct CheckDef { const char* id; const char* level; const char* rule; void (*run)(); };
#define CHECK_DEF(ID, LEVEL, RULE) \
  static void run_##ID(); \
  static struct Reg_##ID { Reg_##ID() { register_check({#ID, LEVEL, RULE, run_##ID}); } } reg_##ID; \
  static void run_##ID()
void register_check(const CheckDef& d);

// Depth-first exploration of choice sequences with a bound on deviations
// from choice 0.
struct Explorer {
  struct Pt { int c, n; bool cost; };
  std::vector<Pt> st; size_t pos = 0; int bound = 1 << 30; int dev = 0; uint64_t runs = 0;
  void begin() { pos = 0; dev = 0; }
  int choose(int n, bool cost = true) {
    if (n <= 1) return 0;
    if (pos < st.size()) {
      Pt& p = st[pos];
      if (p.n != n) harness_error("explorer: divergence while replaying a prefix (point %zu: %d vs %d)", pos, p.n, n);
      pos++;
      if (p.c && p.cost) dev++;
      return p.c;
    }
    st.push_back({0, n, cost}); pos++;
    return 0;
  }
  // advance to the next unexplored choice sequence
  bool next() {
    st.resize(pos);
    while (!st.empty()) {
      Pt& p = st.back();
      int d = 0; for (size_t i = 0; i + 1 < st.size(); i++) if (st[i].c && st[i].cost) d++;
      if (p.c + 1 < p.n && (!p.cost || d + 1 <= bound)) { p.c++; return true; }
      st.pop_back();
    }
    return false;
  }
  Str str() const { Str s; for (size_t i = 0; i < pos && i < st.size(); i++) { s += sfmt("%s%d", i ? "," : "", st[i].c); } return s; }
};
template <class F> uint64_t explore(int bound, F run) {
  Explorer ex; ex.bound = bound; uint64_t n = 0;
  do { ex.begin(); run(ex); n++; heartbeat(); } while (ex.next());
  return n;
}
