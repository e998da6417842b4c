// C23-C26: sets of files written and read by several processes.
#include "fakempi.h"
#include "faults.h"
#include "groups.h"
#include "conform.h"
#include "model.h"
#include <algorithm>
#include <array>
extern "C" {
#include "kvtree_mpi.h"
extern unsigned long kvtree_verif_segsize __attribute__((weak));
}
static bool hooked() { return &kvtree_verif_segsize != nullptr; }
static void seg(unsigned long n) { if (hooked()) kvtree_verif_segsize = n; }
static Str tail_name(const Str& p) { return p.substr(strlen(VROOT) + 1); }
// a tree whose packed size is about n bytes (at least 24), specific to process r
static T sized(int r, long n, int gen) { T t; t.put("who").put(sfmt("%d.%d", r, gen)); if (n > 40) t.put(Str(n - 40, 'a' + r % 26)); return t; }
static const T& prior(int k) { static const T p[] = {parse(""), parse("a(old) who(x) 0(junk(x))"), parse("RANK(0(z)) LEVEL(7)")}; return p[k % 3]; }
struct Res { std::vector<int> rc; std::vector<T> out; };
typedef std::function<int(const std::vector<int>&, int)> Pick;
static void start(const Grp& g, const MpiMode& m, const Pick& pick) { (void)g; mpi_mode = m; sched.pick = pick; }
// writes; checks that all agree; returns the common status
static bool gather(const Grp& g, const Str& prefix, const std::vector<T>& t, const MpiMode& m, const Pick& pick = nullptr) {
  start(g, m, pick); std::vector<int> rc(g.n(), 99); Leaks lk; n_eval(); std::vector<kvtree*> h(g.n(), nullptr); std::vector<Str> before(g.n());
  run_on(g, [&](int r, MPI_Comm c) { kvtree* x = build(t[r]); Str b = ordered(observe(x)); rc[r] = kvtree_write_gather(prefix.c_str(), x, c); CHECK(ordered(observe(x)) == b, "kvtree_write_gather changed the tree of process %d", r); kvtree_delete(&x); });
  for (int r = 1; r < g.n(); r++) CHECK((rc[r] == KVTREE_SUCCESS) == (rc[0] == KVTREE_SUCCESS), "kvtree_write_gather reports %s on process %d but %s on process 0", rc[r] == KVTREE_SUCCESS ? "success" : "failure", r, rc[0] == KVTREE_SUCCESS ? "success" : "failure");
  for (int w = 0; w < g.world; w++) { CHECK(vfs.open_fds(w) == 0, "kvtree_write_gather leaves descriptors open"); } CHECK(vfs.bad_fd_ops == 0, "kvtree_write_gather uses a descriptor that is not open");
  lk.check("kvtree_write_gather"); n_trans(mpi_stats.sends + mpi_stats.colls);
  return rc[0] == KVTREE_SUCCESS;
}
// reads; on success every process must hold `want` merged into what it held, otherwise what it held
static bool scatter(const Grp& g, const Str& prefix, const std::vector<T>* want, const MpiMode& m, int had, const Pick& pick = nullptr) {
  start(g, m, pick); std::vector<int> rc(g.n(), 99); std::vector<T> out(g.n()); Leaks lk; n_eval();
  run_on(g, [&](int r, MPI_Comm c) { kvtree* x = build(prior(had + r)); rc[r] = kvtree_read_scatter(prefix.c_str(), x, c); out[r] = observe(x); kvtree_delete(&x); });
  for (int r = 1; r < g.n(); r++) CHECK((rc[r] == KVTREE_SUCCESS) == (rc[0] == KVTREE_SUCCESS), "kvtree_read_scatter reports %s on process %d but %s on process 0", rc[r] == KVTREE_SUCCESS ? "success" : "failure", r, rc[0] == KVTREE_SUCCESS ? "success" : "failure");
  bool ok = rc[0] == KVTREE_SUCCESS; CHECK(!ok || want, "kvtree_read_scatter reports success");
  for (int r = 0; r < g.n(); r++) {
    Str w = canon(ok ? tunion(prior(had + r), (*want)[r]) : prior(had + r));
    CHECK(canon(out[r]) == w, "kvtree_read_scatter reports %s, but process %d holds %s", ok ? "success" : "failure", r, ok ? ("{" + cdesc(out[r]) + "} instead of {" + cdesc((*want)[r]) + "} merged into {" + cdesc(prior(had + r)) + "}").c_str() : ("{" + cdesc(out[r]) + "}").c_str());
  }
  for (int w = 0; w < g.world; w++) CHECK(vfs.open_fds(w) == 0, "kvtree_read_scatter leaves descriptors open"); CHECK(vfs.bad_fd_ops == 0, "kvtree_read_scatter uses a descriptor that is not open");
  lk.check("kvtree_read_scatter"); n_trans(mpi_stats.sends + mpi_stats.colls);
  return ok;
}
static T all_of(const std::vector<T>& t) { T s; for (size_t r = 0; r < t.size(); r++) s.k.push_back({sfmt("%zu", r), t[r]}); return s; }
static bool single(const Str& prefix, const T* want, int had) {
  Leaks lk; kvtree* h = build(prior(had)); n_eval(); bool ok = kvtree_read_scatter_single(prefix.c_str(), h) == KVTREE_SUCCESS; T g = observe(h);
  if (ok) { CHECK(want, "kvtree_read_scatter_single reports success"); CHECK(canon(g) == canon(tunion(prior(had), *want)), "kvtree_read_scatter_single yields {%s} instead of {%s}", cdesc(g).c_str(), cdesc(*want).c_str()); }
  else CHECK(canon(g) == canon(prior(had)), "kvtree_read_scatter_single fails but changed the tree to {%s}", cdesc(g).c_str());
  kvtree_delete(&h); lk.check("kvtree_read_scatter_single"); CHECK(vfs.open_fds(vfs.cur) == 0, "kvtree_read_scatter_single leaves descriptors open"); return ok;
}
// a prefix of exactly n characters, in directories with names of up to 200
static Str long_prefix(int n) { Str p; while ((int)p.size() + 240 < n) p += Str(200, 'd') + "/"; while ((int)p.size() < n) p += 's'; return p; }
static std::vector<int> long_lengths() { std::vector<int> v = {200, 250, 700, 2000, 3000, 4000}; for (int b : {255, 512, 1024, 2048}) for (int d = -12; d <= 3; d++) v.push_back(b + d); for (int b = 4080; b < 4100; b++) v.push_back(b); return v; }
// writes and reads under such a prefix; w: writer (0 parallel, 1 one rank per file, 2 in one file)
static bool serial_write(const Str& prefix, const T& t, int ranks, long per);
static Str sizes_str(const std::vector<long>& s) { Str o; for (long x : s) o += sfmt(" %ld", x); return o; }
static std::vector<T> trees_of(const std::vector<long>& s, int gen) { std::vector<T> t; for (size_t i = 0; i < s.size(); i++) t.push_back(sized(i, s[i], gen)); return t; }
static int nfiles() { int n = 0; for (auto& f : vfs.names) if (!f.second->dir) n++; return n; }
static int levels_on_disk() { int l = 0; for (auto& f : vfs.names) if (!f.second->dir) { T t; if (dec_image(f.second->data, t) == 0) if (const T* x = t.get("LEVEL")) if (x->k.size()) l = std::max(l, atoi(x->k[0].first.c_str())); } return l; }
static auto& MODES() { static auto m = mpi_modes(); return m; }
static const MpiMode& mode(uint64_t i) { return MODES()[i % MODES().size()]; }
// every file on disk is a complete image and every process's data is stored exactly once
static void check_disk(const std::vector<T>& t, const char* what) {
  std::map<int, Str> got;
  for (auto& f : vfs.names) if (!f.second->dir) { T d; CHECK(dec_image(f.second->data, d) == 0, "%s reports success but %s is not a complete image", what, tail_name(f.first).c_str()); const T* l = d.get("LEVEL"); if (l && l->get("0")) if (const T* r = d.get("RANK")) for (auto& e : r->k) got[atoi(e.first.c_str())] = canon(e.second); }
  for (size_t r = 0; r < t.size(); r++) CHECK(got.count(r) && got[r] == canon(t[r]), "%s reports success but no file holds the data of process %zu", what, r);
}

// ---- C23 -------------------------------------------------------------------------
static void round_trip(const Grp& g, unsigned long sg, const std::vector<T>& t, const MpiMode& m, int had, const Pick& pick = nullptr) {
  CHECK(gather(g, "set", t, m, pick), "kvtree_write_gather fails"); CHECK(scatter(g, "set", &t, m, had, pick), "kvtree_read_scatter fails"); (void)sg;
}
static void long_one(int len, int n, int w, int k) {
  Str p = long_prefix(len); auto t = trees_of(std::vector<long>(n, k & 2 ? 170 : 30), k); trace_begin(); TRACE("prefix of %d characters, %d processes, writer %d", len, n, w); vfs.reset(n); size_t sl = p.rfind('/'); if (sl != Str::npos) vfs.put(p.substr(0, sl) + "/keep", "x"); seg(k & 1 ? 128 : 0);
  bool ok = w == 0 ? gather(whole(n), p, t, mode(k)) : serial_write(p, all_of(t), n, w == 1 ? 1 : 0), must = len + 8 < 4096; CHECK(ok || !must, "a set cannot be written under a prefix of %d characters", len);
  bool r = scatter(whole(n), p, &t, mode(k + 1), k); CHECK(r == ok || !must, "a set cannot be read under a prefix of %d characters", len); CHECK(r || !ok, "kvtree_read_scatter fails on a set written under a prefix of %d characters", len);
  T all = all_of(t); bool q = single(p, &all, k); CHECK(q || !ok, "kvtree_read_scatter_single fails on a set written under a prefix of %d characters", len); outcome(len * 64 + n * 16 + w * 4 + k + 77000000); n_valid();
}
CHECK_DEF(C23, "exploration", "a case is one gather and scatter with one assignment of sizes, segment size, communicator, mode and schedule; distinct_nontrivial counts distinct (sizes, segment size, mode)") {
  if (!hooked()) note_capped("the library has no segment size hook: only sizes around 1 MB produce several part files");
  const unsigned long SG = 160;
  static const long cls[] = {0, 50, 79, 80, 81, 120, 158, 159, 160, 161, 162, 330}; const int NC = sizeof cls / sizeof *cls;
  struct A { int n; std::vector<int> c; }; static std::vector<A> as;
  for (int n = 1; n <= 4; n++) { std::vector<int> c(n, 0); for (;;) { as.push_back({n, c}); int k = 0; while (k < n && ++c[k] == NC) c[k++] = 0; if (k == n) break; } }
  { const int few[] = {0, 2, 8, 11, 5}; for (int n = 5; n <= 6; n++) { int q = n == 6 ? (g_thorough ? 4 : 3) : g_thorough ? 5 : 4; std::vector<int> c(n, 0); for (;;) { A a; a.n = n; for (int x : c) a.c.push_back(few[x]); as.push_back(a); int k = 0; while (k < n && ++c[k] == q) c[k++] = 0; if (k == n) break; } } }
  auto run = [](const Grp& g, unsigned long sg, const std::vector<long>& s, const MpiMode& m, int k) {
    trace_begin(); TRACE("sizes%s on %s, segments of %lu bytes, %s", sizes_str(s).c_str(), grp_str(g).c_str(), sg, mpi_mode_str(m).c_str());
    vfs.reset(g.world); seg(sg); auto t = trees_of(s, k); round_trip(g, sg, t, m, k); check_disk(t, "kvtree_write_gather"); uint64_t h = fnv(&s[0], s.size() * 8, sg); outcome(h + g.world * 31 + g.mem[0] + m.order * 7 + m.sync_send + m.late_copy * 3 + m.sync_coll * 5); n_state(); n_valid();
  };
  suite("sizes", as.size(), [&](uint64_t i) {
    std::vector<long> s; for (int c : as[i].c) s.push_back(cls[c]);
    for (int k = 0; k < (as[i].n <= 2 ? 32 : as[i].n == 3 ? 3 : 2); k++) run(whole(as[i].n), k % 3 == 2 ? 128 : SG, s, mode(i * 3 + k * 5), k);
  }, "all assignments of 12 sizes around the segment boundary to 1 to 4 processes, of 4 (thorough 5) to 5 and 3 (thorough 4) to 6; changing modes, all 32 for up to 2 processes");
  // files of every size: one tree per file, so that its size follows that of the tree
  static auto ES = exact_sizes(50, g_thorough ? 6000 : 1200, g_thorough ? 20 : 16, -110, 4);
  suite("exact-sizes", (ES.size() + 7) / 8, [&](uint64_t b) { for (size_t i = b * 8; i < std::min(ES.size(), (size_t)b * 8 + 8); i++) run(whole(1 + i % 2), 128, i % 2 ? std::vector<long>{(long)ES[(i * 31 + 7) % 1000], (long)ES[i]} : std::vector<long>{(long)ES[i]}, mode(i * 5), i); }, "trees of every size from 50 to 1200 (6000) bytes and from 110 bytes below to 4 above every power of two up to 2^16 (2^20), one per file, 1 and 2 processes");
  suite("descriptors", 7 * 5, [&](uint64_t i) { int n = i / 7 + 1; vfs.free_low = i % 7 + 1; for (int k = 0; k < 32; k++) { std::vector<long> s; for (int r = 0; r < n; r++) s.push_back((r + k) % 3 * 85); run(whole(n), 128, s, MODES()[k], k); } vfs.free_low = 0; }, "some of the descriptors 0 to 2 free on every process, 1 to 5 processes, 32 modes");
  suite("many", 70, [&](uint64_t i) {
    int n = i < 65 ? i + 1 : (const int[]){99, 100, 101, 127, 200}[i - 65]; int mx = 0;
    for (unsigned long sg : {128ul, 160ul, 300ul, 1000ul, 5000ul}) for (int p = 0; p < 6; p++) {
      if (!g_thorough && n > 24 && (p + n + sg / 100) % 3) continue;
      std::vector<long> s; for (int r = 0; r < n; r++) s.push_back(p == 0 ? 0 : p == 1 ? (long)sg : p == 2 ? (r % 3 ? 0 : (long)sg + 5) : p == 3 ? (r * 37 % 200) : p == 4 ? (r == n - 1 ? 3 * (long)sg : 20) : (r < n / 2 ? 2 * (long)sg : 0));
      run(whole(n), sg, s, mode(i * 7 + p + sg), p); mx = std::max(mx, levels_on_disk());
    }
    if (n == 64 && hooked()) CHECK(mx >= 3, "internal: only %d map levels were reached", mx);
  }, "1 to 65, 99 to 101, 127 and 200 processes x segments of 128 to 5000 bytes x 6 distributions of sizes: up to several map levels");
  static const int VM[] = {96, 128, 129, 192, 256, 300};
  suite("very-many", (g_thorough ? 6 : 5) * 3, [&](uint64_t i) {
    int n = VM[i / 3], p = i % 3; std::vector<long> s; for (int r = 0; r < n; r++) s.push_back(p == 0 ? 170 : p == 1 ? (r % 5 ? 0 : 200) : (r * 31 % 190));
    run(whole(n), 128, s, mode(i * 5), i); if (p == 0 && n >= 256 && hooked()) CHECK(levels_on_disk() >= 5, "internal: only %d map levels were reached", levels_on_disk());
  }, "96 to 256 (thorough 300) processes, segments of 128 bytes: five and more map levels");
  suite("trees", 64, [&](uint64_t i) {
    static std::vector<T> U = universe(4, {"a", "b"});
    for (int k = 0; k < 32; k++) { std::vector<T> t = {U[i % U.size()], U[(i * 5 + k) % U.size()], T(), U[(i + k * 3) % U.size()]}; t[1].put("0").put("RANK"); t[3].put("FILE").put("x"); trace_begin(); TRACE("trees {%s} {%s} {} {%s}, %s", cdesc(t[0]).c_str(), cdesc(t[1]).c_str(), cdesc(t[3]).c_str(), mpi_mode_str(mode(k)).c_str()); vfs.reset(4); seg(k % 2 ? 128 : 0); round_trip(whole(4), 0, t, mode(k), k); outcome(i * 32 + k); n_valid(); }
  }, "all trees of up to 4 entries over 2 keys, with keys the file format uses itself, 4 processes, 32 modes");
  suite("communicators", 5, [&](uint64_t i) {
    int n = i + 1; auto gs = groups(n, n <= 4); int k = 0;
    for (auto& g : gs) for (int p = 0; p < 8; p++) { k++; std::vector<long> s; for (int r = 0; r < n; r++) s.push_back(p & 1 ? 170 : p & 2 ? r * 60 : p & 4 ? (r % 2) * 170 : 0); run(g, 160, s, mode(k), p); }
  }, "reordered and partial communicators of 1 to 5 processes");
  suite("bystanders", 15 * 6, [&](uint64_t i) {
    int n = i / 15 + 1; for (int k = 0; k < 32; k++) { g_bystand = i % 15 + 1; std::vector<long> s; for (int r = 0; r < n; r++) s.push_back(k & 1 ? 170 : k & 2 ? r * 60 : k & 4 ? (r % 2) * 170 : 0); run(whole(n), 160, s, mode(k), k); } g_bystand = 0;
  }, "1 to 6 processes while messages of the application are under way: on the same communicator with another tag, on another communicator, received before or after, 15 combinations x 32 modes");
  // rewriting the same prefix with another partition, another number of processes
  static std::vector<std::array<int, 3>> rw; for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) for (int c = 0; c < (g_thorough ? 16 : 4); c++) rw.push_back({a, b, c * (g_thorough ? 1 : 4) + c});
  suite("rewrites", rw.size(), [&](uint64_t i) {
    trace_begin(); TRACE("three sets under the same prefix: %d %d %d", rw[i][0], rw[i][1], rw[i][2]); vfs.reset(12); n_state();
    for (int z = 0; z < 3; z++) { int x = rw[i][z] % 16; int n = (const int[]){3, 4, 6, 12}[x & 3]; unsigned long sg = (x >> 2) & 1 ? 128 : 1000; std::vector<long> s; for (int r = 0; r < n; r++) s.push_back((x >> 3) & 1 ? 170 : (r % 2) * 140); Grp g = whole(n); g.world = 12; seg(sg); auto t = trees_of(s, z + x * 3); TRACE("  %d processes, segments of %lu:%s", n, sg, sizes_str(s).c_str()); round_trip(g, sg, t, mode(i + z * 9), z); T w = all_of(t); CHECK(single("set", &w, z), "kvtree_read_scatter_single fails"); }
    outcome(i + 77000000); n_valid();
  }, "every sequence of 3 sets out of 16 (process counts 3, 4, 6, 12, segment sizes, data sizes; quick: 4 for the third) written under one prefix");
  static auto LL = long_lengths();
  suite("long-prefixes", LL.size() * 3, [&](uint64_t i) { for (int k = 0; k < 4; k++) long_one(LL[i / 3], i % 3 + 1, 0, k); }, "prefixes of up to 4100 characters around powers of two and the longest possible path, 1 to 3 processes");
  suite("prefixes", 8, [&](uint64_t i) {
    const char* nm[] = {"set", "a b", "d/e/set", "s.0.1", "100%d", "*?[x]{y}~", "x,y;z&\"'", "./set"}; Str p = nm[i]; for (int n = 1; n <= 5; n++) for (int k = 0; k < 8; k++) { trace_begin(); TRACE("prefix %s, %d processes", p.c_str(), n); vfs.reset(n); vfs.put("d/e/keep", "x"); seg(k & 1 ? 128 : 0); std::vector<long> s; for (int r = 0; r < n; r++) s.push_back(k & 2 ? 170 : 30); auto t = trees_of(s, k); start(whole(n), mode(k), nullptr); CHECK(gather(whole(n), p, t, mode(k)), "kvtree_write_gather fails"); CHECK(scatter(whole(n), p, &t, mode(k), k), "kvtree_read_scatter fails"); outcome(i * 64 + n * 8 + k + 88000000); n_valid(); }
  }, "8 prefixes with directories and special characters, 1 to 5 processes");
  suite("schedules", 6 * 6, [&](uint64_t i) {
    int n = 2 + (i / 6) % 3, p = i % 6; std::vector<long> s; for (int r = 0; r < n; r++) s.push_back(p & 1 ? 170 : p & 2 ? r * 90 : 0); auto t = trees_of(s, p);
    for (auto& m : completion_modes()) schedules(n == 2 ? (g_thorough ? 4 : 3) : n == 3 ? (g_thorough ? 2 : 1) : 1, [&](const Pick& pick) { trace_begin(); TRACE("schedule: sizes%s, %s", sizes_str(s).c_str(), mpi_mode_str(m).c_str()); vfs.reset(n); seg(p & 4 ? 1000 : 128); if (i / 18) { start(whole(n), mode(0), nullptr); gather(whole(n), "set", t, mode(0)); CHECK(scatter(whole(n), "set", &t, m, p, pick), "kvtree_read_scatter fails"); } else { CHECK(gather(whole(n), "set", t, m, pick), "kvtree_write_gather fails"); check_disk(t, "kvtree_write_gather"); } n_valid(); });
    outcome(i + 99000000);
  }, "2 to 4 processes, all schedules with up to 3 (2 processes; thorough 4) or 1 (more; thorough 2 for 3) deviations from the default order at message calls, every completion mode");
  // the real segment size
  suite("megabytes", g_thorough ? 300 : 60, [&](uint64_t i) {
    const long M = 1 << 20; const long sz[] = {20, M / 2, M - 30, M - 1, M, M + 1, 3 * M}; int n = i < 30 ? 2 : 3; uint64_t x = i * 2654435761u >> 7; std::vector<long> s; for (int r = 0; r < n; r++) { s.push_back(sz[(i < 49 ? (r == 0 ? i : r == 1 ? i / 7 : x) : x >> (r * 4)) % 7]); }
    run(whole(n), 0, s, mode(i), i);
  }, "real segments of 1 MB: sizes from 20 bytes to 3 MB on 2 and 3 processes");
  real_suite(real::FILES);
}

// ---- C24 -------------------------------------------------------------------------
struct Lay { int n; unsigned long sg; std::vector<long> s; };
static std::vector<Lay> layouts() { std::vector<Lay> v = {{1, 0, {30}}, {2, 0, {30, 0}}, {2, 128, {170, 170}}, {3, 128, {60, 170, 0}}, {4, 128, {170, 170, 170, 170}}, {5, 128, {30, 170, 40, 170, 60}}, {8, 128, {170, 0, 170, 0, 170, 170, 170, 170}}}; if (!hooked()) for (auto& l : v) l.sg = 0; return v; }
struct Set { Lay l; std::vector<T> t; std::vector<std::pair<Str, Str>> files; };
static Set make_set(const Lay& l, int serial) {
  Set s; s.l = l; s.t = trees_of(l.s, 1); vfs.reset(l.n); seg(l.sg);
  if (!serial) { if (!gather(whole(l.n), "set", s.t, mode(0))) fail("kvtree_write_gather fails"); }
  else { kvtree* h = build(all_of(s.t)); setenv("KVTREE_ENTRIES_PER_FILE", sfmt("%d", serial).c_str(), 1); if (kvtree_write_to_gather("set", h, l.n) != KVTREE_SUCCESS) fail("kvtree_write_to_gather fails"); unsetenv("KVTREE_ENTRIES_PER_FILE"); kvtree_delete(&h); }
  for (auto& f : vfs.names) if (!f.second->dir) s.files.push_back({tail_name(f.first), f.second->data});
  return s;
}
static void put_set(const Set& s, int procs, int skip = -1, const Str* instead = nullptr) { vfs.reset(procs); for (size_t i = 0; i < s.files.size(); i++) { if ((int)i == skip && !instead) continue; vfs.put(s.files[i].first, (int)i == skip ? *instead : s.files[i].second); } }
static void read_damaged(const Set& s, uint64_t k, bool may_succeed = true) {
  scatter(whole(s.l.n), "set", may_succeed ? &s.t : nullptr, mode(k), k % 3);
  if (k % 4 == 0) { T w = all_of(s.t); single("set", may_succeed ? &w : nullptr, k % 3); }
  n_valid();
}
CHECK_DEF(C24, "exploration", "a case is one damaged set of files read by one group of processes; distinct_nontrivial counts distinct (set, damage)") {
  static auto L = layouts(); static std::vector<Set> S; suite("sets", 1, [](uint64_t) { for (auto& l : L) { trace_begin(); TRACE("preparing sets"); make_set(l, 0); } }, "the undamaged sets can be written");
  { static bool done = false; if (!done) { done = true; for (auto& l : L) { S.push_back(make_set(l, 0)); } for (int per : {1, 2}) S.push_back(make_set(L[5], per)); } }
  struct C { int s, f; }; static std::vector<C> cs; for (size_t i = 0; i < S.size(); i++) for (size_t f = 0; f < S[i].files.size(); f++) cs.push_back({(int)i, (int)f});
  auto head = [](const Set& s, const Str& what) { trace_begin(); TRACE("set of %d processes, sizes%s, segments of %lu: %s", s.l.n, sizes_str(s.l.s).c_str(), s.l.sg, what.c_str()); };
  suite("removal", cs.size(), [&](uint64_t i) { const Set& s = S[cs[i].s]; head(s, s.files[cs[i].f].first + " is missing"); for (int k = 0; k < 32; k++) { put_set(s, s.l.n, cs[i].f); read_damaged(s, k, false); outcome(i * 32 + k); } head(s, s.files[cs[i].f].first + " is a directory"); put_set(s, s.l.n, cs[i].f); vfs.put(s.files[cs[i].f].first, "")->dir = true; read_damaged(s, i, false); }, "every file of every set missing or replaced by a directory, 32 modes");
  suite("truncation", cs.size(), [&](uint64_t i) { const Set& s = S[cs[i].s]; const Str& d = s.files[cs[i].f].second; for (size_t n = 0; n < d.size(); n++) { head(s, s.files[cs[i].f].first + sfmt(" is cut to %zu of %zu bytes", n, d.size())); Str x = d.substr(0, n); put_set(s, s.l.n, cs[i].f, &x); read_damaged(s, i * 7 + n, false); outcome((i << 20) + n + (1ull << 40)); } }, "every length of every file");
  suite("bytes", cs.size(), [&](uint64_t i) {
    const Set& s = S[cs[i].s]; const Str& d = s.files[cs[i].f].second; int many = d.size() > 100 && !g_thorough && s.l.n > 3;
    for (size_t at = 0; at < d.size(); at++) for (int b = 0; b < 12; b++) {
      if (many && (at + b) % 3) continue;
      Str x = d; if (b < 8) x[at] ^= 1 << b; else x[at] = b == 8 ? 0 : b == 9 ? 0xff : b == 10 ? '0' + (d[at] == '0') : d[at] + 1; if (x == d) continue;
      head(s, s.files[cs[i].f].first + sfmt(": byte %zu of %zu changed from %02x to %02x", at, d.size(), (unsigned char)d[at], (unsigned char)x[at]));
      put_set(s, s.l.n, cs[i].f, &x);
      read_damaged(s, i * 7 + at + b, true); outcome((i << 20) + at * 16 + b + (1ull << 41));
    }
  }, "every single bit and four other values of every byte of every file (quick: a third of it in larger sets)");
  suite("pairs", cs.size() * 8, [&](uint64_t z) {
    uint64_t i = z / 8; int kind = z % 8; const Set& s = S[cs[i].s]; size_t nf = s.files.size();
    for (size_t g = 0; g < nf; g++) { if ((int)g == cs[i].f) continue; head(s, s.files[cs[i].f].first + " and " + s.files[g].first + sfmt(" damaged (%d)", kind)); put_set(s, s.l.n);
      auto harm = [&](int f, int how) { const Str& p = s.files[f].first; InodeP o = vfs.lookup(Str(VROOT "/") + p); if (how == 0) vfs.names.erase(VROOT "/" + p); else if (how == 1) o->data = ""; else if (how == 2) o->data.resize(o->data.size() - 1); else o->data[o->data.size() / 2] ^= 0x10; };
      harm(cs[i].f, kind % 4); harm(g, kind / 4 ? 3 : 1 - (kind & 1)); read_damaged(s, z * 3 + g, false); outcome((z << 8) + g + (1ull << 42)); }
  }, "every pair of files missing, empty, cut or altered");
  suite("appended", cs.size(), [&](uint64_t i) { const Set& s = S[cs[i].s]; for (size_t n : {1, 20, 1000}) { head(s, s.files[cs[i].f].first + sfmt(" has %zu bytes appended", n)); Str x = s.files[cs[i].f].second + Str(n, 'x'); put_set(s, s.l.n, cs[i].f, &x); read_damaged(s, i + n, true); outcome((i << 12) + n + (1ull << 43)); } }, "bytes appended to every file");
  int MAXR = g_thorough ? 24 : 12;
  suite("readers", S.size() * MAXR, [&](uint64_t i) { const Set& s = S[i / MAXR]; int n = i % MAXR + 1; if (n == s.l.n) return; for (int k = 0; k < 32; k++) { head(s, sfmt("read by %d processes, %s", n, mpi_mode_str(mode(k)).c_str())); put_set(s, n); scatter(whole(n), "set", nullptr, mode(k), k); n_valid(); outcome(i * 32 + k + (1ull << 44)); } }, "every set read by 1 to 12 (24) processes other than those that wrote it, 32 modes");
  // files that are intact but not the ones that belong there: every process must come to the same
  // status, files of a wrong kind must be rejected
  suite("foreign", cs.size(), [&](uint64_t i) {
    const Set& s = S[cs[i].s]; T t; if (dec_image(s.files[cs[i].f].second, t)) harness_error("set file"); std::vector<std::pair<Str, std::pair<T, bool>>> v;   // name, (content, must be rejected)
    int lev = -1; if (T* l = t.get("LEVEL")) lev = atoi(l->k[0].first.c_str()); bool root = s.files[cs[i].f].first == "set";
    for (size_t g = 0; g < s.files.size(); g++) if ((int)g != cs[i].f) { T u; dec_image(s.files[g].second, u); int l2 = atoi(u.get("LEVEL")->k[0].first.c_str()); v.push_back({"a copy of " + s.files[g].first, {u, l2 != lev && !(root && l2 > 0)}}); }
    auto without = [&](const char* k, bool rej) { T u = t; if (u.del(k)) v.push_back({Str("without ") + k, {u, rej}}); };
    without("LEVEL", true); without("RANK", false); if (lev == 0) without("RANKS", true);
    for (int l : {-1, 0, 1, 2, 3, 4, 100}) if (l != lev) { T u = t; u.get("LEVEL")->k.clear(); u.get("LEVEL")->put(sfmt("%d", l)); v.push_back({sfmt("with LEVEL %d", l), {u, true}}); }
    for (int r : {0, -1, s.l.n - 1, s.l.n + 1}) { T u = t; u.get("RANKS")->k.clear(); u.get("RANKS")->put(sfmt("%d", r)); v.push_back({sfmt("with RANKS %d", r), {u, lev == 0}}); }
    if (lev > 0) for (size_t e = 0; e < t.get("RANK")->k.size(); e++) for (const char* k : {"FILE", "OFFSET"}) { T u = t; u.get("RANK")->k[e].second.del(k); v.push_back({sfmt("without %s of entry %zu", k, e), {u, true}}); u = t; u.get("RANK")->k[e].second.get(k)->k.clear(); v.push_back({sfmt("with an empty %s of entry %zu", k, e), {u, true}}); }
    if (lev > 0) for (size_t e = 0; e < t.get("RANK")->k.size(); e++) { T u = t; u.get("RANK")->k[e].second.get("FILE")->k[0].first = ""; v.push_back({sfmt("naming the root map in entry %zu", e), {u, true}}); u.get("RANK")->k[e].second.get("FILE")->k[0].first = ".missing"; v.push_back({sfmt("naming a missing file in entry %zu", e), {u, true}}); u = t; u.get("RANK")->k.erase(u.get("RANK")->k.begin() + e); v.push_back({sfmt("without entry %zu", e), {u, false}}); }
    v.push_back({"the empty tree", {T(), true}}); v.push_back({"another tree", {parse("a(b) RANK(x(y) -1(z) 99(q))"), true}});
    for (auto& x : v) for (int k = 0; k < 8; k++) {
      head(s, s.files[cs[i].f].first + " replaced by a valid file: " + x.first + ", " + mpi_mode_str(mode(k * 5)).c_str()); Str d = enc_image(enc_pack(x.second.first)); put_set(s, s.l.n, cs[i].f, &d);
      start(whole(s.l.n), mode(k * 5), nullptr); std::vector<int> rc(s.l.n, 99); Leaks lk; n_eval();
      run_on(whole(s.l.n), [&](int r, MPI_Comm c) { kvtree* h = build(prior(r)); rc[r] = kvtree_read_scatter("set", h, c); if (rc[r] != KVTREE_SUCCESS) CHECK(canon(observe(h)) == canon(prior(r)), "kvtree_read_scatter fails but changed the tree of process %d", r); kvtree_delete(&h); });
      for (int r = 1; r < s.l.n; r++) CHECK((rc[r] == KVTREE_SUCCESS) == (rc[0] == KVTREE_SUCCESS), "kvtree_read_scatter reports %s on process %d but %s on process 0", rc[r] == KVTREE_SUCCESS ? "success" : "failure", r, rc[0] == KVTREE_SUCCESS ? "success" : "failure");
      if (x.second.second) CHECK(rc[0] != KVTREE_SUCCESS, "kvtree_read_scatter reports success"); lk.check("kvtree_read_scatter"); for (int w = 0; w < s.l.n; w++) CHECK(vfs.open_fds(w) == 0, "kvtree_read_scatter leaves descriptors open"); n_valid(); outcome(fnv(x.first) + i * 131 + k + (1ull << 47));
      if (k == 0) { kvtree* h = build(prior(1)); bool ok = kvtree_read_scatter_single("set", h) == KVTREE_SUCCESS; if (!ok) CHECK(canon(observe(h)) == canon(prior(1)), "kvtree_read_scatter_single fails but changed the tree"); kvtree_delete(&h); }
    }
  }, "every file of every set replaced by every other file of the set, with parts of its bookkeeping missing or wrong, or by other trees, all with correct checksums, 8 modes");
  // an interrupted write under a fresh prefix: any subset of the files, the others missing, empty or cut
  suite("interrupted", S.size(), [&](uint64_t i) {
    const Set& s = S[i]; size_t nf = s.files.size(); int st = nf <= 4 ? 5 : nf <= 6 ? 3 : 2; uint64_t tot = 1; for (size_t f = 0; f < nf; f++) tot *= st; if (tot > 70000) tot = 70000;
    for (uint64_t c = 0; c < tot; c++) { bool whole_set = true; vfs.reset(s.l.n); Str what; uint64_t y = c; for (size_t f = 0; f < nf; f++) { int k = y % st; y /= st; if (k) whole_set = false; const Str& d = s.files[f].second; if (g_verbose) what += sfmt(" %s:%d", s.files[f].first.c_str(), k); if (k == 1) continue; vfs.put(s.files[f].first, k == 0 ? d : k == 2 ? Str() : k == 3 ? d.substr(0, d.size() / 2) : d.substr(0, 20)); }
      head(s, "files present (0), missing (1), empty (2), cut (3, 4):" + what); bool ok = scatter(whole(s.l.n), "set", &s.t, mode(c), c % 3); if (!whole_set) CHECK(!ok, "kvtree_read_scatter reports success although the set is not complete"); else CHECK(ok, "kvtree_read_scatter fails although the set is complete"); n_state(); n_valid(); outcome((i << 24) + c + (1ull << 45)); }
  }, "every combination of complete, missing, empty and cut files of every set");
  // prefixes of the real effects in several schedules
  suite("effects", L.size() * 8, [&](uint64_t z) {
    const Lay& l = L[z / 8]; auto t = trees_of(l.s, 1); Set s; s.l = l; s.t = t; vfs.reset(l.n); seg(l.sg); vfs.log_effects = true; trace_begin(); gather(whole(l.n), "set", t, mode(z * 5)); std::vector<Eff> ef; ef.swap(vfs.effects); vfs.log_effects = false;
    for (size_t k = 0; k <= ef.size(); k++) {
      size_t tn = k < ef.size() && ef[k].k == Eff::WRITE ? ef[k].data.size() : 1;
      for (size_t c = 0; c < tn; c++) {
        vfs.reset(l.n); std::map<int, Str> names; std::map<int, Str> data; for (size_t j = 0; j <= k && j < ef.size(); j++) { auto& e = ef[j]; if (e.k == Eff::CREATE && j < k) names[e.ino] = e.path; else if (e.k == Eff::TRUNC && j < k) data[e.ino].resize(e.off); else if (e.k == Eff::WRITE && (j < k || c)) { Str& d = data[e.ino]; size_t n = j < k ? e.data.size() : c; if (d.size() < e.off + n) d.resize(e.off + n); memcpy(&d[e.off], e.data.data(), n); } }
        for (auto& n : names) vfs.put(n.second, data[n.first]);
        head(s, sfmt("the write stops after %zu of %zu effects and %zu bytes", k, ef.size(), c)); bool ok = scatter(whole(l.n), "set", &t, mode(z + k + c), c % 3); if (k == ef.size()) CHECK(ok, "kvtree_read_scatter fails although the write is complete"); n_state(); n_valid(); outcome((z << 24) + (k << 12) + c + (1ull << 46));
      }
    }
  }, "every prefix of the effects of the write in 8 modes, the last write torn at every byte");
  seg(0);
}

// ---- C25 -------------------------------------------------------------------------
static std::vector<Lay> fault_layouts() { std::vector<Lay> v = {{1, 0, {30}}, {2, 0, {30, 0}}, {2, 128, {170, 170}}, {3, 128, {60, 170, 170}}, {4, 128, {170, 30, 170, 170}}, {6, 128, {170, 170, 30, 170, 170, 170}}}; if (!hooked()) for (auto& l : v) l.sg = 0; return v; }
template <class F> static void with_faults(F choose, bool intr_only_menu, bool& real_fault, const std::function<void()>& body) {
  std::map<std::pair<int, int>, Ans> sticky; real_fault = false; auto m = std::make_shared<std::vector<Alt>>();
  vfs.before = [&sticky, &real_fault, m, choose, intr_only_menu](Sys& s) -> Ans {
    auto key = std::make_pair(s.proc, (int)s.op); auto it = sticky.find(key); if (it != sticky.end()) return it->second;
    menu(s, *m, intr_only_menu); if (m->empty()) return Ans(); int c = choose(m->size() + 1); if (!c) return Ans();
    const Alt& a = (*m)[c - 1]; if (!a.intr) real_fault = true; if (a.persist) sticky[key] = a.a;
    if (g_verbose) TRACE("    fault on process %d: %s %s: %s%s", s.proc, sysop_name[s.op], s.path.c_str(), ans_str(a.a).c_str(), a.persist ? ", from now on" : "");
    return a.a;
  };
  body(); vfs.before = nullptr;
}
CHECK_DEF(C25, "model_checking", "a case is one gather or scatter under one set of system call faults on the processes; distinct_nontrivial counts distinct (layout, operation, faults, status)") {
  static auto L = fault_layouts(); static std::vector<Set> S; { for (auto& l : L) S.push_back(make_set(l, 0)); }
  const int SPLIT = 32;
  auto one = [](int li, bool wr, uint64_t mk_, bool intr, const std::function<int(int)>& choose) {
    const Lay& l = L[li]; const Set& s = S[li]; bool real = false, ok = false; trace_begin(); TRACE("%s on %d processes, sizes%s, segments of %lu, %s", wr ? "kvtree_write_gather" : "kvtree_read_scatter", l.n, sizes_str(l.s).c_str(), l.sg, mpi_mode_str(mode(mk_)).c_str());
    seg(l.sg); if (wr) vfs.reset(l.n); else put_set(s, l.n);
    with_faults(choose, intr, real, [&] { ok = wr ? gather(whole(l.n), "set", s.t, mode(mk_)) : scatter(whole(l.n), "set", &s.t, mode(mk_), mk_ % 3); });
    if (!real) CHECK(ok, "%s fails although calls were only interrupted or transferred fewer bytes", wr ? "kvtree_write_gather" : "kvtree_read_scatter");
    if (ok && wr) { check_disk(s.t, "kvtree_write_gather"); CHECK(scatter(whole(l.n), "set", &s.t, mode(0), 0), "kvtree_write_gather reports success but the set can not be read"); }
    n_valid(); return ok;
  };
  suite("faults", L.size() * 2 * SPLIT, [&](uint64_t i) {
    int part = i % SPLIT; bool wr = i / SPLIT % 2; int li = i / SPLIT / 2; int b = g_thorough ? (L[li].n <= 3 ? 3 : 2) : 2;
    explore(b, [&](Explorer& ex) { uint64_t h = 0; int nf = 0; size_t pt = 0; bool ok = one(li, wr, i, false, [&](int n) { if (nf == 0 && (int)(pt % SPLIT) != part) { pt++; return 0; } pt++; int c = ex.choose(n); if (c) { nf++; h = h * 1000003 + pt * 64 + c; } return c; }); n_state(); n_trans(); if (nf) outcome(h * 4 + ok * 2 + wr + li * 1000033); });
  }, "gather and scatter on 6 layouts (1 to 6 processes, 1 to 3 map levels) with every set of up to 2 (thorough: 3 up to 3 processes) faults in the file system calls of all processes");
  suite("modes", L.size() * 2 * 32, [&](uint64_t i) {
    int m = i % 32; bool wr = i / 32 % 2; int li = i / 64;
    explore(1, [&](Explorer& ex) { uint64_t h = 0; size_t pt = 0; bool ok = one(li, wr, m, false, [&](int n) { pt++; int c = ex.choose(n); if (c) h = pt * 64 + c; return c; }); n_state(); outcome(h * 4 + ok * 2 + wr + li * 1000033 + m * 7919 + (1ull << 50)); });
  }, "every single fault in every mode of the message layer");
  suite("interruptions", L.size() * 2 * 3 * 40, [&](uint64_t i) {
    size_t k = i % 40 + 1; int pol = i / 40 % 3; bool wr = i / 120 % 2; int li = i / 240; trace_begin();
    const Set& s = S[li]; seg(L[li].sg); if (wr) vfs.reset(L[li].n); else put_set(s, L[li].n); TRACE("%s on %d processes with transfers of %zu bytes", wr ? "kvtree_write_gather" : "kvtree_read_scatter", L[li].n, k); size_t c = 0;
    vfs.before = [&](Sys& q) -> Ans { Ans a; if (q.op != S_READ && q.op != S_WRITE) return a; if (pol && c++ % 2 == 0) { a.k = Ans::FAIL; a.err = pol == 1 ? EINTR : EAGAIN; return a; } if (k < q.n) { a.k = Ans::PART; a.n = k; } return a; };
    bool ok = wr ? gather(whole(L[li].n), "set", s.t, mode(i)) : scatter(whole(L[li].n), "set", &s.t, mode(i), i % 3); vfs.before = nullptr; CHECK(ok, "the operation fails although calls were only interrupted or transferred fewer bytes"); if (wr) check_disk(s.t, "kvtree_write_gather"); n_valid(); outcome(i + (1ull << 51));
  }, "all transfers limited to 1..40 bytes, with and without an interruption before each");
  suite("processes", L.size() * 2, [&](uint64_t i) {
    // one process can do nothing with files at all, every operation, every process, every error
    bool wr = i % 2; int li = i / 2; const Set& s = S[li];
    for (int p = 0; p < L[li].n; p++) for (int op : {S_OPEN, S_READ, S_WRITE, S_FSYNC, S_CLOSE, S_LSEEK}) for (int e : {EACCES, EIO, ENOSPC, EMFILE, ENOENT, EROFS, EDQUOT, EBADF}) for (int m = 0; m < 32; m += 3) {
      trace_begin(); TRACE("%s on %d processes, every %s of process %d fails: %s", wr ? "kvtree_write_gather" : "kvtree_read_scatter", L[li].n, sysop_name[op], p, strerrorname_np(e)); seg(L[li].sg); if (wr) vfs.reset(L[li].n); else put_set(s, L[li].n); bool hit = false;
      vfs.before = [&](Sys& q) -> Ans { Ans a; if (q.proc == p && q.op == op) { hit = true; a.k = Ans::FAIL; a.err = e; } return a; };
      bool ok = wr ? gather(whole(L[li].n), "set", s.t, mode(m)) : scatter(whole(L[li].n), "set", &s.t, mode(m), m); vfs.before = nullptr;
      if (hit && (op == S_OPEN || op == S_READ || op == S_WRITE)) CHECK(!ok, "the operation reports success although process %d could not %s its file", p, sysop_name[op]);
      if (!hit) CHECK(ok, "the operation fails although no call failed"); if (ok && wr) check_disk(s.t, "kvtree_write_gather"); n_valid(); outcome((i << 20) + p * 4096 + op * 128 + e + (1ull << 52));
    }
  }, "every kind of call failing on one process with 8 errors, every process, 11 modes");
  suite("descriptors", L.size() * 2 * 7, [&](uint64_t i) {
    int li = i / 14; bool wr = i / 7 % 2; vfs.free_low = i % 7 + 1;
    explore(1, [&](Explorer& ex) { uint64_t h = 0; size_t pt = 0; bool ok = one(li, wr, i, false, [&](int n) { pt++; int c = ex.choose(n); if (c) h = pt * 64 + c; return c; }); n_state(); outcome(h * 4 + ok * 2 + wr + li * 1000033 + i * 7919 + (1ull << 53)); }); vfs.free_low = 0;
  }, "every single fault while some of the descriptors 0 to 2 are free on every process");
  seg(0); assumption("close() releases the descriptor even when it reports an error; interruptions do not go on for ever");
}

// ---- C26 -------------------------------------------------------------------------
static const char* const PREFIX[] = {"set", "a b", "d/e/set", "s.0.1", "100%d", "*?[x]{y}~", "x,y;z&\"'", "./set"};
static const int NPRE = 8;
static bool serial_write(const Str& prefix, const T& t, int ranks, long per) { kvtree* h = build(t); if (per) setenv("KVTREE_ENTRIES_PER_FILE", sfmt("%ld", per).c_str(), 1); Leaks lk; bool ok = kvtree_write_to_gather(prefix.c_str(), h, ranks) == KVTREE_SUCCESS; unsetenv("KVTREE_ENTRIES_PER_FILE"); lk.check("kvtree_write_to_gather"); CHECK(canon(observe(h)) == canon(t), "kvtree_write_to_gather changed the tree"); kvtree_delete(&h); n_eval(); CHECK(vfs.open_fds(vfs.cur) == 0, "kvtree_write_to_gather leaves descriptors open"); return ok; }
static void both_read(const Str& prefix, const std::vector<T>& t, uint64_t k) { T w = all_of(t); CHECK(single(prefix, &w, k % 3), "kvtree_read_scatter_single fails"); CHECK(scatter(whole(t.size()), prefix, &t, mode(k), k % 3), "kvtree_read_scatter fails"); n_valid(); }
CHECK_DEF(C26, "exploration", "a case is one set of files written by one writer and read by both readers; distinct_nontrivial counts distinct (ranks, order, split, prefix, surroundings)") {
  int NO = g_thorough ? 7 : 6; static std::vector<std::pair<int, std::vector<int>>> P; for (int n = 1; n <= NO; n++) for (auto& p : permutations(n)) P.push_back({n, p});
  suite("orders", P.size(), [&](uint64_t i) {
    int n = P[i].first; auto t = trees_of(std::vector<long>(n, 0), 2); T d; for (int r : P[i].second) d.k.push_back({sfmt("%d", r), t[r]});
    for (long per = 1; per <= n + 1; per++) { trace_begin(); TRACE("%d ranks inserted as {%s}, %ld entries per file", n, cdesc(d).c_str(), per); vfs.reset(n); CHECK(serial_write("set", d, n, per), "kvtree_write_to_gather fails"); both_read("set", t, i + per); outcome(i * 16 + per); n_state(); }
  }, "all insertion orders of up to 6 (7) ranks x all numbers of entries per file, read by both readers");
  suite("counts", g_thorough ? 64 : 40, [&](uint64_t i) { int n = i + 1; auto t = trees_of(std::vector<long>(n, 0), 3); T d; for (int k = 0; k < n; k++) { int r = (k * 7 + 3) % n; if (n % 7 == 0) r = n - 1 - k; d.k.push_back({sfmt("%d", r), t[r]}); }
    for (long per = 0; per <= n + 1; per++) { if (!g_thorough && n > 16 && per > 4 && per < n - 2 && (per + n) % 5) continue; trace_begin(); TRACE("%d ranks, %ld entries per file", n, per); vfs.reset(n); CHECK(serial_write("set", d, n, per), "kvtree_write_to_gather fails"); both_read("set", t, i + per); outcome(i * 128 + per + (1ull << 30)); } }, "1 to 40 (64) ranks x numbers of entries per file, read by both readers");
  static auto LL = long_lengths();
  suite("long-prefixes", LL.size() * 3, [&](uint64_t i) { for (int w = 0; w < 3; w++) for (int k = 0; k < 2; k++) long_one(LL[i / 3], i % 3 + 1, w, 3 * k); }, "prefixes of up to 4100 characters around powers of two and the longest possible path, 3 writers, 1 to 3 ranks");
  suite("large", g_thorough ? 9 : 5, [&](uint64_t i) { int n = (const int[]){8191, 8192, 8193, 300, 1000, 16383, 16384, 16385, 20000}[i]; long per = n >= 8191 ? 0 : 7; T d; for (int k = n - 1; k >= 0; k--) { T x; x.put("v").put(sfmt("%d", k)); d.k.push_back({sfmt("%d", k), x}); } trace_begin(); TRACE("%d ranks", n); vfs.reset(1); CHECK(serial_write("set", d, n, per), "kvtree_write_to_gather fails"); kvtree* h = kvtree_new(); n_eval(); CHECK(kvtree_read_scatter_single("set", h) == KVTREE_SUCCESS, "kvtree_read_scatter_single fails"); CHECK(canon(observe(h)) == canon(d), "kvtree_read_scatter_single does not yield what was written for %d ranks", n); kvtree_delete(&h); n_valid(); outcome(n + (1ull << 31)); }, "sets with more ranks than fit in one part file (8192)");
  suite("trees", 64, [&](uint64_t i) { static std::vector<T> U = universe(4, {"a", "RANK"}); for (int k = 0; k < 16; k++) { std::vector<T> t = {U[i % U.size()], U[(i + k) % U.size()], T()}; trace_begin(); TRACE("trees {%s} {%s} {}", cdesc(t[0]).c_str(), cdesc(t[1]).c_str()); vfs.reset(3); CHECK(serial_write("set", all_of(t), 3, k % 4), "kvtree_write_to_gather fails"); both_read("set", t, k); vfs.reset(3); seg(k & 4 ? 128 : 0); CHECK(gather(whole(3), "set", t, mode(i + k)), "kvtree_write_gather fails"); both_read("set", t, k); outcome(i * 16 + k + (1ull << 32)); } }, "all trees of up to 4 entries over 2 keys through both writers and both readers");
  suite("parallel", 64, [&](uint64_t i) { int n = i + 1; for (int p = 0; p < 6; p++) { if (!g_thorough && n > 20 && (p + n) % 3) continue; std::vector<long> s; for (int r = 0; r < n; r++) s.push_back(p == 0 ? 0 : p == 1 ? 170 : p == 2 ? (r % 3) * 170 : p == 3 ? r * 11 % 90 : p == 4 ? (r == 0) * 300 : (r == n - 1) * 300); auto t = trees_of(s, p); trace_begin(); TRACE("%d processes write sizes%s", n, sizes_str(s).c_str()); vfs.reset(n); seg(p < 4 ? 128 : 400); CHECK(gather(whole(n), "set", t, mode(i * 5 + p)), "kvtree_write_gather fails"); T w = all_of(t); CHECK(single("set", &w, p), "kvtree_read_scatter_single fails"); n_valid(); outcome(i * 8 + p + (1ull << 33)); } }, "1 to 64 processes, several part files and map levels, read by the serial reader");
  suite("descriptors", 7 * 5, [&](uint64_t i) { int n = i / 7 + 1; vfs.free_low = i % 7 + 1; for (int k = 0; k < 12; k++) { auto t = trees_of(std::vector<long>(n, k % 3 * 85), k); trace_begin(); TRACE("%d ranks, free descriptors %d", n, vfs.free_low); vfs.reset(n); if (k % 4 == 3) { seg(128); CHECK(gather(whole(n), "set", t, mode(i + k)), "kvtree_write_gather fails"); } else CHECK(serial_write("set", all_of(t), n, k % 4), "kvtree_write_to_gather fails"); both_read("set", t, k); outcome(i * 16 + k + (1ull << 38)); } vfs.free_low = 0; }, "some of the descriptors 0 to 2 free, 1 to 5 ranks, 4 writers");
  // surroundings
  suite("neighbours", NPRE * 16, [&](uint64_t i) {
    Str p = PREFIX[i / 16]; int k = i % 16;
    for (int n = 1; n <= 4; n++) for (int wr = 0; wr < 3; wr++) {
      auto t = trees_of(std::vector<long>(n, k & 1 ? 170 : 0), 4); trace_begin(); TRACE("prefix %s, %d ranks, written %s, surroundings %d", p.c_str(), n, wr == 0 ? "in parallel" : wr == 1 ? "serially, one per file" : "serially in one file", k); vfs.reset(n); vfs.put("d/e/keep", "x"); vfs.put("keep", "y"); seg(k & 1 ? 128 : 0);
      std::map<Str, Str> other; auto junk = [&](Str name, int kind) { if (name.compare(0, 2, "./") == 0) name = name.substr(2); T x; x.put("RANK").put("0").put("wrong"); x.put("RANK").put(sfmt("%d", n - 1)).put("wrong"); x.put("RANKS").put(sfmt("%d", n)); x.put("LEVEL").put(sfmt("%d", kind == 2)); Str d = kind == 0 ? "garbage" : kind == 1 ? enc_image(enc_pack(x)) : enc_image(enc_pack(x)); other[name] = d; vfs.put(name, d); };
      auto put_junk = [&] { for (const char* sfx : {".0", ".", ".0.", ".0.x", ".0.0x", ".0.00", ".0.0.0", ".0.-1", ".0.99", ".1.0", ".1.99", ".2.0", "x", "x.0.0", ".0.0~", ".tmp", ".lock", ".bak.0.0"}) junk(p + sfx, (k >> 1) % 3); junk((p.find('/') == Str::npos ? Str("q") : "d/e/q") + ".0.0", 1); };
      if (k & 8) put_junk();
      bool ok = wr == 0 ? gather(whole(n), p, t, mode(i)) : serial_write(p, all_of(t), n, wr == 1 ? 1 : 0); CHECK(ok, "the set cannot be written");
      if (!(k & 8)) { // afterwards, without touching the files of the set
        std::set<Str> mine; for (auto& f : vfs.names) if (!f.second->dir) mine.insert(tail_name(f.first)); std::map<Str, Str> keep; for (auto& f : mine) keep[f] = vfs.content(f); put_junk(); for (auto& f : keep) { vfs.put(f.first, f.second); other.erase(f.first); } }
      else { for (auto it = other.begin(); it != other.end();) it = vfs.content(it->first) != it->second ? other.erase(it) : std::next(it); }
      both_read(p, t, i + n); for (auto& o : other) CHECK(vfs.content(o.first) == o.second, "another file, %s, was changed", o.first.c_str()); CHECK(vfs.content("keep") == "y" && vfs.content("d/e/keep") == "x", "another file was changed");
      outcome(i * 16 + n * 3 + wr + (1ull << 34));
    }
  }, "8 prefixes (directories, spaces, glob and format characters) x 18 neighbouring names with garbage, foreign trees or maps, present before or created after the write, 3 writers, 1 to 4 ranks");
  suite("rewrites", 512, [&](uint64_t i) {
    trace_begin(); TRACE("three writes under one prefix, case %llu", (unsigned long long)i); vfs.reset(8); uint64_t x = i;
    for (int z = 0; z < 3; z++) { int w = x % 8; x /= 8; int n = w & 1 ? 7 : 3; auto t = trees_of(std::vector<long>(n, w & 2 ? 170 : 0), z); seg(128); Grp g = whole(n); g.world = 8; TRACE("  %s by %d", w & 4 ? "parallel" : "serial", n); CHECK(w & 4 ? gather(g, "set", t, mode(i + z)) : serial_write("set", all_of(t), n, w & 2 ? 1 : 2), "the set cannot be written"); T all = all_of(t); CHECK(single("set", &all, z), "kvtree_read_scatter_single fails"); CHECK(scatter(g, "set", &t, mode(i), z), "kvtree_read_scatter fails"); n_valid(); }
    outcome(i + (1ull << 35));
  }, "all sequences of 3 out of 8 writes (serial or parallel, 3 or 7 ranks, split or not) under one prefix");
  // missing, unreadable or short parts
  static std::vector<Set> S; { auto L = layouts(); for (auto& l : L) { S.push_back(make_set(l, 0)); for (int per : {1, 2, 8192}) S.push_back(make_set(l, per)); } }
  suite("damage", S.size(), [&](uint64_t i) {
    const Set& s = S[i]; T w = all_of(s.t); auto head = [&](size_t f, const Str& what) { trace_begin(); TRACE("set of %d ranks, file %s: %s", s.l.n, s.files[f].first.c_str(), what.c_str()); };
    for (size_t f = 0; f < s.files.size(); f++) {
      const Str& d = s.files[f].second; head(f, "missing"); put_set(s, 1, f); single("set", nullptr, f); n_valid(); outcome((i << 24) + (f << 16) + (1ull << 36));
      head(f, "cannot be opened"); put_set(s, 1); vfs.before = [&](Sys& q) -> Ans { Ans a; if (q.op == S_OPEN && q.path.size() >= s.files[f].first.size() && q.path.substr(q.path.size() - s.files[f].first.size()) == s.files[f].first) { a.k = Ans::FAIL; a.err = EACCES; } return a; }; single("set", nullptr, f); vfs.before = nullptr;
      for (size_t n = 0; n < d.size(); n++) { head(f, sfmt("cut to %zu", n)); Str x = d.substr(0, n); put_set(s, 1, f, &x); single("set", nullptr, n % 3); n_valid(); outcome((i << 24) + (f << 16) + n + 1 + (1ull << 36)); }
      for (size_t at = 0; at < d.size(); at++) for (int b = 0; b < 8; b++) { if (!g_thorough && s.l.n > 3 && (at + b) % 4) continue; head(f, sfmt("bit %d of byte %zu changed", b, at)); Str x = d; x[at] ^= 1 << b; put_set(s, 1, f, &x); single("set", &w, b % 3); n_valid(); }
      // a rank missing from a part: re-encoded without it
      T t; if (dec_image(d, t) == 0) if (T* r = t.get("RANK")) for (size_t e = 0; e < r->k.size(); e++) { T u = t; T* ur = u.get("RANK"); ur->k.erase(ur->k.begin() + e); Str x = enc_image(enc_pack(u)); head(f, "without entry " + r->k[e].first); put_set(s, 1, f, &x); kvtree* h = kvtree_new(); n_eval(); CHECK(kvtree_read_scatter_single("set", h) != KVTREE_SUCCESS, "kvtree_read_scatter_single reports success although entry %s is missing from %s", r->k[e].first.c_str(), s.files[f].first.c_str()); CHECK(kvtree_size(h) == 0, "kvtree_read_scatter_single fails but changed the tree"); kvtree_delete(&h); n_valid(); }
      for (int ranks : {0, s.l.n - 1, s.l.n + 1, 1000}) { T t2; if (dec_image(d, t2) || s.files[f].first != "set") continue; T* r = t2.get("RANKS"); if (!r) continue; r->k.clear(); r->put(sfmt("%d", ranks)); Str x = enc_image(enc_pack(t2)); head(f, sfmt("RANKS is %d", ranks)); put_set(s, 1, f, &x); kvtree* h = kvtree_new(); n_eval(); CHECK(kvtree_read_scatter_single("set", h) != KVTREE_SUCCESS, "kvtree_read_scatter_single reports success although the map says %d ranks instead of %d", ranks, s.l.n); kvtree_delete(&h); n_valid(); }
    }
  }, "sets of both writers with each file missing, unreadable, cut to every length, with every bit changed, without each of its entries, or with another number of ranks");
  seg(0);
}
