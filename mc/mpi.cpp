// C20 (send/receive), C21 (broadcast), C22 (exchange) on the in-process MPI.
#include "fakempi.h"
#include "groups.h"
#define KVTREE_MPI_HUGE
#include "huge.h"
#include "conform.h"
#include "model.h"
#include <array>
extern "C" {
#include "kvtree_mpi.h"
}

static void run_group(const Grp& g, const MpiMode& m, const std::function<void(int, MPI_Comm)>& body, const std::function<int(const std::vector<int>&, int)>& pick = nullptr) {
  vfs.reset(g.world); mpi_mode = m; sched.pick = pick;
  Leaks lk;
  run_on(g, body);
  n_trans(mpi_stats.sends + mpi_stats.colls); n_eval(); lk.check("after the operation");
}
// the tree received must be equal and independent; the tree sent unchanged
static void scribble(kvtree* h) { kvtree_set_kv_int(h, "scribbled", 1); kvtree_elem* e = kvtree_elem_first(h); if (e && kvtree_elem_hash(e)) kvtree_set(kvtree_elem_hash(e), "deep", kvtree_new()); kvtree_unset(h, "a"); }
struct Sent { kvtree* h; Str before; Sent(const T& t) { h = build(t); before = ordered(observe(h)); } void check(const char* what) { CHECK(ordered(observe(h)) == before, "%s changed the tree that was sent", what); kvtree_delete(&h); } };
static void expect(kvtree* h, const T& want, const char* what, int r) { T g = observe(h); CHECK(canon(g) == canon(want), "%s: process %d holds {%s} instead of {%s}", what, r, cdesc(g).c_str(), cdesc(want).c_str()); scribble(h); kvtree_delete(&h); }
static T tagged(int i, int kind) { T t; if (kind == 0) return t; t.put("from").put(sfmt("%d", i)); if (kind == 2) for (int j = 0; j < 12 + i; j++) t.put(sfmt("k%d", j)).put("v").put(sfmt("%d", i)); if (kind == 3) t = parse("a(b(c(d)))"), t.put(sfmt("%d", i)); return t; }
static const T& prior(int k) { static const T p[] = {parse(""), parse("a(old) from(9) 0(junk(x))"), parse("a b c(d(e(f)))")}; return p[k % 3]; }
// ---- C20 -------------------------------------------------------------------------
static std::vector<int> counts(int lo) { std::vector<int> v; for (int n = lo; n <= 70; n++) v.push_back(n); for (int n : {96, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300}) v.push_back(n); return v; }
CHECK_DEF(C20, "exploration", "a case is one transfer program on one communicator in one mode and order of the in-process MPI; distinct_nontrivial counts distinct (program, trees, mode)") {
  static std::vector<T> U = universe(g_thorough ? 5 : 4, {"a", "b"}); static auto modes = mpi_modes(); static auto groups2 = groups(2, true);
  suite("trees", U.size(), [&](uint64_t i) {
    for (int p = 0; p < 3; p++) for (auto& m : modes) for (int kind = 0; kind < 3; kind++) {
      trace_begin(); TRACE("%s of {%s} to a process holding {%s}, %s", kind == 0 ? "kvtree_send" : kind == 1 ? "kvtree_sendrecv in one direction" : "kvtree_sendrecv in both directions", cdesc(U[i]).c_str(), cdesc(prior(p)).c_str(), mpi_mode_str(m).c_str());
      run_group(whole(2), m, [&](int r, MPI_Comm c) {
        if (kind == 0) { if (r == 0) { Sent s(U[i]); CHECK(kvtree_send(s.h, 1, c) == KVTREE_SUCCESS, "kvtree_send fails"); s.check("kvtree_send"); } else { kvtree* h = build(prior(p)); CHECK(kvtree_recv(h, 0, c) == KVTREE_SUCCESS, "kvtree_recv fails"); expect(h, U[i], "kvtree_recv", r); } }
        else if (kind == 1) { if (r == 0) { Sent s(U[i]); kvtree* h = build(prior(p)); CHECK(kvtree_sendrecv(s.h, 1, h, MPI_PROC_NULL, c) == KVTREE_SUCCESS, "kvtree_sendrecv fails"); s.check("kvtree_sendrecv"); expect(h, prior(p), "kvtree_sendrecv without a source", r); } else { Sent s(prior(p)); kvtree* h = build(prior(p)); CHECK(kvtree_sendrecv(s.h, MPI_PROC_NULL, h, 0, c) == KVTREE_SUCCESS, "kvtree_sendrecv fails"); s.check("kvtree_sendrecv"); expect(h, U[i], "kvtree_sendrecv", r); } }
        else { const T& o = U[(i * 7 + 3) % U.size()]; Sent s(r ? o : U[i]); kvtree* h = build(prior(p)); CHECK(kvtree_sendrecv(s.h, 1 - r, h, 1 - r, c) == KVTREE_SUCCESS, "kvtree_sendrecv fails"); s.check("kvtree_sendrecv"); expect(h, r ? U[i] : o, "kvtree_sendrecv", r); }
      });
      outcome(i * 1000 + p * 300 + kind * 100 + (&m - &modes[0])); n_valid();
    }
  }, "all trees of up to 4 (5) entries over 2 keys x 3 trees held before x 3 kinds of transfer x 32 modes (buffering, completion, delivery, order)");
  suite("held", U.size() * U.size(), [&](uint64_t i) {
    const T &t = U[i / U.size()], &held = U[i % U.size()]; const MpiMode& m = modes[i * 7 % modes.size()];
    trace_begin(); TRACE("transfers of {%s} to a process holding {%s}, %s", cdesc(t).c_str(), cdesc(held).c_str(), mpi_mode_str(m).c_str());
    run_group(whole(2), m, [&](int r, MPI_Comm c) {
      if (r == 0) { Sent s(t); CHECK(kvtree_send(s.h, 1, c) == KVTREE_SUCCESS, "kvtree_send fails"); s.check("kvtree_send"); } else { kvtree* h = build(held); CHECK(kvtree_recv(h, 0, c) == KVTREE_SUCCESS, "kvtree_recv fails"); expect(h, t, "kvtree_recv", r); }
      Sent s(r ? held : t); kvtree* h = build(r ? held : t); CHECK(kvtree_sendrecv(s.h, 1 - r, h, 1 - r, c) == KVTREE_SUCCESS, "kvtree_sendrecv fails"); s.check("kvtree_sendrecv"); expect(h, r ? t : held, "kvtree_sendrecv", r);
    });
    outcome(i + 3333333333); n_valid();
  }, "all pairs of a tree sent and a tree held before, of up to 4 (5) entries over 2 keys, in changing modes");
  // pairing patterns: partial injections of ranks
  static std::vector<std::pair<int, std::vector<int>>> pats;
  for (int n = 1; n <= (g_thorough ? 6 : 5); n++) { std::vector<int> f(n, -1); for (;;) { bool ok = true; unsigned used = 0; for (int x : f) if (x >= 0) { if (used >> x & 1) ok = false; used |= 1u << x; } if (ok) pats.push_back({n, f}); int k = 0; while (k < n && ++f[k] == n) f[k++] = -1; if (k == n) break; } }
  auto pattern = [](const Grp& g, const std::vector<int>& f, const MpiMode& m, int kind, const std::function<int(const std::vector<int>&, int)>& pick = nullptr) {
    int n = g.n(); trace_begin(); if (g_verbose) { Str s; for (int i = 0; i < n; i++) s += sfmt(" %d->%s", i, f[i] < 0 ? "none" : sfmt("%d", f[i]).c_str()); TRACE("kvtree_sendrecv:%s on %s, %s", s.c_str(), grp_str(g).c_str(), mpi_mode_str(m).c_str()); }
    std::vector<int> src(n, -1); for (int i = 0; i < n; i++) if (f[i] >= 0) src[f[i]] = i;
    run_group(g, m, [&](int r, MPI_Comm c) {
      for (int round = 0; round < 2; round++) {
        int kd = (kind + round) % 4; auto tree = [&](int i) { return tagged(i + 10 * round, kd == 1 && i % 2 ? 0 : kd); };
        Sent s(tree(r)); kvtree* h = build(prior(r + round)); CHECK(kvtree_sendrecv(s.h, f[r] < 0 ? MPI_PROC_NULL : f[r], h, src[r] < 0 ? MPI_PROC_NULL : src[r], c) == KVTREE_SUCCESS, "kvtree_sendrecv fails");
        s.check("kvtree_sendrecv"); expect(h, src[r] < 0 ? prior(r + round) : tree(src[r]), "kvtree_sendrecv", r);
      }
    }, pick);
    outcome(fnv(&f[0], n * 4) + g.world * 31 + kind * 7 + m.sync_send + m.late_copy * 2 + m.sync_coll * 4 + m.order * 8 + g.mem[0] * 131); n_valid();
  };
  suite("patterns", pats.size(), [&](uint64_t i) { int n = pats[i].first; for (size_t k = 0; k < modes.size(); k++) { if (n == 4 && !g_thorough && (k + i) % 4) continue; if (n >= 5 && (k + i) % 16) continue; for (int kind = 0; kind < (n <= 3 ? 4 : 1); kind++) pattern(whole(n), pats[i].second, modes[k], n <= 3 ? kind : (int)((i + k) % 4)); } }, "every pairing of 1 to 5 (6) processes (rings, chains, self, missing partners), two rounds, small, empty and large trees, in 32 modes (4 processes: 8 of them in turn, thorough 32; more: 2 in turn)");
  suite("communicators", pats.size(), [&](uint64_t i) { int n = pats[i].first; if (n > 4) return; auto gs = groups(n, n <= 3 || g_thorough); for (auto& g : gs) for (int k = 0; k < 4; k++) pattern(g, pats[i].second, modes[(i + k * 9) % modes.size()], k); }, "every pairing of up to 4 processes on reordered and partial communicators");
  suite("schedules", pats.size(), [&](uint64_t i) { int n = pats[i].first; if (n > 4 || (n == 4 && i % 3 && !g_thorough)) return; for (auto& m : completion_modes()) schedules(n <= 2 ? 4 : n == 3 ? 2 : 1, [&](const std::function<int(const std::vector<int>&, int)>& pick) { pattern(whole(n), pats[i].second, m, i % 3 + 1, pick); }); }, "every pairing of up to 4 processes x completion modes x all schedules with up to 4 (2 processes), 2 (3) or 1 (4) deviations from the default order at message calls");
  suite("bystanders", pats.size(), [&](uint64_t i) { int n = pats[i].first; if (n > 4) return; for (int b = 1; b < 16; b++) { if (n == 4 && (i + b) % 3) continue; for (size_t k = 0; k < modes.size(); k += n <= 3 ? 1 : 8) { g_bystand = b; pattern(whole(n), pats[i].second, modes[n <= 3 ? k : (k + i) % modes.size()], (i + k) % 4); } } if (n == 2) for (int b = 1; b < 16; b++) for (auto& m : completion_modes()) { g_bystand = b; schedules(g_thorough ? 2 : 1, [&](const std::function<int(const std::vector<int>&, int)>& pick) { pattern(whole(2), pats[i].second, m, 1, pick); }); } g_bystand = 0; }, "every pairing of up to 4 processes while messages of the application are under way: on the same communicator with another tag, on another communicator, received before or after, 15 combinations x modes, 2 processes: all schedules with up to 1 (thorough 2) deviations");
  static auto CN = counts(6);
  suite("counts", CN.size(), [&](uint64_t i) { int n = CN[i]; for (int k = 0; k < 7; k++) { std::vector<int> f(n, -1); for (int r = 0; r < n; r++) { int d = k == 0 ? (r + 1) % n : k == 1 ? (r + n - 1) % n : k == 2 ? r ^ 1 : k == 3 ? n - 1 - r : k == 4 ? (r + n / 2) % n : k == 5 ? r : r ? -1 : n - 1; f[r] = d < n ? d : -1; } pattern(whole(n), f, modes[(i * 7 + k) % modes.size()], k % 4); } }, "6 to 70 processes and up to 300 around powers of two and ten: rings both ways, neighbours, mirrored, opposite, self, first to last");
  suite("bystanders-plain", 15 * 3, [&](uint64_t i) {
    g_bystand = i / 3 + 1; int n = 2 + i % 3; for (auto& m : modes) { trace_begin(); TRACE("kvtree_send and kvtree_recv among %d processes beside other messages %d, %s", n, g_bystand, mpi_mode_str(m).c_str());
      run_group(whole(n), m, [&](int r, MPI_Comm c) { for (int k = 0; k < 3; k++) { if (r == 0) for (int q = 1; q < n; q++) { Sent s(tagged(q + k * 10, k)); CHECK(kvtree_send(s.h, q, c) == KVTREE_SUCCESS, "kvtree_send fails"); s.check("kvtree_send"); } else { kvtree* h = build(prior(r)); CHECK(kvtree_recv(h, 0, c) == KVTREE_SUCCESS, "kvtree_recv fails"); expect(h, tagged(r + k * 10, k), "kvtree_recv", r); }
        if (r) { Sent s(tagged(r + k * 10, 3)); kvtree_send(s.h, 0, c); s.check("kvtree_send"); } else for (int q = n - 1; q >= 1; q--) { kvtree* h = build(prior(q)); kvtree_recv(h, q, c); expect(h, tagged(q + k * 10, 3), "kvtree_recv", 0); } } });
      outcome(i * 64 + (&m - &modes[0]) + 8888888); n_valid(); } g_bystand = 0;
  }, "one-to-all and all-to-one transfers among 2 to 4 processes beside messages of the application, 15 combinations x 32 modes");
  // successive transfers arrive in order
  static std::vector<std::vector<int>> seq; { int L = g_thorough ? 5 : 4; for (int l = 1; l <= L; l++) { int tot = 1; for (int k = 0; k < l; k++) tot *= 6; for (int x = 0; x < tot; x++) { std::vector<int> s; int y = x; for (int k = 0; k < l; k++) { s.push_back(y % 6); y /= 6; } seq.push_back(s); } } }
  suite("order", seq.size(), [&](uint64_t i) {
    for (auto& m : modes) {
      trace_begin(); if (g_verbose) { Str s; for (int x : seq[i]) s += sfmt(" %d", x); TRACE("transfers%s, %s", s.c_str(), mpi_mode_str(m).c_str()); }
      run_group(whole(2), m, [&](int r, MPI_Comm c) {
        for (size_t k = 0; k < seq[i].size(); k++) {
          int x = seq[i][k]; T t = x % 3 == 0 ? T() : tagged(k, x % 3); // x / 3: direction
          if (r == x / 3) { Sent s(t); kvtree_send(s.h, 1 - r, c); s.check("kvtree_send"); } else { kvtree* h = build(prior(k)); kvtree_recv(h, 1 - r, c); expect(h, t, "kvtree_recv", r); }
        }
      });
      outcome(i * 64 + (&m - &modes[0])); n_valid();
    }
  }, "all sequences of up to 4 (5) transfers in either direction of empty, small and large trees, 32 modes");
  suite("mixed", 3 * 3 * 3 * 3, [&](uint64_t i) {
    // three processes; a mixture of plain and combined transfers between the same processes
    int a[4] = {(int)(i % 3), (int)(i / 3 % 3), (int)(i / 9 % 3), (int)(i / 27)};
    for (auto& m : modes) { trace_begin(); TRACE("mixed transfers %llu, %s", (unsigned long long)i, mpi_mode_str(m).c_str());
      run_group(whole(3), m, [&](int r, MPI_Comm c) {
        for (int k = 0; k < 4; k++) {
          if (a[k] == 0) { Sent s(tagged(r + 10 * k, 1)); kvtree* h = build(prior(k)); kvtree_sendrecv(s.h, (r + 1) % 3, h, (r + 2) % 3, c); s.check("kvtree_sendrecv"); expect(h, tagged((r + 2) % 3 + 10 * k, 1), "kvtree_sendrecv", r); }
          else if (a[k] == 1) { if (r == 0) { for (int q = 1; q < 3; q++) { Sent s(tagged(q + k * 10, 2)); kvtree_send(s.h, q, c); s.check("kvtree_send"); } } else { kvtree* h = build(prior(r)); kvtree_recv(h, 0, c); expect(h, tagged(r + k * 10, 2), "kvtree_recv", r); } }
          else { if (r) { Sent s(tagged(r + k * 10, 3)); kvtree_send(s.h, 0, c); s.check("kvtree_send"); } else for (int q = 2; q >= 1; q--) { kvtree* h = build(prior(q)); kvtree_recv(h, q, c); expect(h, tagged(q + k * 10, 3), "kvtree_recv", 0); } }
        }
      }); outcome(i * 64 + (&m - &modes[0]) + 5555555); n_valid(); }
  }, "all sequences of 4 rounds of ring exchanges, one-to-all and all-to-one transfers among 3 processes, 32 modes");
  suite("sizes", g_thorough ? 400 : 140, [&](uint64_t i) {
    size_t len = i < 100 ? i : i < 130 ? (1u << (7 + (i - 100) / 2)) + (i % 2) : 70000 + i * 1001; T t; t.put(Str(len, 'x')).put("end"); if (i >= 135) for (int j = 0; j < 3000; j++) t.put(sfmt("%d", j)).put("v");
    for (int z = 0; z < 2; z++) { MpiMode m = modes[(i * 5 + z * 13) % modes.size()]; trace_begin(); TRACE("key of %zu bytes, %s", len, mpi_mode_str(m).c_str());
      run_group(whole(2), m, [&](int r, MPI_Comm c) { if (z) { if (r == 0) { Sent s(t); kvtree_send(s.h, 1, c); s.check("kvtree_send"); } else { kvtree* h = build(prior(1)); kvtree_recv(h, 0, c); expect(h, t, "kvtree_recv", 1); } } else { Sent s(r ? prior(1) : t); kvtree* h = build(prior(1)); kvtree_sendrecv(s.h, 1 - r, h, 1 - r, c); s.check("kvtree_sendrecv"); expect(h, r ? t : prior(1), "kvtree_sendrecv", r); } });
      outcome(len * 4 + z + 99999999); n_valid(); }
  }, "key lengths 0..99 and beyond, up to megabytes, wide trees");
  // every packed size up to some pages, and around the powers of two
  static auto ES = exact_sizes(9, g_thorough ? 9000 : 4200, g_thorough ? 23 : 21, -3, 3);
  suite("exact-sizes", (ES.size() + 15) / 16, [&](uint64_t b) { for (size_t i = b * 16; i < std::min(ES.size(), (size_t)b * 16 + 16); i++) {
    size_t n = ES[i], n2 = ES[(i * 31 + 7) % std::min<size_t>(ES.size(), 4000)]; T t = exact_tree(n), t2 = exact_tree(n2); if (enc_pack(t).size() != n) harness_error("exact_tree(%zu)", n);
    for (int z = 0; z < 3; z++) { MpiMode m = modes[(i * 5 + z * 13) % modes.size()]; trace_begin(); TRACE("a tree that packs into %zu bytes, %s", n, mpi_mode_str(m).c_str());
      run_group(whole(2), m, [&](int r, MPI_Comm c) {
        if (z == 0) { if (r == 0) { Sent s(t); kvtree_send(s.h, 1, c); s.check("kvtree_send"); } else { kvtree* h = build(prior(1)); kvtree_recv(h, 0, c); expect(h, t, "kvtree_recv", 1); } }
        else if (z == 1) { Sent s(r ? t2 : t); kvtree* h = build(prior(1)); kvtree_sendrecv(s.h, 1 - r, h, 1 - r, c); s.check("kvtree_sendrecv"); expect(h, r ? t : t2, "kvtree_sendrecv", r); }
        else { Sent s(t); kvtree* h = build(prior(1)); kvtree_sendrecv(s.h, r == 0 ? r : MPI_PROC_NULL, h, r == 0 ? r : MPI_PROC_NULL, c); s.check("kvtree_sendrecv"); expect(h, r ? prior(1) : t, "kvtree_sendrecv", r); } });
      outcome(n * 4 + z + 1234567890123); n_valid(); } } }, "a tree of every packed size from 9 to 4200 (9000) bytes and within 3 bytes of every power of two up to 2^21 (2^23): sent, exchanged with one of another size, sent to oneself");
  suite("too-large", 12, [&](uint64_t i) { huge::transfer(i % 2, huge::transfers[i / 2]); }, "trees of 2^31-1 to more than 2^32 packed bytes: they arrive, or, if larger than a message may be, the program is ended");
  real_suite(real::SENDRECV); real_suite(real::CHAIN);
}

// ---- C21 -------------------------------------------------------------------------
static void do_bcast(const Grp& g, int root, const T& t, const MpiMode& m, int follow, const std::function<int(const std::vector<int>&, int)>& pick = nullptr) {
  trace_begin(); TRACE("kvtree_bcast of {%s} from %d on %s, then %s, %s", cdesc(t).c_str(), root, grp_str(g).c_str(), follow == 0 ? "nothing" : follow == 1 ? "another broadcast" : follow == 2 ? "an exchange" : "a ring", mpi_mode_str(m).c_str());
  int n = g.n();
  run_group(g, m, [&](int r, MPI_Comm c) {
    kvtree* h = build(r == root ? t : prior(r + 1)); Str b = ordered(observe(h)); CHECK(kvtree_bcast(h, root, c) == KVTREE_SUCCESS, "kvtree_bcast fails");
    if (r == root) CHECK(ordered(observe(h)) == b, "kvtree_bcast changed the root's tree");
    expect(h, t, "kvtree_bcast", r);
    if (follow == 1) { int r2 = (root + 1) % n; h = build(r == r2 ? tagged(r2, 1) : prior(2)); kvtree_bcast(h, r2, c); expect(h, tagged(r2, 1), "the following kvtree_bcast", r); h = build(r == root ? T() : prior(1)); kvtree_bcast(h, root, c); expect(h, T(), "the following kvtree_bcast", r); }
    else if (follow == 2) { kvtree *s = kvtree_new(), *d = kvtree_new(); kvtree* x = build(tagged(r, 1)); kvtree_exchange_sendq(s, (r + 1) % n, x); kvtree_exchange(s, d, c); T w; w.put(sfmt("%d", (r + n - 1) % n)) = tagged((r + n - 1) % n, 1); expect(d, w, "the following kvtree_exchange", r); kvtree_delete(&s); kvtree_delete(&x); }
    else if (follow == 3) { kvtree *s = build(tagged(r, 1)), *d = build(prior(1)); kvtree_sendrecv(s, (r + 1) % n, d, (r + n - 1) % n, c); expect(d, tagged((r + n - 1) % n, 1), "the following kvtree_sendrecv", r); kvtree_delete(&s); }
  }, pick);
  outcome(fnv(canon(t)) + root * 7 + g.world * 131 + g.mem[0] * 31 + follow * 1009 + m.sync_send + m.late_copy * 2 + m.sync_coll * 4 + m.order * 8); n_valid();
}
CHECK_DEF(C21, "exploration", "a case is one broadcast (and a following operation) on one communicator in one mode and order of the in-process MPI; distinct_nontrivial counts distinct (tree, root, communicator, mode)") {
  static std::vector<T> U = universe(g_thorough ? 5 : 4, {"a", "b"}); static auto modes = mpi_modes();
  suite("trees", U.size(), [&](uint64_t i) { for (auto& m : modes) for (int root = 0; root < 3; root++) do_bcast(whole(3), root, U[i], m, (i + root) % 4); }, "all trees of up to 4 (5) entries over 2 keys, 3 processes, every root, 32 modes");
  int N = g_thorough ? 20 : 12;
  suite("sizes", N * N, [&](uint64_t i) { int n = i / N + 1, root = i % N; if (root >= n) return; for (auto& m : modes) for (int k = 0; k < 4; k++) do_bcast(whole(n), root, tagged(root, k), m, (k + root) % 4); }, "1 to 12 (20) processes, every root, empty to large trees, 32 modes, followed by another operation");
  static auto CN = counts(N + 1);
  suite("counts", CN.size(), [&](uint64_t i) { int n = CN[i], k = 0; std::set<int> R = {0, 1, 2, 3, n / 3, n / 2 - 1, n / 2, n - 2, n - 1}; for (int b = 4; b < n; b *= 2) { R.insert(b - 1); R.insert(b); } for (int root : R) { k++; for (int j = 0; j < 2; j++) do_bcast(whole(n), root, tagged(root, (k + j) % 4), modes[(i * 5 + k * 3 + j * 7) % modes.size()], (k + j * 2) % 4); } }, "13 to 70 processes and up to 300 around powers of two and ten, the root at the ends, the middle and around powers of two");
  suite("communicators", 5 * 4, [&](uint64_t i) { int n = i / 4 + 1, root = i % 4; if (root >= n) return; auto gs = groups(n, true); for (auto& g : gs) for (auto& m : modes) do_bcast(g, root, tagged(root, (root + n) % 4), m, (root + 1) % 4); }, "all reordered and partial communicators of up to 4 processes (and some of 5), every root, 32 modes");
  suite("schedules", 3 * 3 * 4, [&](uint64_t i) { int n = i / 12 + 2, root = i / 4 % 3, k = i % 4; if (root >= n) return; for (auto& m : completion_modes()) schedules(n == 2 ? 4 : n == 3 ? 3 : g_thorough ? 3 : 2, [&](const std::function<int(const std::vector<int>&, int)>& pick) { do_bcast(whole(n), root, tagged(root, k), m, k, pick); }); }, "2 to 4 processes, every root, all orders of arrival with up to 4 (2), 3 (3) or 2 (4; thorough 3) deviations from the default order at message calls");
  suite("held", U.size() * U.size(), [&](uint64_t i) {
    const T &t = U[i / U.size()], &held = U[i % U.size()]; const MpiMode& m = modes[i * 7 % modes.size()]; int root = i & 1;
    trace_begin(); TRACE("kvtree_bcast of {%s} from %d to a process holding {%s}, %s", cdesc(t).c_str(), root, cdesc(held).c_str(), mpi_mode_str(m).c_str());
    run_group(whole(2), m, [&](int r, MPI_Comm c) { kvtree* h = build(r == root ? t : held); CHECK(kvtree_bcast(h, root, c) == KVTREE_SUCCESS, "kvtree_bcast fails"); expect(h, t, "kvtree_bcast", r); });
    outcome(i + 3333333333); n_valid();
  }, "all pairs of a tree broadcast and a tree held before, of up to 4 (5) entries over 2 keys, in changing modes");
  suite("large", 40 + 9, [&](uint64_t i) {
    if (i < 40) { static const int W[] = {32760, 32768, 65520, 65536, 70000, 131072, 262144, 1 << 20, 3 << 20, 5 << 20}; T t; t.put(Str(W[i % 10], 'w')).put("x"); t.put("last").put("y"); do_bcast(whole(3), i / 10 % 3, t, modes[i * 5 % modes.size()], i % 4); }
    else { static const int VN[] = {31, 32, 33, 64, 100, 127, 128, 200, 256}; int n = VN[i - 40]; for (int root : {0, 1, n / 2, n - 1}) for (int k = 0; k < 4; k++) do_bcast(whole(n), root, tagged(root, k), modes[(i * 5 + k) % modes.size()], k); }
  }, "trees of 32 KB to 5 MB; 31 to 256 processes");
  suite("bystanders", 5 * 15, [&](uint64_t i) { int n = i / 15 + 1; for (int root = 0; root < n; root++) for (auto& m : modes) { g_bystand = i % 15 + 1; do_bcast(whole(n), root, tagged(root, (root + n) % 4), m, (i + root) % 4); } if (n == 2 || n == 3) for (int root = 0; root < n; root++) for (auto& m : completion_modes()) { g_bystand = i % 15 + 1; schedules(n == 2 ? 2 : 1, [&](const std::function<int(const std::vector<int>&, int)>& pick) { do_bcast(whole(n), root, tagged(root, 1), m, 3, pick); }); } g_bystand = 0; }, "1 to 5 processes, every root, while messages of the application are under way: on the same communicator with another tag, on another communicator, received before or after, 15 combinations x 32 modes; 2 and 3 processes: all schedules with up to 2 or 1 deviations");
  // two communicators at the same time
  suite("overlapping", 16, [&](uint64_t i) {
    for (auto& m : modes) { trace_begin(); TRACE("two communicators of 4 processes, case %llu, %s", (unsigned long long)i, mpi_mode_str(m).c_str()); vfs.reset(4); mpi_mode = m; sched.pick = nullptr; n_eval(); MPI_Comm a = nullptr, b = nullptr;
      mpi_run(4, [&](int w) { if (!a) { a = mpi_make_comm(i & 1 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{3, 1, 0, 2}); b = mpi_make_comm(i & 2 ? std::vector<int>{2, 3} : std::vector<int>{3, 0, 1}); }
        auto rk = [&](MPI_Comm c) { for (size_t k = 0; k < c->mem.size(); k++) if (c->mem[k] == w) return (int)k; return -1; };
        for (int round = 0; round < 2; round++) { bool first_a = (i >> 2 & 1) == (unsigned)round % 2; for (int z = 0; z < 2; z++) { MPI_Comm c = (z == 0) == first_a ? a : b; int r = rk(c), root = (i >> 3 & 1) % c->mem.size(); if (r < 0) continue; T t = tagged(round * 10 + (c == a), 1 + round); kvtree* h = build(r == root ? t : prior(w)); kvtree_bcast(h, root, c); expect(h, t, "kvtree_bcast", w); } } });
      outcome(i * 64 + (&m - &modes[0]) + 777777); n_valid(); }
  }, "broadcasts alternating between two overlapping communicators, 32 modes");
  static auto ES = exact_sizes(9, g_thorough ? 9000 : 4200, g_thorough ? 23 : 21, -3, 3);
  suite("exact-sizes", (ES.size() + 15) / 16, [&](uint64_t b) { for (size_t i = b * 16; i < std::min(ES.size(), (size_t)b * 16 + 16); i++) do_bcast(whole(2 + i % 2), i / 2 % 2, exact_tree(ES[i]), modes[i * 5 % modes.size()], i % 4); }, "a tree of every packed size from 9 to 4200 (9000) bytes and within 3 bytes of every power of two up to 2^21 (2^23), 2 and 3 processes");
  suite("too-large", 6, [&](uint64_t i) { huge::transfer(2, huge::transfers[i]); }, "trees of 2^31-1 to more than 2^32 packed bytes: they arrive, or, if larger than a message may be, the program is ended");
  real_suite(real::BCAST);
}

// ---- C22 -------------------------------------------------------------------------
enum { X_BEST, X_LEFT, X_RIGHT };
typedef std::vector<std::vector<const T*>> Mat;   // what i sends to j; null: nothing
static void do_exchange(const Grp& g, int how, const Mat& M, const MpiMode& m, int build_kind, const std::function<int(const std::vector<int>&, int)>& pick = nullptr) {
  int n = g.n(); trace_begin(); if (g_verbose) { Str s; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (M[i][j]) s += sfmt(" %d->%d{%s}", i, j, cdesc(*M[i][j]).c_str()); TRACE("%s on %s:%s, %s", how == X_BEST ? "kvtree_exchange" : how == X_LEFT ? "kvtree_exchange_direction LEFT" : "kvtree_exchange_direction RIGHT", grp_str(g).c_str(), s.c_str(), mpi_mode_str(m).c_str()); }
  run_group(g, m, [&](int r, MPI_Comm c) {
    kvtree *s = kvtree_new(), *d = kvtree_new();
    for (int k = 0; k < n; k++) { int j = build_kind == 1 ? n - 1 - k : (k + r) % n; if (!M[r][j]) continue; kvtree* x = build(*M[r][j]); if (build_kind == 2) { CHECK(kvtree_exchange_sendq(s, j, x) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails"); kvtree_delete(&x); } else kvtree_setf(s, x, "%d", j); }
    Str before = ordered(observe(s));
    int rc = how == X_BEST ? kvtree_exchange(s, d, c) : kvtree_exchange_direction(s, d, c, how == X_LEFT ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
    CHECK(rc == KVTREE_SUCCESS, "the exchange fails"); CHECK(ordered(observe(s)) == before, "the exchange changed the outgoing trees of process %d", r);
    T want; for (int i = 0; i < n; i++) if (M[i][r]) want.put(sfmt("%d", i)) = *M[i][r];
    kvtree_delete(&s); expect(d, want, "exchange", r);
  }, pick);
  n_valid();
}
static const T& msg(int k) { static std::vector<T> v; if (v.empty()) { v = {parse("x(y)"), parse(""), parse("D(0(S(0))) S(1) 0 1 2"), parse("0(1(2)) 1(0) RANK(3(x))"), parse("a(b(c(d(e)))) f")}; for (int i = 0; i < 12; i++) { T t = parse("m"); t.put(sfmt("n%d", i)).put("z"); v.push_back(t); } T w; for (int i = 0; i < 300; i++) w.put(sfmt("w%d", i)).put("v"); v.push_back(w); } return v[k % v.size()]; }
CHECK_DEF(C22, "exploration", "a case is one matrix of messages, one exchange function, one communicator, one mode of the in-process MPI; distinct_nontrivial counts distinct (matrix, function, communicator, mode)") {
  static auto modes = mpi_modes();
  // all sets of messages among 1..3 processes, all modes; among 4 in changing modes
  static std::vector<std::pair<int, unsigned>> sets; for (int n = 1; n <= 3; n++) for (unsigned b = 0; b < (1u << (n * n)); b++) sets.push_back({n, b});
  auto mat = [](int n, uint64_t bits, int kind) { Mat M(n, std::vector<const T*>(n, nullptr)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (bits >> (i * n + j) & 1) M[i][j] = &msg(kind < 0 ? i * n + j : kind == 1 ? 1 : (i * n + j + kind)); return M; };
  suite("sets", sets.size(), [&](uint64_t i) { int n = sets[i].first; for (int how = 0; how < 3; how++) for (size_t m = 0; m < modes.size(); m++) { do_exchange(whole(n), how, mat(n, sets[i].second, m % 3), modes[m], m % 3); outcome(((uint64_t)i * 3 + how) * 64 + m); } }, "all sets of messages among 1 to 3 processes x 3 exchange functions x 32 modes");
  uint64_t blk = 64;
  suite("sets of 4", 65536 / blk, [&](uint64_t c) { for (uint64_t b = c * blk; b < (c + 1) * blk; b++) for (int how = 0; how < 3; how++) { if (!g_thorough && (b + how) % 3) continue; do_exchange(whole(4), how, mat(4, b, b % 2 ? -1 : 1 + b % 5), modes[(b * 7 + how * 5) % modes.size()], b % 3); outcome(b * 3 + how + (1ull << 40)); } }, "all 65536 sets of messages among 4 processes, each with one of the exchange functions (thorough: each), in changing modes");
  // every pair of messages among 5..9 processes
  static std::vector<std::array<int, 3>> pairs; int NP = g_thorough ? 12 : 9; for (int n = 5; n <= NP; n++) for (int a = 0; a < n * n; a++) for (int b = a; b < n * n; b++) { if (!g_thorough && n > 6 && (a * 31 + b * 17) % (n * n / 8)) continue; pairs.push_back({n, a, b}); }
  suite("pairs", pairs.size(), [&](uint64_t i) { auto& p = pairs[i]; int n = p[0]; Mat M(n, std::vector<const T*>(n, nullptr)); M[p[1] / n][p[1] % n] = &msg(p[1]); M[p[2] / n][p[2] % n] = &msg(p[2] + 1); for (int how = 0; how < 3; how++) { do_exchange(whole(n), how, M, modes[(i * 3 + how) % modes.size()], 0); outcome(((uint64_t)p[0] << 32) + p[1] * 1000 + p[2] + ((uint64_t)how << 50)); } }, "every single message and (thorough: every; quick: every for 5 and 6, a fixed part otherwise) pair of messages among 5 to 9 (12) processes x 3 exchange functions");
  suite("dense", 24, [&](uint64_t z) { int n = z + 1; for (int how = 0; how < 3; how++) for (int kind = 0; kind < 8; kind++) { Mat M(n, std::vector<const T*>(n, nullptr)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool on = kind < 2 ? true : kind == 2 ? (i + j) % 2 : kind == 3 ? j == 0 : kind == 4 ? i == 0 : kind == 5 ? j == n - 1 - i : kind == 6 ? j == (i * 2 + 1) % n : (i * 5 + j * 3) % 4 == 0; if (on) M[i][j] = &msg(kind == 1 ? 1 : i * 3 + j); } do_exchange(whole(n), how, M, modes[(z * 5 + how * 3 + kind) % modes.size()], kind % 3); outcome(z * 64 + how * 8 + kind + (1ull << 45)); } }, "1 to 24 processes: all to all, empty messages, one to all, all to one, transposed and scattered patterns");
  suite("single", 24, [&](uint64_t z) { int n = z + 1; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int how = 0; how < 3; how++) { if (!g_thorough && n > 12 && (a + b * 5 + how) % 7) continue; Mat M(n, std::vector<const T*>(n, nullptr)); M[a][b] = &msg(a); do_exchange(whole(n), how, M, modes[(a + b * 3 + how) % modes.size()], 0); outcome(z * 4096 + a * 128 + b * 4 + how + (1ull << 46)); } }, "every single message among up to 12 (24) processes");
  static auto CN = counts(25);
  suite("counts", CN.size() * 3, [&](uint64_t z) { int n = CN[z / 3], how = z % 3; for (int kind = 0; kind < 3; kind++) { Mat M(n, std::vector<const T*>(n, nullptr)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (kind == 0 ? (n < 70 ? (i * 5 + j * 3) % 4 == 0 : (i * 5 + j) % 37 == 0) : kind == 1 ? j == (i * 2 + 1) % n || i == j : j == (i + n / 2) % n || j == n - 1 - i) M[i][j] = &msg(i * 3 + j); do_exchange(whole(n), how, M, modes[(z * 5 + kind) % modes.size()], kind); outcome(z * 4 + kind + (1ull << 53)); } }, "25 to 70 processes and up to 300 around powers of two and ten: scattered, to twice the rank and oneself, opposite and mirrored");
  static const int VN[] = {31, 32, 33, 47, 63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257};
  suite("very-many", 15 * 3, [&](uint64_t i) {
    int n = VN[i / 3], how = i % 3; std::vector<int> sh = {0, 1, 2, 3, n / 3, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1}; for (int b = 4; b < n; b *= 2) { sh.push_back(b - 1); sh.push_back(b); }
    for (int k = 0; k < (int)sh.size() + 3; k++) {
      if (!g_thorough && n > 130 && k < (int)sh.size() && (k + how) % 4) continue;
      Mat M(n, std::vector<const T*>(n, nullptr)); for (int a = 0; a < n; a++) { if (k < (int)sh.size()) M[a][(a + sh[k]) % n] = &msg(a); else if (k == (int)sh.size()) M[a][n - 1] = &msg(a % 5); else if (k == (int)sh.size() + 1) M[a][0] = &msg(1); else M[0][a] = &msg(a % 7); }
      do_exchange(whole(n), how, M, modes[(i * 5 + k) % modes.size()], k % 3); outcome(i * 128 + k + (1ull << 52));
    }
  }, "31 to 257 processes: every process sends to the one s further on for s around every power of two, all to the first or last, one to all");
  suite("large", 3 * 8, [&](uint64_t i) {
    static std::vector<T> L; if (L.empty()) for (int w : {65500, 65536, 70000, 262144, 1 << 20, 3 << 20}) { T t; t.put(Str(w, 'w')).put("x"); t.put("last").put(sfmt("%d", w)); L.push_back(t); }
    int how = i % 3, n = i / 3 + 1; Mat M(n, std::vector<const T*>(n, nullptr)); for (int a = 0; a < n; a++) for (int d = 0; d < 2; d++) M[a][(a * 3 + d * 2 + 1) % n] = &L[(a + d) % L.size()]; do_exchange(whole(n), how, M, modes[(i * 7) % modes.size()], 0); outcome(i + (1ull << 53));
  }, "messages of 64 KB to 3 MB among 1 to 8 processes");
  static auto ES = exact_sizes(9, g_thorough ? 9000 : 4200, g_thorough ? 22 : 18, -48, 3);
  suite("exact-sizes", (ES.size() + 15) / 16, [&](uint64_t b) { for (size_t i = b * 16; i < std::min(ES.size(), (size_t)b * 16 + 16); i++) for (int how = 0; how < (ES[i] < 70000 ? 3 : 1); how++) {
    int h = ES[i] < 70000 ? how : i % 3, n = 2 + i % 2; T t = exact_tree(ES[i]), u = exact_tree(ES[(i * 31 + 7) % 4000]); Mat M(n, std::vector<const T*>(n, nullptr)); M[0][n - 1] = &t; if (i % 3) M[n - 1][0] = &u; if (i % 5 == 0) M[0][0] = &t; do_exchange(whole(n), h, M, modes[(i * 5 + how) % modes.size()], i % 3); outcome(ES[i] * 3 + h + 987654321987); } }, "messages of every packed size from 9 to 4200 (9000) bytes and from 48 bytes below to 3 above every power of two up to 2^18 (2^22) (what travels holds bookkeeping as well), 2 and 3 processes, 3 exchange functions");
  suite("communicators", 4 * 512, [&](uint64_t i) { int n = i / 512 + 1; unsigned b = i % 512; if (n < 3 && b >= (1u << (n * n))) return; uint64_t bits = n == 4 ? (b * 2654435761u) & 0xffff : b; auto gs = groups(n, g_thorough || b % 16 == 0); int k = 0; for (auto& g : gs) { k++; do_exchange(g, (b + k) % 3, mat(n, bits, k % 3 - 1), modes[(b + k * 11) % modes.size()], k % 3); outcome(i * 64 + k + (1ull << 47)); } }, "sets of messages on reordered and partial communicators");
  suite("schedules", 3 * (4 + 40), [&](uint64_t i) { int how = i % 3, k = i / 3; int n = k < 4 ? 2 : 3; unsigned bits = k < 4 ? (unsigned[]){15, 6, 2, 9}[k] : (k - 4) * 13 + 1; for (auto& m : completion_modes()) schedules(n == 2 ? 4 : (g_thorough ? 2 : 1), [&](const std::function<int(const std::vector<int>&, int)>& pick) { do_exchange(whole(n), how, mat(n, bits & ((1u << n * n) - 1), 2), m, 0, pick); }); outcome(i + (1ull << 48)); }, "2 and 3 processes, all schedules with up to 4 (2 processes) or 1 (3; thorough 2) deviations from the default order at message calls, every completion mode");
  suite("bystanders", sets.size(), [&](uint64_t i) { int n = sets[i].first; for (int how = 0; how < 3; how++) for (int b = 1; b < 16; b++) { if (n == 3 && (i + b + how) % 3 && !g_thorough) continue; for (int k = 0; k < (n <= 2 ? (int)modes.size() : 2); k++) { g_bystand = b; do_exchange(whole(n), how, mat(n, sets[i].second, k % 3), modes[n <= 2 ? k : (i + b * 3 + k * 13) % modes.size()], b % 3); outcome(((uint64_t)i * 3 + how) * 1024 + b * 64 + k + (1ull << 54)); } } g_bystand = 0; }, "all sets of messages among 1 to 3 processes x 3 exchange functions while messages of the application are under way: on the same communicator with another tag, on another communicator, received before or after, 15 combinations x modes");
  // messages queued for the same destination are combined
  static std::vector<T> U = universe(2, {"a", "b"});
  suite("queue", U.size() * U.size(), [&](uint64_t i) {
    const T &x = U[i / U.size()], &y = U[i % U.size()];
    for (int how = 0; how < 3; how++) for (int z = 0; z < 3; z++) {
      trace_begin(); TRACE("queueing {%s} and {%s} for the same process", cdesc(x).c_str(), cdesc(y).c_str());
      run_group(whole(3), modes[(i + how + z) % modes.size()], [&](int r, MPI_Comm c) {
        kvtree *s = kvtree_new(), *d = kvtree_new(); int to = (r + z) % 3; Sent a(x), b(y); CHECK(kvtree_exchange_sendq(s, to, a.h) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails"); CHECK(kvtree_exchange_sendq(s, to, b.h) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails");
        kvtree* e = kvtree_new(); kvtree_set_kv_int(e, "other", r); kvtree_exchange_sendq(s, (to + 1) % 3, e); kvtree_delete(&e); a.check("kvtree_exchange_sendq"); b.check("kvtree_exchange_sendq");
        how == 0 ? kvtree_exchange(s, d, c) : kvtree_exchange_direction(s, d, c, how == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
        T w; w.put(sfmt("%d", (r + 3 - z) % 3)) = tunion(x, y); w.put(sfmt("%d", (r + 5 - z) % 3)).put("other").put(sfmt("%d", (r + 5 - z) % 3)); kvtree_delete(&s); expect(d, w, "exchange of queued messages", r);
      }); n_valid(); outcome(i * 16 + how * 4 + z + (1ull << 49));
    }
  }, "all pairs of trees of up to 2 entries queued for the same destination, then a third message, exchanged in every direction");
  // repeated exchanges do not disturb each other
  suite("repeated", 32, [&](uint64_t i) { const MpiMode& m = modes[i]; for (int n = 1; n <= 6; n++) { trace_begin(); TRACE("three exchanges in a row among %d processes, %s", n, mpi_mode_str(m).c_str()); run_group(whole(n), m, [&](int r, MPI_Comm c) { for (int k = 0; k < 3; k++) { kvtree *s = kvtree_new(), *d = kvtree_new(); for (int j = 0; j < n; j++) if ((r + j * 2 + k) % 3) { kvtree* x = build(tagged(r * 100 + j * 10 + k, 1)); kvtree_setf(s, x, "%d", j); } if (k == 0) kvtree_exchange(s, d, c); else kvtree_exchange_direction(s, d, c, k == 1 ? KVTREE_EXCHANGE_RIGHT : KVTREE_EXCHANGE_LEFT); T w; for (int q = 0; q < n; q++) if ((q + r * 2 + k) % 3) w.put(sfmt("%d", q)) = tagged(q * 100 + r * 10 + k, 1); kvtree_delete(&s); expect(d, w, "exchange", r); } }); n_valid(); outcome(i * 8 + n + (1ull << 51)); } }, "three exchanges in a row among 1 to 6 processes, 32 modes");
  real_suite(real::EXCHANGE); real_suite(real::DIRECTION);
}
