// C17 (locked operations are atomic), C18 (read-modify-write), C19 (no lock, no access).
// Processes are fibers; every system call that touches shared state is a
// scheduling point; all interleavings are explored, states already seen pruned.
#include "api.h"
#include "fiber.h"
#include <algorithm>
#include <cerrno>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
extern void vfs_real_root(const Str&);

// ---- programs ----------------------------------------------------------------
enum { O_R, O_WS, O_WB, O_WE, O_MG, O_MS, O_ME, O_N };
static const char* opname[] = {"read_with_lock", "write_with_lock (small)", "write_with_lock (big)", "write_with_lock (empty)", "read-modify-write (grow)", "read-modify-write (shrink)", "read-modify-write (empty)"};
typedef std::vector<std::vector<int>> Prog;
static T wide(const Str& p, int n) { T t; for (int i = 0; i < n; i++) t.put(p).put(sfmt("%d", i)).put("value"); return t; }
static T small_tree(int p, int i) { T t; t.put(sfmt("w%d%d", p, i)); return t; }
static T big_tree(int p, int i) { return wide(sfmt("W%d%d", p, i), 12); }
// what a read-modify-write makes of the tree it read
static T modify(T t, int p, int i, int kind) {
  if (kind == O_ME) return T();
  bool shrink = kind == O_MS;
  if (shrink) { std::vector<Str> rm; for (auto& e : t.k) if (e.first[0] == 'W' || e.first[0] == 'g') rm.push_back(e.first); for (auto& r : rm) t.del(r); t.put(sfmt("s%d%d", p, i)); }
  else { t.put(sfmt("m%d%d", p, i)); for (int j = 0; j < 8; j++) t.put(sfmt("g%d%d", p, i)).put(sfmt("%d", j)); }
  return t;
}
static T init_tree(int k) { return k == 1 ? parse("i") : wide("W", 10); }

struct OpRec { int kind; int p, i; uint64_t s = 0, e = 0; bool started = false, done = false, ok = false, dead = false; T got; };
struct Ev { int proc, op, err; long ret; bool blocked; };
static bool operator!=(const Ev& a, const Ev& b) { return a.proc != b.proc || a.op != b.op || a.err != b.err || a.ret != b.ret || a.blocked != b.blocked; }
static Str ev_str(const Ev& e) { return e.blocked ? sfmt("[%d] %s waits", e.proc, sysop_name[e.op]) : sfmt("[%d] %s -> %ld%s%s", e.proc, sysop_name[e.op], e.ret, e.ret < 0 ? " " : "", e.ret < 0 ? strerrorname_np(e.err) : ""); }
static Ev mkev(const Sys& s, int proc) { Ev e; e.proc = proc; e.op = s.op; e.ret = s.op == S_OPEN && s.ret >= 0 ? 0 : s.ret; e.err = s.ret < 0 ? s.err : 0; e.blocked = false; return e; }
// calls that neither see nor change anything shared: opening or testing a file
// that exists already, closing a file the process holds no lock on, ...
static bool local_call(const Sys& s, int p) {
  switch (s.op) {
    case S_UMASK: case S_LSEEK: case S_FSYNC: case S_USLEEP: return true;
    case S_OPEN: case S_ACCESS: case S_STAT: if (s.path.empty() || (s.op == S_OPEN && (s.arg & (O_TRUNC | O_EXCL)))) return false; return vfs.exists(s.path[0] == '/' ? s.path : VROOT "/" + s.path);
    case S_CLOSE: { auto it = vfs.procs[p].fds.find(s.fd); if (it == vfs.procs[p].fds.end()) return false; auto l = vfs.locks.find(it->second->ino->id); if (l == vfs.locks.end()) return true; for (auto& q : l->second) if (q.proc == p) return false; return true; }
    default: return false;
  }
}

static bool one_op(const Api& A, OpRec& r) {
  if (r.kind == O_R) { kvtree* h = kvtree_new(); bool ok = A.kvtree_read_with_lock("f", h) == KVTREE_SUCCESS; r.got = observe(h); if (!ok) CHECK(r.got.k.empty(), "a failed read changed the tree"); kvtree_delete(&h); return ok; }
  if (r.kind == O_WS || r.kind == O_WB || r.kind == O_WE) { kvtree* h = build(r.kind == O_WS ? small_tree(r.p, r.i) : r.kind == O_WB ? big_tree(r.p, r.i) : T()); bool ok = A.kvtree_write_with_lock("f", h) == KVTREE_SUCCESS; kvtree_delete(&h); return ok; }
  int fd = -7; kvtree* h = kvtree_new(); bool ok = A.kvtree_lock_open_read("f", &fd, h) == KVTREE_SUCCESS;
  if (ok) { r.got = observe(h); kvtree* n = build(modify(r.got, r.p, r.i, r.kind)); ok = A.kvtree_write_close_unlock("f", &fd, n) == KVTREE_SUCCESS; CHECK(fd == -1, "kvtree_write_close_unlock does not mark the descriptor closed"); kvtree_delete(&n); }
  kvtree_delete(&h); return ok;
}

// ---- linearization -------------------------------------------------------------
// Is there an order of the operations, respecting real time, in which every one
// sees the value left by the previous ones?  Dead operations may be left out.
struct Lin {
  const std::vector<OpRec>& v; Str fin; bool torn_ok; std::set<std::pair<unsigned, Str>> bad;
  bool go(unsigned donemask, const T& val) {
    if (donemask == (1u << v.size()) - 1) return torn_ok || canon(val) == fin;
    Str cv = canon(val); auto key = std::make_pair(donemask, cv); if (bad.count(key)) return false;
    for (size_t k = 0; k < v.size(); k++) {
      if (donemask >> k & 1) continue; const OpRec& o = v[k];
      bool first = true; for (size_t j = 0; j < v.size(); j++) if (j != k && !(donemask >> j & 1) && v[j].done && v[j].e < o.s) { first = false; break; }
      if (!first) continue;
      if (o.dead && go(donemask | 1u << k, val)) return true;              // had no effect
      T n = val;
      if (o.kind == O_R || o.kind >= O_MG) { if (!o.dead && canon(o.got) != cv) continue; }
      if (o.kind == O_WS) n = small_tree(o.p, o.i); else if (o.kind == O_WB) n = big_tree(o.p, o.i); else if (o.kind == O_WE) n = T(); else if (o.kind >= O_MG) n = modify(val, o.p, o.i, o.kind);
      if (go(donemask | 1u << k, n)) return true;
    }
    bad.insert(key); return false;
  }
};
static void check_lin(const std::vector<OpRec>& ops, const T& init, const Str& fin, bool torn_ok) {
  Lin l{ops, fin, torn_ok, {}};
  if (l.go(0, init)) return;
  Str s; for (auto& o : ops) s += sfmt("\n    [%d] %s %llu..%s: %s", o.p, opname[o.kind], (unsigned long long)o.s, o.dead ? "died" : sfmt("%llu", (unsigned long long)o.e).c_str(), o.kind == O_R || o.kind >= O_MG ? ("read {" + cdesc(o.got) + "}").c_str() : "");
  fail("no order of the operations explains the trees that were read and the final content:%s", s.c_str());
}

// ---- one execution ---------------------------------------------------------------
struct Exec { std::vector<Ev> ev; std::vector<int> sched; std::vector<OpRec> ops; Str fin; bool torn = false; std::vector<std::vector<bool>> gate; };
struct Job { const Api* A; Prog prog; int init; size_t chop = 0; bool deaths = false; };
static void run_model(const Job& J, Exec& X, Explorer& ex, std::unordered_set<uint64_t>& seen, bool record) {
  int n = J.prog.size(); vfs.reset(n); X = Exec(); T init = J.init ? init_tree(J.init) : T();
  if (J.init) vfs.put("f", enc_image(enc_pack(init)));
  X.gate.assign(n, {}); std::vector<std::vector<int>> at(n); for (int p = 0; p < n; p++) for (size_t i = 0; i < J.prog[p].size(); i++) { OpRec r; r.kind = J.prog[p][i]; r.p = p; r.i = i; at[p].push_back(X.ops.size()); X.ops.push_back(r); }
  std::vector<uint64_t> hist(n, 0); std::vector<int> cur(n, -1), ndone(n, 0); uint64_t clock = 0; bool pruned = false; int deaths = 0;
  auto mix = [&](int p, uint64_t x) { hist[p] = (hist[p] ^ x) * 0x9e3779b97f4a7c15ull; hist[p] ^= hist[p] >> 29; };
  Leaks lk;
  auto key = [&]() { uint64_t h = 1469598103934665603ull; auto m = [&](uint64_t x) { h = (h ^ x) * 0x9e3779b97f4a7c15ull; h ^= h >> 31; }; for (auto x : hist) m(x); for (auto& f : vfs.names) if (!f.second->dir) { m(fnv(f.first)); m(fnv(f.second->data)); m(f.second->id); } for (auto& l : vfs.locks) for (auto& q : l.second) { m(l.first); m(q.proc * 2 + q.excl); } m(deaths); return h; };
  vfs.before = [&](Sys& s) -> Ans {
    int p = sched.cur; if (p < 0) return Ans();
    bool gate = !local_call(s, p); if (record) X.gate[p].push_back(gate);
    if (gate) {
      fiber_yield(); vfs.cur = p; s.proc = p; clock++;
      if (cur[p] >= 0) { OpRec& o = X.ops[cur[p]]; if (!o.started) { o.started = true; o.s = clock; uint64_t c = 0; for (int q = 0; q < n; q++) c = c * 8 + ndone[q]; mix(p, c + 77); } }
      if (J.deaths && deaths == 0 && cur[p] >= 0 && !pruned) {
        int c = ex.choose(s.op == S_WRITE && s.n > 1 ? 3 : 2, false);
        if (c) {
          // the process is killed here; a write in progress may have got half way
          TRACE("    [%d] dies", p); deaths = 1; OpRec& o = X.ops[cur[p]]; o.dead = true; if (o.kind != O_R) X.torn = true; mix(p, 0xdead + c);
          if (c == 2) { auto it = vfs.procs[p].fds.find(s.fd); if (it != vfs.procs[p].fds.end()) { Str& d = it->second->ino->data; off_t pos = it->second->pos; size_t k = s.n / 2; if (d.size() < pos + k) d.resize(pos + k); memcpy(&d[pos], s.data, k); } }
          for (auto it = vfs.procs[p].fds.begin(); it != vfs.procs[p].fds.end();) { OfdP o2 = it->second; for (auto l = vfs.locks.begin(); l != vfs.locks.end();) { auto& v = l->second; v.erase(std::remove_if(v.begin(), v.end(), [&](const Lock& q) { return q.proc == p; }), v.end()); if (v.empty()) l = vfs.locks.erase(l); else ++l; } if (o2->foreign) ++it; else it = vfs.procs[p].fds.erase(it); }
          fiber_die();
        }
      }
    }
    Ans a; if (J.chop && (s.op == S_READ || s.op == S_WRITE) && s.n > J.chop) { a.k = Ans::PART; a.n = J.chop; }
    return a;
  };
  vfs.after = [&](const Sys& s) {
    int p = s.proc; if (sched.cur < 0) return;
    uint64_t h = s.op * 1000003ull + s.ret * 131 + s.err; if (s.op == S_OPEN) h = s.op * 1000003ull + (s.ret >= 0);
    if (s.op == S_READ && s.ret > 0) { OfdP o = vfs.procs[p].fds[s.fd]; h = fnv(o->ino->data.data() + o->pos - s.ret, s.ret, h); }
    mix(p, h); if (record) X.ev.push_back(mkev(s, p));
  };
  vfs.wait_lock = [&](Sys& s, const std::function<bool()>& av) { int p = sched.cur; if (p < 0) return false; if (record) { Ev e = mkev(s, p); e.ret = 0; e.err = 0; e.blocked = true; X.ev.push_back(e); } mix(p, 0xb10c); TRACE("    [%d] waits for the lock", p); fiber_block(av, "waits for the lock"); vfs.cur = p; return true; };
  sched.what = "processes"; sched.on_switch = [&](int t) { vfs.cur = t; };
  sched.pick = [&](const std::vector<int>& en, int) {
    int t;
    if (en.size() == 1 || pruned) t = en[0];
    else if (ex.pos >= ex.st.size() && !seen.insert(key()).second) { pruned = true; t = en[0]; }
    else t = en[ex.choose(en.size(), false)];
    if (record) X.sched.push_back(t); n_trans(); return t;
  };
  fibers_run(n, [&](int p) {
    for (size_t i = 0; i < J.prog[p].size(); i++) {
      cur[p] = at[p][i]; OpRec& r = X.ops[cur[p]];
      TRACE("  [%d] starts %s", p, opname[r.kind]);
      r.ok = one_op(*J.A, r); r.done = true; r.e = clock; ndone[p]++; mix(p, 0xd09e + (r.started ? 0 : 1)); cur[p] = -1; if (!r.started) { r.started = true; r.s = clock; }
      TRACE("  [%d] %s %s%s", p, opname[r.kind], r.ok ? "done" : "FAILS", r.kind == O_R || r.kind >= O_MG ? (", read {" + cdesc(r.got) + "}").c_str() : "");
    }
  });
  vfs.before = nullptr; vfs.after = nullptr; vfs.wait_lock = nullptr; sched.pick = nullptr; sched.on_switch = nullptr;
  bool any_torn = X.torn;
  std::vector<OpRec> used; for (auto& o : X.ops) { if (!o.started && !o.done) continue; if (o.done && !o.ok) { CHECK(any_torn, "%s of process %d fails", opname[o.kind], o.p); continue; } used.push_back(o); }
  Str f = vfs.content("f"); T fin; int d = f == "<missing>" ? 1 : dec_image(f, fin); if (d == 1) fin = T();
  X.fin = d < 0 ? "?" : canon(fin); CHECK(d >= 0 || any_torn, "the file is left incomplete");
  check_lin(used, init, X.fin, any_torn && d < 0);
  for (int p = 0; p < n; p++) CHECK(vfs.open_fds(p) == 0, "process %d is left with an open descriptor", p);
  CHECK(vfs.nlocks() == 0, "a lock is left behind");
  if (!deaths) lk.check("after all operations"); else heap.live = lk.base;
}
static uint64_t outcome_of(const Exec& X) { uint64_t h = fnv(X.fin); for (auto& o : X.ops) h = fnv(canon(o.got), h * 31 + o.ok + o.dead * 2); return h; }
static Str job_str(const Job& J) { Str s = Str(J.A->name) + ", " + (J.init == 0 ? "no file" : J.init == 1 ? "small file" : "big file") + (J.chop ? sfmt(", transfers of at most %zu bytes", J.chop) : "") + (J.deaths ? ", one process may die" : ""); for (auto& p : J.prog) { s += " | "; for (auto o : p) s += Str(opname[o]) + "; "; } return s; }
static uint64_t explore_job(const Job& J, const std::function<void(Exec&)>& each = nullptr) {
  std::unordered_set<uint64_t> seen; Exec X; uint64_t runs = explore(1 << 30, [&](Explorer& ex) { trace_begin(); TRACE("%s", job_str(J).c_str()); run_model(J, X, ex, seen, (bool)each); n_eval(); outcome(outcome_of(X) + fnv(job_str(J))); if (each) each(X); });
  n_state(seen.size()); if (getenv("KV_JOBSTAT")) dprintf(2, "%zu %llu %s\n", seen.size(), (unsigned long long)runs, job_str(J).c_str()); return runs;
}

// ---- conformance: the same schedule with processes on the kernel -------------------
struct Msg { char k; Ev e; };   // E event, G at a scheduling point, B waits, D done
static Str g_dir;
static void kernel_replay(const Job& J, const Exec& X) {
  int n = J.prog.size(); Str dir = g_dir + sfmt("/%d", (int)getpid()); mkdir(dir.c_str(), 0755);
  if (J.init) { FILE* f = fopen((dir + "/f").c_str(), "w"); Str s = enc_image(enc_pack(init_tree(J.init))); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) harness_error("kernel replay file"); fclose(f); }
  struct Ch { pid_t pid; int in, out; bool done = false; }; std::vector<Ch> c(n);
  for (int p = 0; p < n; p++) {
    int a[2], b[2]; if (pipe(a) || pipe(b)) harness_error("pipe");
    pid_t pid = fork(); if (pid < 0) harness_error("fork");
    if (pid == 0) {
      close(a[1]); close(b[0]); for (int q = 0; q < p; q++) { close(c[q].in); close(c[q].out); }
      umask(022); vfs.reset(n); vfs_real_root(dir); g_verbose = false;
      auto turn = [&]() { char x; if (read(a[0], &x, 1) != 1) _exit(9); };
      auto send = [&](char k, const Ev* e) { Msg m; memset(&m, 0, sizeof m); m.k = k; if (e) m.e = *e; if (write(b[1], &m, sizeof m) != sizeof m) _exit(9); };
      size_t call = 0; vfs.before = [&](Sys& s) -> Ans { if (call < X.gate[p].size() && X.gate[p][call++]) { send('G', nullptr); turn(); } Ans r; if (J.chop && (s.op == S_READ || s.op == S_WRITE) && s.n > J.chop) { r.k = Ans::PART; r.n = J.chop; } return r; };
      vfs.after = [&](const Sys& s) { Ev e = mkev(s, p); send('E', &e); };
      vfs.wait_lock = [&](Sys& s, const std::function<bool()>&) { Ev e = mkev(s, p); e.ret = 0; e.err = 0; e.blocked = true; send('E', &e); send('B', nullptr); turn(); return true; };
      turn(); Str res;
      for (size_t i = 0; i < J.prog[p].size(); i++) { OpRec r; r.kind = J.prog[p][i]; r.p = p; r.i = i; g_real_fs = true; r.ok = one_op(*J.A, r); g_real_fs = false; res += sfmt("%d", r.ok) + canon(r.got) + ";"; }
      send('D', nullptr); uint32_t l = res.size(); if (write(b[1], &l, 4) != 4 || write(b[1], res.data(), l) != (ssize_t)l) _exit(9);
      _exit(0);
    }
    close(a[0]); close(b[1]); c[p].pid = pid; c[p].in = a[1]; c[p].out = b[0];
  }
  auto bail = [&](const Str& why) { for (auto& x : c) { kill(x.pid, SIGKILL); waitpid(x.pid, nullptr, 0); close(x.in); close(x.out); } unlink((dir + "/f").c_str()); rmdir(dir.c_str()); harness_error("%s", why.c_str()); };
  size_t at = 0; std::vector<Str> res(n);
  auto rd = [&](int fd, void* p, size_t l) { size_t k = 0; while (k < l) { ssize_t x = read(fd, (char*)p + k, l - k); if (x <= 0) return false; k += x; } return true; };
  for (size_t st = 0; st < X.sched.size(); st++) {
    Ch& x = c[X.sched[st]]; char y = 1; if (write(x.in, &y, 1) != 1) bail("kernel replay: process ended early");
    for (;;) {
      Msg m; if (!rd(x.out, &m, sizeof m)) bail(sfmt("kernel replay: process %d ended unexpectedly", X.sched[st]));
      if (m.k == 'E') { if (at >= X.ev.size() || m.e != X.ev[at]) bail(sfmt("the file system model and the kernel disagree at event %zu: model %s, kernel %s (%s)", at, at < X.ev.size() ? ev_str(X.ev[at]).c_str() : "nothing", ev_str(m.e).c_str(), job_str(J).c_str())); at++; continue; }
      if (m.k == 'D') { uint32_t l; if (!rd(x.out, &l, 4) || l > 1000000) bail("kernel replay: bad result"); res[X.sched[st]].resize(l); if (!rd(x.out, &res[X.sched[st]][0], l)) bail("kernel replay: bad result"); x.done = true; }
      break;
    }
  }
  for (int p = 0; p < n; p++) if (!c[p].done) bail("kernel replay: a process did not finish");
  for (int p = 0; p < n; p++) { Str w; for (auto& o : X.ops) if (o.p == p) w += sfmt("%d", o.ok) + canon(o.got) + ";"; if (w != res[p]) bail(sfmt("kernel replay: process %d sees %s instead of %s", p, res[p].c_str(), w.c_str())); }
  Str f; { FILE* q = fopen((dir + "/f").c_str(), "r"); if (q) { char b[65536]; size_t k = fread(b, 1, sizeof b, q); f.assign(b, k); fclose(q); } else f = "<missing>"; }
  if (f != vfs.content("f")) bail("kernel replay: the final file differs");
  for (auto& x : c) { waitpid(x.pid, nullptr, 0); close(x.in); close(x.out); } unlink((dir + "/f").c_str()); rmdir(dir.c_str());
  n_valid();
}
static void make_dir() { g_dir = scratch_dir(); }

// ---- C17 -------------------------------------------------------------------------
// programs up to renaming of the processes: non-decreasing sequences
static void progs(const std::vector<std::vector<int>>& choices, int n, std::vector<Prog>& out, Prog cur = {}, size_t from = 0) {
  if ((int)cur.size() == n) { out.push_back(cur); return; }
  for (size_t i = from; i < choices.size(); i++) { Prog c = cur; c.push_back(choices[i]); progs(choices, n, out, c, i); }
}
static std::vector<std::vector<int>> seqs(const std::vector<int>& al, int lo, int hi) {
  std::vector<std::vector<int>> v, cur = {{}}; for (int l = 0; l <= hi; l++) { if (l >= lo) v.insert(v.end(), cur.begin(), cur.end()); std::vector<std::vector<int>> nx; for (auto& c : cur) for (int a : al) { auto d = c; d.push_back(a); nx.push_back(d); } cur.swap(nx); } return v;
}
static void add_jobs(std::vector<Job>& v, const std::vector<Prog>& ps, const std::vector<int>& inits, const std::vector<size_t>& chops, bool deaths = false) {
  for (auto& p : ps) for (int v2 = 0; v2 < 2; v2++) for (int in : inits) for (size_t c : chops) { Job j; j.A = &API[v2]; j.prog = p; j.init = in; j.chop = c; j.deaths = deaths; v.push_back(j); }
}
static bool writes(const Prog& p) { for (auto& q : p) for (int o : q) if (o != O_R) return true; return false; }
static void drop_readonly(std::vector<Prog>& v) { std::vector<Prog> w; for (auto& p : v) if (writes(p)) w.push_back(p); v.swap(w); }
CHECK_DEF(C17, "model_checking", "a state is (observed history of every process, file contents, locks); every interleaving of shared system calls is explored; distinct_nontrivial counts distinct (program, results, final content)") {
  static std::vector<Job> two, three, long2, dying, kern, empty; std::vector<Prog> ps;
  progs(seqs({O_R, O_WS, O_WB, O_MG, O_MS}, 1, 2), 2, ps); drop_readonly(ps); add_jobs(two, ps, {0, 2}, g_thorough ? std::vector<size_t>{0, 25} : std::vector<size_t>{0});
  ps.clear(); progs(seqs({O_R, O_WS, O_WB, O_MG, O_MS}, 1, 1), 2, ps); add_jobs(two, ps, {0, 1, 2}, {7, 60});
  suite("two processes", two.size(), [&](uint64_t i) { explore_job(two[i]); }, "all programs of 2 processes with 1 or 2 locked operations each (up to renaming), over no file and existing files, both locking builds, whole and chopped transfers, all interleavings");
  ps.clear(); progs(seqs({O_R, O_WS, O_WB, O_MG, O_MS}, 1, 1), 3, ps); drop_readonly(ps); add_jobs(three, ps, {0, 2}, {0});
  if (g_thorough) { ps.clear(); progs(seqs({O_R, O_WS, O_WB, O_MG}, 1, 1), 4, ps); drop_readonly(ps); add_jobs(three, ps, {2}, {0}); ps.clear(); progs(seqs({O_R, O_WB, O_MS}, 1, 2), 3, ps); drop_readonly(ps); add_jobs(three, ps, {1}, {0}); }
  suite("three processes", three.size(), [&](uint64_t i) { explore_job(three[i]); }, "all programs of 3 processes with one operation each (thorough: up to two each, and 4 processes with one each), all interleavings");
  ps.clear(); progs({{O_R, O_R, O_R}, {O_WB, O_WS, O_WB}, {O_MG, O_MS}, {O_WS, O_R, O_MG}, {O_R, O_WB, O_R}}, 2, ps); drop_readonly(ps); add_jobs(long2, ps, g_thorough ? std::vector<int>{0, 1} : std::vector<int>{1}, {0});
  ps.clear(); progs(seqs({O_R, O_WB, O_WE, O_MG, O_ME}, 1, 1), 2, ps); drop_readonly(ps); add_jobs(empty, ps, {0, 1, 2}, {0, 7, 60}); ps.clear(); progs({{O_R}, {O_WB}, {O_WE}, {O_ME}, {O_R, O_WE}, {O_ME, O_R}, {O_WE, O_WB}}, 2, ps); drop_readonly(ps); add_jobs(empty, ps, {2}, {0}); ps.clear(); progs(seqs({O_R, O_WB, O_WE, O_ME}, 1, 1), 3, ps); drop_readonly(ps); add_jobs(empty, ps, {2}, {0});
  suite("empty trees", empty.size(), [&](uint64_t i) { explore_job(empty[i]); }, "the same with writers that write an empty tree or take everything away, all interleavings");
  suite("longer", long2.size(), [&](uint64_t i) { explore_job(long2[i]); }, "2 processes with up to 3 operations each, all interleavings");
  ps.clear(); progs(seqs({O_R, O_WS, O_WB, O_MG, O_MS}, 1, 1), 2, ps); { std::vector<Prog> q; progs(seqs({O_R, O_WB, O_MG, O_MS}, 1, 2), 2, q); if (g_thorough) ps.insert(ps.end(), q.begin(), q.end()); } add_jobs(dying, ps, {0, 1, 2}, {0}, true); ps.clear(); progs(seqs({O_R, O_WB, O_MG}, 1, 1), 3, ps); add_jobs(dying, ps, {2}, {0}, true);
  suite("deaths", dying.size(), [&](uint64_t i) { explore_job(dying[i]); }, "one process dies at any system call, its last write whole, missing or cut: the others finish and see the tree with or without its operation, or an error, never a mixture");
  ps.clear(); progs(seqs({O_R, O_WS, O_WB, O_MG, O_MS}, 1, 1), 2, ps); add_jobs(kern, ps, {0, 2}, {0}); ps.clear(); progs({{O_R, O_WB}, {O_MG, O_R}, {O_WS, O_MS}}, 2, ps); add_jobs(kern, ps, {1}, {0, 60}); ps.clear(); progs({{O_R}, {O_WB}, {O_MG}}, 3, ps); add_jobs(kern, ps, {0}, {0});
  make_dir(); size_t stride = g_thorough ? 1 : 9;
  suite("kernel", kern.size(), [&](uint64_t i) { size_t k = 0; const Job& J = kern[i]; explore_job(J, [&](Exec& X) { if (k++ % (J.prog.size() == 2 && J.prog[0].size() == 1 ? stride : stride * 12) == 0) kernel_replay(J, X); }); }, "explored schedules replayed with real processes, locks and files of the kernel, every call's result compared");
  rmdir(g_dir.c_str());
  assumption("calls without effect on other processes (umask, lseek, fsync, opening a file that exists, closing one without locks) are not scheduling points; all processes use only the locking operations");
}

// ---- C18 -------------------------------------------------------------------------
CHECK_DEF(C18, "model_checking", "a state is (observed history of every process, file contents, locks); distinct_nontrivial counts distinct (program, results, final content)") {
  static std::vector<Job> v, kern; std::vector<Prog> ps;
  progs(seqs({O_MG, O_MS}, 1, 2), 2, ps); add_jobs(v, ps, {0, 1, 2}, {0, 60});
  ps.clear(); progs(seqs({O_MG, O_MS}, 1, 1), 3, ps); add_jobs(v, ps, {0, 1, 2}, {0, 60});
  ps.clear(); progs({{O_MG}, {O_MS}, {O_R}, {O_R, O_R}}, 3, ps); drop_readonly(ps); add_jobs(v, ps, {0, 2}, {0});
  ps.clear(); progs(seqs({O_MG, O_MS}, 3, g_thorough ? 4 : 3), 2, ps); add_jobs(v, ps, g_thorough ? std::vector<int>{0, 2} : std::vector<int>{2}, {0});
  if (g_thorough) { ps.clear(); progs(seqs({O_MG, O_MS}, 1, 2), 3, ps); add_jobs(v, ps, {0, 2}, {0}); ps.clear(); progs(seqs({O_MG, O_MS}, 1, 1), 4, ps); add_jobs(v, ps, {0, 2}, {0}); ps = {{{O_MG}, {O_MS}, {O_MG}, {O_MS}, {O_MG}}}; add_jobs(v, ps, {1}, {0}); }
  else { ps = {{{O_MG}, {O_MS}, {O_MG}, {O_MG}}}; add_jobs(v, ps, {2}, {0}); }
  std::stable_sort(v.begin(), v.end(), [](const Job& a, const Job& b) { return a.prog.size() > b.prog.size(); });
  suite("updates", v.size(), [&](uint64_t i) {
    const Job& J = v[i];
    explore_job(J, [&](Exec& X) {
      // the final content has every update, whichever came last
      std::map<Str, int> want; T fin; dec_image(vfs.content("f"), fin);
      for (auto& o : X.ops) if (o.kind >= O_MG) { Str m = sfmt(o.kind == O_MG ? "m%d%d" : "s%d%d", o.p, o.i); CHECK(fin.get(m), "the update %s of process %d is lost: the file holds {%s}", m.c_str(), o.p, cdesc(fin).c_str()); }
      n_valid();
    });
  }, "2 processes x up to 2 or 3 updates, 3 processes x 1 update (thorough: 2), 4 processes x 1 (thorough: 5), growing and shrinking, with concurrent readers, over no file and existing files, both locking builds, all interleavings");
  // the lock is held throughout
  suite("held", 2 * 3 * 2 * 2, [&](uint64_t i) {
    const Api& A = API[i % 2]; int init = i / 2 % 3; bool shrink = i / 6 % 2; size_t chop = i / 12 ? 7 : 0; vfs.reset(2); if (init) vfs.put("f", enc_image(enc_pack(init_tree(init))));
    trace_begin(); TRACE("%s, file %d", A.name, init); bool reading = false, after = false;
    auto held = [&]() { auto it = vfs.names.find(VROOT "/f"); if (it == vfs.names.end()) return false; for (auto& l : vfs.locks) if (l.first == it->second->id) for (auto& q : l.second) if (q.proc == 0 && q.excl) return true; return false; };
    vfs.before = [&](Sys& s) -> Ans { if (s.op == S_READ || s.op == S_WRITE || s.op == S_FTRUNC) { CHECK(held(), "%s of the shared file without its exclusive lock", sysop_name[s.op]); reading = true; } Ans a; if (chop && (s.op == S_READ || s.op == S_WRITE) && s.n > chop) { a.k = Ans::PART; a.n = chop; } return a; };
    vfs.after = [&](const Sys& s) { if (reading && !after) CHECK(held(), "the lock is given up between reading and writing (%s)", sysop_name[s.op]); n_trans(); };
    int fd = -1; kvtree* h = kvtree_new(); CHECK(A.kvtree_lock_open_read("f", &fd, h) == KVTREE_SUCCESS, "kvtree_lock_open_read fails"); CHECK(held(), "kvtree_lock_open_read returns without the lock");
    // somebody else cannot get in between
    vfs.before = nullptr; vfs.after = nullptr; vfs.cur = 1; bool waited[2] = {false, false};
    for (int k = 0; k < 2; k++) { struct Out {}; try { vfs.wait_lock = [&](Sys&, const std::function<bool()>&) -> bool { waited[k] = true; throw Out(); }; kvtree* x = build(parse("a")); if (k) A.kvtree_write_with_lock("f", x); else A.kvtree_read_with_lock("f", x); kvtree_delete(&x); } catch (Out&) {}
      CHECK(waited[k], "%s goes ahead although another process holds the lock", k ? "kvtree_write_with_lock" : "kvtree_read_with_lock"); }
    vfs.cur = 0; vfs.wait_lock = nullptr; after = true;
    vfs.before = [&](Sys& s) -> Ans { if (s.op == S_READ || s.op == S_WRITE || s.op == S_FTRUNC) CHECK(held(), "%s of the shared file without its exclusive lock", sysop_name[s.op]); Ans a; if (chop && s.op == S_WRITE && s.n > chop) { a.k = Ans::PART; a.n = chop; } return a; };
    kvtree* g = build(modify(observe(h), 0, 0, shrink ? O_MS : O_MG)); CHECK(A.kvtree_write_close_unlock("f", &fd, g) == KVTREE_SUCCESS && fd == -1, "kvtree_write_close_unlock fails"); kvtree_delete(&g); kvtree_delete(&h);
    n_eval(); n_valid(); outcome(i + 1);
  }, "lock ownership at every system call of a read-modify-write, and other processes kept out in between");
  ps.clear(); progs(seqs({O_MG, O_MS}, 1, 1), 2, ps); add_jobs(kern, ps, {0, 1, 2}, {0}); ps.clear(); progs({{O_MG, O_MS}, {O_R, O_R}}, 2, ps); drop_readonly(ps); add_jobs(kern, ps, {0}, {0}); ps = {{{O_MG}, {O_MS}, {O_R}}}; add_jobs(kern, ps, {2}, {0});
  make_dir(); size_t stride = g_thorough ? 1 : 9;
  suite("kernel", kern.size(), [&](uint64_t i) { size_t k = 0; const Job& J = kern[i]; explore_job(J, [&](Exec& X) { if (k++ % (J.prog.size() == 2 && J.prog[0].size() == 1 ? stride : stride * 12) == 0) kernel_replay(J, X); }); }, "explored schedules replayed with real processes, locks and files of the kernel, every call's result compared");
  rmdir(g_dir.c_str());
}

// ---- C19 -------------------------------------------------------------------------
CHECK_DEF(C19, "exploration", "a case is one locking operation of one build on one file under one set of system call faults; distinct_nontrivial counts distinct (operation, file, faults, status)") {
  enum { L_READ, L_WRITE, L_OPEN, L_CLOSE, L_RMW, L_N }; static const char* ln[] = {"kvtree_read_with_lock", "kvtree_write_with_lock", "kvtree_lock_open_read", "kvtree_write_close_unlock", "lock, change, write"};
  enum { F_NONE, F_SMALL, F_BIG, F_BAD, F_EMPTY, F_NOREAD, F_DIR, F_N };
  auto body = [](uint64_t i, Explorer& ex, bool locks_only, int part, int SPLIT) {
    const Api& A = API[i % 2]; int op = i / 2 % L_N, file = i / 2 / L_N % F_N, fds = i / 2 / L_N / F_N;   // fds: which of 0..2 are open
    vfs.reset(2); for (int fd = 0; fd < 3; fd++) if (fds == 1 && fd == 0) vfs.procs[0].fds.erase(fd); else if (fds == 2) vfs.procs[0].fds.erase(fd);
    int other = vfs.add_foreign(0, "other", O_RDWR); Str img = file == F_SMALL ? enc_image(enc_pack(parse("i"))) : enc_image(enc_pack(wide("W", 10)));
    if (file == F_BAD) img[img.size() - 3] ^= 4; if (file == F_EMPTY) img = "";
    if (file == F_DIR) vfs.put("f", "")->dir = true; else if (file != F_NONE) vfs.put("f", img, file == F_NOREAD ? 0 : 0644);
    trace_begin(); TRACE("%s: %s, file %s, %s", A.name, ln[op], ((const char*[]){"missing", "small", "big", "damaged", "empty", "without permission", "is a directory"})[file], fds == 0 ? "descriptors 0-2 open" : fds == 1 ? "descriptor 0 free" : "descriptors 0-2 free");
    Leaks lk; kvtree* h = build(op == L_READ || op == L_OPEN ? parse("had(this)") : parse("n(e w)")); Str before = canon(observe(h)); int fd = 55;
    if (op == L_CLOSE) { kvtree* x = kvtree_new(); if (A.kvtree_lock_open_read("f", &fd, x) != KVTREE_SUCCESS) { kvtree_delete(&x); kvtree_delete(&h); return; } kvtree_delete(&x); }
    vfs.foreign_ops = vfs.bad_fd_ops = 0; bool got_lock = op == L_CLOSE, refused = false; int nf = 0, pt = 0; uint64_t fh = 0; std::map<int, Ans> sticky; std::set<int> closed;
    auto holds = [&](bool excl) { auto it = vfs.names.find(VROOT "/f"); if (it == vfs.names.end()) return false; for (auto& l : vfs.locks) if (l.first == it->second->id) for (auto& q : l.second) if (q.proc == 0 && (q.excl || !excl)) return true; return false; };
    auto is_lock = [](const Sys& s) { return (s.op == S_FLOCK && (s.arg & ~LOCK_NB) != LOCK_UN) || (s.op == S_FCNTL && (s.arg == F_SETLK || s.arg == F_SETLKW) && s.n != F_UNLCK); };
    Str content = vfs.content("f");
    vfs.before = [&](Sys& s) -> Ans {
      if (s.op == S_READ || s.op == S_WRITE || s.op == S_FTRUNC) CHECK(holds(op == L_WRITE || op == L_CLOSE || s.op != S_READ), "%s: %s without holding the lock", ln[op], sysop_name[s.op]);
      std::vector<Ans> m; auto er = [&](int e) { Ans a; a.k = Ans::FAIL; a.err = e; m.push_back(a); };
      bool lk2 = is_lock(s); if (locks_only && !lk2) return Ans();
      int cls = s.op * 2 + lk2; if (sticky.count(cls)) return sticky[cls];
      size_t single = 0;
      switch (s.op) {
        case S_FLOCK: case S_FCNTL: if (s.op == S_FCNTL && s.arg != F_SETLK && s.arg != F_SETLKW) return Ans(); er(ENOLCK); er(EIO); single = 2; if (lk2) { er(EINTR); if (locks_only) { er(EDEADLK); er(EINVAL); er(EBADF); er(EAGAIN); er(EACCES); er(EOPNOTSUPP); } } break;
        case S_OPEN: er(EACCES); er(EMFILE); single = 2; break;
        case S_READ: er(EIO); single = 1; { Ans a; a.k = Ans::PART; a.n = 5; if (s.n > 5) m.push_back(a); } break;
        case S_WRITE: er(ENOSPC); single = 1; { Ans a; a.k = Ans::PART; a.n = 5; if (s.n > 5) m.push_back(a); } break;
        case S_LSEEK: er(EINVAL); single = 1; break;
        case S_FTRUNC: er(EIO); single = 1; break;
        case S_FSYNC: er(EIO); er(EINVAL); single = 2; break;
        case S_CLOSE: er(EIO); single = 1; break;
        case S_ACCESS: case S_STAT: er(EACCES); single = 1; break;
        default: return Ans();
      }
      size_t n = m.size(); for (size_t k = 0; k < single; k++) m.push_back(m[k]);   // the errors again, from now on
      pt++; if (nf == 0 && pt % SPLIT != part) return Ans();
      int c = ex.choose(m.size() + 1); if (!c) return Ans(); nf++; fh = fh * 10007 + pt * 32 + c; if ((size_t)c > n) sticky[cls] = m[c - 1];
      TRACE("    fault: %s", m[c - 1].k == Ans::FAIL ? strerrorname_np(m[c - 1].err) : "5 bytes"); return m[c - 1];
    };
    vfs.after = [&](const Sys& s) { if (is_lock(s)) { if (s.ret == 0) got_lock = true; else refused = true; } n_trans(); };
    vfs.sys_limit = vfs.nsys + 5000;
    bool ok;
    if (op == L_READ) ok = A.kvtree_read_with_lock("f", h) == KVTREE_SUCCESS; else if (op == L_WRITE) ok = A.kvtree_write_with_lock("f", h) == KVTREE_SUCCESS; else if (op == L_OPEN) ok = A.kvtree_lock_open_read("f", &fd, h) == KVTREE_SUCCESS;
    else if (op == L_CLOSE) ok = A.kvtree_write_close_unlock("f", &fd, h) == KVTREE_SUCCESS;
    else { kvtree* x = kvtree_new(); ok = A.kvtree_lock_open_read("f", &fd, x) == KVTREE_SUCCESS; kvtree_delete(&x); if (ok) ok = A.kvtree_write_close_unlock("f", &fd, h) == KVTREE_SUCCESS; }
    vfs.before = nullptr; vfs.after = nullptr;
    if (!got_lock) { CHECK(!ok, "%s reports success although it never got the lock", ln[op]); CHECK(vfs.content("f") == content || (content == "<missing>" && vfs.content("f").empty()), "%s changed the file although it never got the lock", ln[op]); }
    if (op == L_OPEN && ok) { CHECK(fd >= 0 && vfs.procs[0].fds.count(fd) && !vfs.procs[0].fds[fd]->foreign, "kvtree_lock_open_read succeeds without handing out its descriptor"); CHECK(holds(true), "kvtree_lock_open_read succeeds without holding the exclusive lock"); vf_close(fd); }
    else if (op >= L_OPEN) CHECK(fd == -1, "%s %s but the caller's descriptor is %d instead of -1", ln[op], ok ? "succeeds" : "fails", fd);
    if (op != L_READ && op != L_OPEN) CHECK(canon(observe(h)) == before, "%s changed the tree", ln[op]); else if (!ok) CHECK(canon(observe(h)) == before, "%s fails but changed the tree", ln[op]);
    CHECK(vfs.open_fds(0) == 0, "%s leaves the file open", ln[op]); CHECK(vfs.nlocks() == 0, "%s leaves the file locked", ln[op]);
    CHECK(vfs.foreign_ops == 0, "%s touches another descriptor of the process", ln[op]); CHECK(vfs.bad_fd_ops == 0, "%s uses a descriptor that is not open", ln[op]);
    CHECK(vfs.procs[0].fds.count(other), "%s closed another descriptor of the process", ln[op]); CHECK(vfs.content("other").empty(), "%s wrote to another file", ln[op]);
    if (file == F_NONE || file == F_SMALL || file == F_BIG || file == F_EMPTY) if (nf == 0) CHECK(ok, "%s fails without any fault", ln[op]);
    // somebody else can lock, write and read
    vfs.cur = 1; if (file <= F_EMPTY) { kvtree* x = build(parse("later")); CHECK(A.kvtree_write_with_lock("f", x) == KVTREE_SUCCESS, "another process cannot write after %s", ln[op]); kvtree_delete(&x); x = kvtree_new(); CHECK(A.kvtree_read_with_lock("f", x) == KVTREE_SUCCESS && canon(observe(x)) == canon(parse("later")), "another process cannot read after %s", ln[op]); kvtree_delete(&x); }
    vfs.cur = 0; kvtree_delete(&h); lk.check(ln[op]); (void)refused;
    n_eval(); n_valid(); outcome(fh * 4 + ok * 2 + i * 1000003);
  };
  const int SPLIT = 4;
  suite("refused", 2 * L_N * F_N * 3, [&](uint64_t i) { explore(2, [&](Explorer& ex) { body(i, ex, true, 0, 1); }); }, "every locking operation x 7 states of the file x which of descriptors 0-2 are in use x 9 reasons for which the lock is refused, once or persistently, both builds");
  suite("faults", 2 * L_N * F_N * 3 * SPLIT, [&](uint64_t i) { explore(g_thorough ? 3 : 2, [&](Explorer& ex) { body(i / SPLIT, ex, false, i % SPLIT, SPLIT); }); }, "the same with every set of up to 2 (thorough 3) faults in any system call, once or persistently");
  assumption("close() releases the descriptor and its locks even when it reports an error");
}
