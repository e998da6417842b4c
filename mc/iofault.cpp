// C15 (system call faults), C16 (crashes), C30 (permissions and umask).
#include "api.h"
#include "fakempi.h"
#include "faults.h"
#include <algorithm>
#include <cerrno>
#include <sys/stat.h>
#include <unistd.h>

static kvtree* nodel;
static const char *FN = "f", *GN = "g";   // the names of the file and of the set the operations work on
struct Op {
  Str name; bool write;
  std::function<void(struct Run&)> prep;      // files, descriptors
  std::function<bool(struct Run&)> go;        // the operation; true: success reported
  std::function<T(struct Run&)> stored;       // what a successful read must add
  bool hopeless = false;                      // cannot succeed
  int only = -1;
};
struct Run { const Api* A; T tree, old; bool have_old = false; kvtree* h = nullptr; int fd = -1; ssize_t n = 0; const Op* op; };
static void put_set2(int ranks, const T& in, int levels) {
  auto kv = [](T& t, const char* k, int v) { t.put(k).put(sfmt("%d", v)); };
  std::vector<Str> names;
  for (int r = 0; r < ranks; r++) { T p; kv(p, "LEVEL", 0); kv(p, "RANKS", ranks); T d = in; d.put("me").put(sfmt("%d", r)); p.put("RANK").set(sfmt("%d", r), d); Str nm = sfmt(".0.%d", r); vfs.put(GN + nm, enc_image(enc_pack(p))); names.push_back(nm); }
  for (int l = 1; l <= levels; l++) {
    std::vector<Str> up; size_t per = l == levels ? names.size() : 2;
    for (size_t i = 0; i < names.size(); i += per) {
      T m; kv(m, "LEVEL", l); kv(m, "RANKS", ranks);
      for (size_t j = i; j < i + per && j < names.size(); j++) { T& e = m.put("RANK").put(sfmt("%zu", j << (l - 1))); e.put("FILE").put(names[j]); e.put("OFFSET").put("0"); }
      Str nm = l == levels ? "" : sfmt(".%d.%zu", l, i); vfs.put(GN + nm, enc_image(enc_pack(m))); up.push_back(nm);
    }
    names = up;
  }
}
static T set_of(int ranks, const T& in) { T t; for (int r = 0; r < ranks; r++) { T d = in; d.put("me").put(sfmt("%d", r)); t.k.push_back({sfmt("%d", r), d}); } return t; }
static bool g_oldset = false;   // file sets are written over larger files of the same names
static const T& longer() { static T t; if (t.k.empty()) for (int i = 0; i < 200; i++) t.put(sfmt("older %d", i)).put("v"); return t; }
static std::vector<Op> ops() {
  std::vector<Op> v;
  auto oldfile = [](Run& r) { if (r.have_old) vfs.put(FN, enc_image(enc_pack(r.old))); };
  auto W = [&](const char* n, std::function<void(Run&)> p, std::function<bool(Run&)> g) { Op o; o.name = n; o.write = true; o.prep = p; o.go = g; v.push_back(o); };
  W("kvtree_write_file", oldfile, [](Run& r) { return r.A->kvtree_write_file(FN, r.h) == KVTREE_SUCCESS; });
  W("kvtree_write_with_lock", oldfile, [](Run& r) { return r.A->kvtree_write_with_lock(FN, r.h) == KVTREE_SUCCESS; });
  W("kvtree_write_close_unlock", [oldfile](Run& r) { oldfile(r); kvtree* x = kvtree_new(); if (r.A->kvtree_lock_open_read(FN, &r.fd, x) != KVTREE_SUCCESS) fail("kvtree_lock_open_read failed"); kvtree_delete(&x); },
    [](Run& r) { int rc = r.A->kvtree_write_close_unlock(FN, &r.fd, r.h); CHECK(r.fd == -1, "kvtree_write_close_unlock does not mark the descriptor as closed"); return rc == KVTREE_SUCCESS; });
  W("kvtree_lock_open_read+kvtree_write_close_unlock", oldfile, [](Run& r) {
    kvtree* x = kvtree_new(); int fd = 99; int rc = r.A->kvtree_lock_open_read(FN, &fd, x); kvtree_delete(&x);
    if (rc != KVTREE_SUCCESS) { CHECK(fd == -1, "kvtree_lock_open_read fails but hands out descriptor %d", fd); return false; }
    rc = r.A->kvtree_write_close_unlock(FN, &fd, r.h); CHECK(fd == -1, "kvtree_write_close_unlock does not mark the descriptor as closed"); return rc == KVTREE_SUCCESS; });
  W("kvtree_write_fd", [](Run& r) { r.fd = vfs.add_foreign(0, FN, O_RDWR); }, [](Run& r) { ssize_t n = r.A->kvtree_write_fd(FN, r.fd, r.h); if (n >= 0) CHECK((size_t)n == vfs.content(FN).size(), "kvtree_write_fd returns %zd for %zu bytes", n, vfs.content(FN).size()); return n >= 0; });
  for (int per : {0, 1, 2}) W(per == 0 ? "kvtree_write_to_gather" : per == 1 ? "kvtree_write_to_gather 1 per file" : "kvtree_write_to_gather 2 per file", [](Run& r) { kvtree_delete(&r.h); r.h = build(set_of(3, r.tree)); if (g_oldset) for (const char* n : {"", ".0.0", ".0.1", ".0.2", ".1.0"}) vfs.put(Str(GN) + n, enc_image(enc_pack(longer()))); },
    [per](Run& r) { if (per) setenv("KVTREE_ENTRIES_PER_FILE", per == 1 ? "1" : "2", 1); bool ok = r.A->kvtree_write_to_gather(GN, r.h, 3) == KVTREE_SUCCESS; unsetenv("KVTREE_ENTRIES_PER_FILE"); return ok; });
  auto R = [&](const char* n, std::function<void(Run&)> p, std::function<bool(Run&)> g, std::function<T(Run&)> s, bool hopeless = false) { Op o; o.name = n; o.write = false; o.prep = p; o.go = g; o.stored = s; o.hopeless = hopeless; v.push_back(o); };
  auto stored = [](Run& r) { return r.tree; };
  auto have = [](Run& r) { vfs.put(FN, enc_image(enc_pack(r.tree))); };
  auto bad = [](Run& r) { Str s = enc_image(enc_pack(r.tree)); s[s.size() - 1] ^= 1; vfs.put(FN, s); };
  auto nothing = [](Run&) {};
  auto rf = [](Run& r) { return r.A->kvtree_read_file(FN, r.h) == KVTREE_SUCCESS; };
  auto rl = [](Run& r) { return r.A->kvtree_read_with_lock(FN, r.h) == KVTREE_SUCCESS; };
  auto ro = [](Run& r) { r.fd = 99; int rc = r.A->kvtree_lock_open_read(FN, &r.fd, r.h); if (rc != KVTREE_SUCCESS) CHECK(r.fd == -1, "kvtree_lock_open_read fails but hands out descriptor %d", r.fd); else CHECK(r.fd >= 0 && vfs.procs[0].fds.count(r.fd), "kvtree_lock_open_read succeeds without an open descriptor"); return rc == KVTREE_SUCCESS; };
  R("kvtree_read_file", have, rf, stored); R("kvtree_read_with_lock", have, rl, stored); R("kvtree_lock_open_read", have, ro, stored);
  R("kvtree_read_file of a damaged file", bad, rf, stored, true); R("kvtree_read_with_lock of a damaged file", bad, rl, stored, true); R("kvtree_lock_open_read of a damaged file", bad, ro, stored, true);
  R("kvtree_read_file of a missing file", nothing, rf, stored, true); R("kvtree_read_with_lock of a missing file", nothing, rl, [](Run&) { return T(); }); R("kvtree_lock_open_read of a missing file", nothing, ro, [](Run&) { return T(); });
  R("kvtree_read_fd", [have](Run& r) { have(r); r.fd = vfs.add_foreign(0, FN, O_RDWR); }, [](Run& r) { return r.A->kvtree_read_fd(FN, r.fd, r.h) >= 0; }, stored);
  for (int lv = 1; lv <= 2; lv++) R(lv == 1 ? "kvtree_read_scatter_single" : "kvtree_read_scatter_single 2 levels", [lv](Run& r) { put_set2(3, r.tree, lv); }, [](Run& r) { return r.A->kvtree_read_scatter_single(GN, r.h) == KVTREE_SUCCESS; }, [](Run& r) { return set_of(3, r.tree); });
  R("kvtree_read_scatter_single without a part", [](Run& r) { put_set2(3, r.tree, 1); vfs.names.erase(Str(VROOT "/") + GN + ".0.1"); }, [](Run& r) { return r.A->kvtree_read_scatter_single(GN, r.h) == KVTREE_SUCCESS; }, [](Run& r) { return set_of(3, r.tree); }, true);
  return v;
}
static const T& had_tree() { static const T t = parse("a(q) old(x(y)) 1(z)"); return t; }

static std::function<void()> g_prep;
// one execution; choose(n) picks the environment's answers
struct Res { bool ok; bool intr_only; std::vector<Str> faults; };
static Res execute(const Op& op, const T& tree, const T* old, const Api& A, const std::function<int(int, const Sys&, std::vector<Alt>&)>& choose, bool intr_menu) {
  vfs.reset(1); if (g_prep) g_prep(); Run r; r.A = &A; r.tree = tree; r.op = &op; if (old) { r.old = *old; r.have_old = true; }
  Leaks lk; r.h = build(op.write ? tree : had_tree());
  op.prep(r); T before = observe(r.h); Str cb = canon(before, true);
  Res res; res.intr_only = true; bool lost = false; std::set<int> wr; auto wrote = [&](int fd) { return wr.count(fd) > 0; }; std::map<int, Ans> sticky; std::vector<Alt> m;
  vfs.foreign_ops = 0; int foreign_fd = r.fd >= 0 && vfs.procs[0].fds.count(r.fd) && vfs.procs[0].fds[r.fd]->foreign ? r.fd : -1;
  vfs.before = [&](Sys& s) -> Ans {
    int cls = s.op == S_FCNTL ? (int)S_FLOCK : (int)s.op;
    if (s.op == S_WRITE) wr.insert(s.fd);
    if (sticky.count(cls)) { if ((s.op == S_FSYNC || s.op == S_CLOSE) && wrote(s.fd)) lost = true; if (s.op == S_CLOSE) wr.erase(s.fd); return sticky[cls]; }
    bool w = wrote(s.fd); if (s.op == S_CLOSE) wr.erase(s.fd);
    menu(s, m, intr_menu); if (m.empty()) return Ans();
    int c = choose(m.size() + 1, s, m); if (!c) return Ans();
    const Alt& a = m[c - 1]; if (!a.intr) res.intr_only = false; if (a.persist) sticky[cls] = a.a;
    if (op.write && a.a.k == Ans::FAIL && !a.intr && ((s.op == S_FSYNC && a.a.err != EINVAL && a.a.err != EROFS) || s.op == S_CLOSE) && w) lost = true;
    if (g_verbose) TRACE("    fault: %s fd %d %s: %s%s", sysop_name[s.op], s.fd, s.path.c_str(), ans_str(a.a).c_str(), a.persist ? ", from now on" : "");
    if (g_verbose) res.faults.push_back(sfmt("%s:%s", sysop_name[s.op], ans_str(a.a).c_str()));
    return a.a;
  };
  res.ok = op.go(r); vfs.before = nullptr;
  T after = observe(r.h); Str ca = canon(after, true);
  if (op.write) {
    CHECK(ca == cb, "%s changed the tree it writes", op.name.c_str());
    if (lost) CHECK(!res.ok, "%s reports success although what it wrote could not be flushed or the file not closed", op.name.c_str());
    if (res.ok) {
      if (op.name.find("gather") != Str::npos) { for (auto& n : vfs.names) if (!n.second->dir && n.second->data.size() >= 20) { const Str& d = n.second->data; size_t z = 0; for (int j = 8; j < 16; j++) z = z << 8 | (unsigned char)d[j]; CHECK(z == d.size(), "%s reports success but %s has %zu bytes for an image of %zu", op.name.c_str(), n.first.c_str(), d.size(), z); }
        kvtree* x = kvtree_new(); CHECK(A.kvtree_read_scatter_single(GN, x) == KVTREE_SUCCESS, "%s reports success but the set can not be read", op.name.c_str()); T g = observe(x); kvtree_delete(&x); CHECK(canon(g) == canon(nonull(before)), "%s reports success but the set holds {%s}", op.name.c_str(), cdesc(g).c_str()); }
      else { T g; int d = dec_image(vfs.content(FN), g); CHECK(d == 0 && canon(g) == canon(tree), "%s reports success but the file holds %s instead of {%s}", op.name.c_str(), d == 0 ? ("{" + cdesc(g) + "}").c_str() : d == 1 ? "nothing" : "an incomplete image", cdesc(tree).c_str());
        size_t need = enc_image(enc_pack(tree)).size(); CHECK(vfs.content(FN).size() == need, "%s reports success but the file has %zu bytes instead of %zu", op.name.c_str(), vfs.content(FN).size(), need);
        kvtree* x = kvtree_new(); CHECK(A.kvtree_read_file(FN, x) == KVTREE_SUCCESS && canon(observe(x)) == canon(tree), "%s reports success but the file can not be read back", op.name.c_str()); kvtree_delete(&x); }
    }
  } else {
    if (res.ok) { CHECK(!op.hopeless, "%s reports success", op.name.c_str()); T want = tunion(had_tree(), op.stored(r)); CHECK(canon(after) == canon(want), "%s reports success but yields {%s} instead of {%s}", op.name.c_str(), cdesc(after).c_str(), cdesc(want).c_str()); }
    else CHECK(ca == cb, "%s reports failure but changed the tree to {%s}", op.name.c_str(), cdesc(after).c_str());
  }
  if (res.intr_only && !op.hopeless) CHECK(res.ok, "%s fails although calls were only interrupted or transferred fewer bytes", op.name.c_str());
  bool holds = !op.write && r.fd >= 0 && foreign_fd < 0 && res.ok;
  if (holds) { vf_close(r.fd); r.fd = -1; }
  CHECK(vfs.open_fds(0) == 0, "%s leaves %d descriptors open", op.name.c_str(), vfs.open_fds(0)); CHECK(vfs.nlocks() == 0, "%s leaves a lock", op.name.c_str());
  CHECK(vfs.bad_fd_ops == 0, "%s uses a descriptor that is not open", op.name.c_str());
  if (foreign_fd >= 0) { CHECK(vfs.procs[0].fds.count(foreign_fd), "%s closed the caller's descriptor", op.name.c_str()); vfs.procs[0].fds.erase(foreign_fd); }
  else CHECK(vfs.foreign_ops == 0, "%s touches a descriptor it did not open", op.name.c_str());
  kvtree_delete(&r.h); lk.check(op.name.c_str());
  return res;
}
static std::vector<std::pair<T, const T*>> pairs() {
  static const T olds[] = {parse("o"), parse("old(tree with(some more(content of(many))))")};
  std::vector<std::pair<T, const T*>> v; static const T t0 = parse(""), t1 = parse("a(b)"), t2 = parse("key(value) a(b(c)) other(1 2 3 4 5 6 7 8)");
  v.push_back({t1, nullptr}); v.push_back({t1, &olds[1]}); v.push_back({t2, &olds[0]}); v.push_back({t0, &olds[1]}); v.push_back({t2, nullptr}); return v;
}
CHECK_DEF(C15, "exploration", "a case is one operation of one build under one sequence of answers of the system calls; distinct_nontrivial counts distinct (operation, tree, faults, status) with at least one fault") {
  static std::vector<Op> O = ops(); static auto P = pairs(); size_t np = P.size();
  int bound = g_thorough ? 3 : 2;
  // the first fault position splits the work
  const int SPLIT = 16;
  suite("faults", O.size() * np * 2 * SPLIT, [&](uint64_t i) {
    int part = i % SPLIT; i /= SPLIT; const Api& A = API[i % 2]; const Op& op = O[i / 2 / np]; auto& p = P[i / 2 % np];
    if (!op.write && p.second && p.second != P[1].second) return;
    bool many = op.name.find("gather") != Str::npos || op.name.find("scatter") != Str::npos; if (many && p.second && !g_thorough) return;
    int b = g_thorough && many ? 2 : bound; uint64_t seen = 0;
    g_oldset = many && canon(p.first) == canon(P[0].first); struct Off { ~Off() { g_oldset = false; } } off;
    explore(b, [&](Explorer& ex) {
      trace_begin(); TRACE("%s: %s, tree {%s}, %s", A.name, op.name.c_str(), cdesc(p.first).c_str(), p.second ? "over an older file" : "no older file");
      uint64_t h = 0; int nf = 0; bool skip = false; size_t pt = 0, first = (size_t)-1;
      Res r = execute(op, p.first, p.second, A, [&](int n, const Sys& s, std::vector<Alt>&) {
        // only executions whose first fault is at a point = part (mod SPLIT); all points stay in the sequence
        if (nf == 0 && (int)(pt % SPLIT) != part) { pt++; return 0; }
        pt++; int c = ex.choose(n); if (c) { if (!nf) first = pt; nf++; h = h * 1000003 + pt * 64 + c; } (void)s; return c; }, false);
      (void)first; (void)skip; n_eval(); n_trans(); n_valid(); seen++; if (nf) outcome(h * 4 + r.ok * 2 + (i & 1) + fnv(op.name) + fnv(canon(p.first)));
    });
  }, "every operation x 5 situations x both builds with every set of up to 2 (thorough 3) faults: short transfers, interruptions, errors once or from then on, in every system call");
  suite("interruptions", O.size() * 2, [&](uint64_t i) {
    const Api& A = API[i % 2]; const Op& op = O[i / 2]; bool many = op.name.find("gather") != Str::npos || op.name.find("scatter") != Str::npos;
    T t = parse("a(b)");
    explore(many ? 2 : g_thorough ? 6 : 4, [&](Explorer& ex) {
      trace_begin(); TRACE("%s: %s, interruptions only", A.name, op.name.c_str()); uint64_t h = 0; size_t pt = 0;
      execute(op, t, nullptr, A, [&](int n, const Sys&, std::vector<Alt>&) { pt++; int c = ex.choose(n); if (c) h = h * 1000003 + pt * 64 + c; return c; }, true); n_eval(); n_trans(); n_valid(); outcome(h + fnv(op.name) + (i & 1));
    });
  }, "every sequence of up to 4 (thorough 6; 2 for file sets) interruptions and short transfers: the operation must succeed");
  suite("chopped", O.size() * 2 * 3, [&](uint64_t i) {
    const Api& A = API[i % 2]; const Op& op = O[i / 2 % O.size()]; int pol = i / 2 / O.size(); auto& p = P[pol == 2 ? 4 : 2];
    for (size_t k = 1; k <= (g_thorough ? 200u : 60u); k++) {
      trace_begin(); TRACE("%s: %s, every transfer limited to %zu bytes%s", A.name, op.name.c_str(), k, pol ? ", every other call interrupted" : ""); size_t c = 0;
      execute(op, p.first, op.write ? p.second : nullptr, A, [&](int, const Sys& s, std::vector<Alt>& m) -> int {
        if (s.op != S_READ && s.op != S_WRITE) return 0;
        if (pol && c++ % 2 == 0) { for (size_t j = 0; j < m.size(); j++) if (m[j].a.k == Ans::FAIL && m[j].a.err == (pol == 1 ? EINTR : EAGAIN)) return j + 1; }
        if (k < s.n) { m.push_back(mk(Ans::PART, 0, k, true)); return m.size(); } return 0; }, true); n_eval(); n_trans(); n_valid(); outcome(fnv(op.name) + k * 8 + pol);
    }
  }, "all transfers limited to k bytes for k = 1..60 (thorough 200), with and without an interruption before each");
  // images of many blocks: transfers that stop at and around block sizes
  static const std::vector<std::pair<int, int>> LS = {{40, 20}, {120, 60}, {300, 230}, {60, 20000}};
  static std::vector<T> LT; for (auto& l : LS) { T t; for (int k = 0; k < l.first; k++) t.k.push_back({sfmt("%d-", k) + Str(l.second, 'w'), T()}); LT.push_back(t); }
  suite("large", O.size() * 2 * LT.size(), [&](uint64_t i) {
    const Api& A = API[i % 2]; const Op& op = O[i / 2 % O.size()]; const T& t = LT[i / 2 / O.size()]; bool many = op.name.find("gather") != Str::npos || op.name.find("scatter") != Str::npos; if (many && t.k.size() == 300) return;
    if (many && &t == &LT[3] && !g_thorough) return;
    std::vector<size_t> cut; for (size_t b : {512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576}) for (int d = -1; d <= 1; d++) cut.push_back(b + d);
    for (size_t c : cut) for (int mode = 0; mode < 6; mode++) {
      // mode 0-2: the first, second or third transfer is limited; 3: all; 4: all, an interruption before each; 5: first limited, then EAGAIN
      bool hit = false; size_t nth = 0, calls = 0; trace_begin(); TRACE("%s: %s of %zu entries, transfers limited to %zu bytes, mode %d", A.name, op.name.c_str(), t.k.size(), c, mode);
      execute(op, t, nullptr, A, [&](int, const Sys& s, std::vector<Alt>& m) -> int {
        if (s.op != S_READ && s.op != S_WRITE) return 0;
        if (mode == 4 && calls++ % 2 == 0) { m.push_back(mk(Ans::FAIL, EINTR, 0, true)); return m.size(); }
        if (mode == 5 && hit && nth == 1) { nth++; m.push_back(mk(Ans::FAIL, EAGAIN, 0, true)); return m.size(); }
        if (s.n <= c || (mode < 3 && nth++ != (size_t)mode) || (mode == 5 && hit)) return 0;
        hit = true; if (mode == 5) nth = 1; m.push_back(mk(Ans::PART, 0, c, true)); return m.size(); }, true);
      n_eval(); n_trans(); n_valid(); if (hit) outcome(fnv(op.name) + c * 64 + mode * 8 + (i & 1)); else if (mode == 3) break;
    }
  }, "images of 1 KB, 8 KB, 70 KB and 1.2 MB with transfers stopping at, just before and just after every power of two from 512 bytes to 1 MB: once, always, with interruptions");
  static auto ES = exact_sizes(40, g_thorough ? 300 : 90, g_thorough ? 18 : 16, -1, 1);
  suite("exact-sizes", O.size() * 2 * ES.size(), [&](uint64_t i) {
    const Api& A = API[i % 2]; const Op& op = O[i / 2 % O.size()]; size_t n = ES[i / 2 / O.size()]; bool many = op.name.find("gather") != Str::npos || op.name.find("scatter") != Str::npos; if (many && n > 90 && n < 4000) return;
    T t = exact_tree(n - 24); size_t p2 = 32; while (p2 * 2 <= n) p2 *= 2; std::set<size_t> cut = {1, 19, 20, p2 / 2, p2 - 1, p2, n / 2, n - 4, n - 1};
    for (size_t c : cut) for (int mode = 0; mode < 4; mode++) {   // the first transfer is limited; all are; all and an interruption before each; the first, then EAGAIN
      if (mode == 1 && n / c > 3000) continue; if (mode == 2 && n / c > 500) continue;
      bool hit = false, again = false; size_t calls = 0; trace_begin(); TRACE("%s: %s, image of %zu bytes, transfers limited to %zu bytes, mode %d", A.name, op.name.c_str(), n, c, mode);
      execute(op, t, nullptr, A, [&](int, const Sys& s, std::vector<Alt>& m) -> int {
        if (s.op != S_READ && s.op != S_WRITE) return 0;
        if (mode == 2 && calls++ % 2 == 0) { m.push_back(mk(Ans::FAIL, EINTR, 0, true)); return m.size(); }
        if (mode == 3 && hit && !again) { again = true; m.push_back(mk(Ans::FAIL, EAGAIN, 0, true)); return m.size(); }
        if (s.n <= c || ((mode == 0 || mode == 3) && hit)) return 0;
        hit = true; m.push_back(mk(Ans::PART, 0, c, true)); return m.size(); }, true);
      n_eval(); n_trans(); n_valid(); outcome(fnv(op.name) + c * 64 + mode * 8 + (i & 1) + n * 7777777);
    }
  }, "images of 40 to 90 (300) bytes and within a byte of every power of two up to 2^16 (2^18): transfers stopping at 1, 19, 20 bytes, the last powers of two, the middle and just before the end: once, always, with interruptions");
  static std::vector<Str> NM = {"%s%n%s%n%s%n%s%n%s%n", "%999999999d", "100%", "a b;c", "\x80\xff", "-", Str(255 - 8, 'l'), Str(200, 'd') + "/" + Str(200, 'e') + "/" + Str(200, 'f') + "/" + Str(200, 'g'), ""}; { Str p; while (p.size() < 3800) p += Str(150, 'd') + "/"; NM.back() = p + "end"; }
  suite("names", O.size() * 2 * NM.size(), [&](uint64_t i) {
    const Api& A = API[i % 2]; const Op& op = O[i / 2 % O.size()]; const Str& nm = NM[i / 2 / O.size()]; FN = GN = nm.c_str(); auto& p = P[2]; size_t sl = nm.rfind('/');
    explore(1, [&](Explorer& ex) { trace_begin(); TRACE("%s: %s, file %s", A.name, op.name.c_str(), quote(nm.substr(0, 60)).c_str()); uint64_t h = 0; size_t pt = 0; g_prep = [&]{ if (sl != Str::npos) vfs.put(nm.substr(0, sl) + "/keep", "x"); }; execute(op, p.first, op.write ? p.second : nullptr, A, [&](int n, const Sys&, std::vector<Alt>&) { pt++; int c = ex.choose(n); if (c) h = pt * 64 + c; return c; }, false); n_eval(); n_trans(); n_valid(); outcome(h + fnv(op.name) + (i & 1) + fnv(nm)); }); FN = "f"; GN = "g"; g_prep = nullptr;
  }, "every operation and every single fault on files whose names are long, deep or look like formats");
  suite("descriptors", O.size() * 2 * 7, [&](uint64_t i) {
    const Api& A = API[i % 2]; const Op& op = O[i / 2 % O.size()]; int low = i / 2 / O.size() + 1; auto& p = P[2]; vfs.free_low = low;
    explore(1, [&](Explorer& ex) { trace_begin(); TRACE("%s: %s, free descriptors %d", A.name, op.name.c_str(), low); uint64_t h = 0; size_t pt = 0; execute(op, p.first, op.write ? p.second : nullptr, A, [&](int n, const Sys&, std::vector<Alt>&) { pt++; int c = ex.choose(n); if (c) h = pt * 64 + c; return c; }, false); n_eval(); n_trans(); n_valid(); outcome(h + fnv(op.name) + (i & 1) + low * 7777777ull); }); vfs.free_low = 0;
  }, "every operation and every single fault while some of the descriptors 0 to 2 are free, so that files get them");
  assumption("calls answer as the system call menu says: close() releases the descriptor even when it reports an error; interruptions do not go on for ever");
}

// ---------------------------------------------------------------------------
// C16: crash states
struct Disk { std::map<Str, Str> files; bool operator<(const Disk& o) const { return files < o.files; } };
struct Fs { std::map<Str, int> names; std::map<int, Str> data; };
static void play(Fs& f, const Eff& e, size_t from = 0, size_t to = (size_t)-1) {
  switch (e.k) {
    case Eff::CREATE: f.names[e.path] = e.ino; f.data[e.ino]; break;
    case Eff::WRITE: { Str& d = f.data[e.ino]; to = std::min(to, e.data.size()); if (from >= to) break; if (d.size() < e.off + to) d.resize(e.off + to); memcpy(&d[e.off + from], e.data.data() + from, to - from); break; }
    case Eff::TRUNC: f.data[e.ino].resize(e.off); break;
    case Eff::SYNC: break;
    case Eff::UNLINK: f.names.erase(e.path); break;
    case Eff::RENAME: f.names.erase(e.path); f.names[e.path2] = e.ino; break;
  }
}
static Disk disk(const Fs& f) { Disk d; for (auto& n : f.names) { auto it = f.data.find(n.second); if (it != f.data.end()) d.files[n.first] = it->second; } return d; }
// all disk contents a crash after the first k effects may leave
static void crash_states(const Fs& base, const std::vector<Eff>& ef, size_t k, bool machine, std::set<Disk>& out, bool& capped) {
  if (!machine) {
    Fs f = base; for (size_t i = 0; i < k; i++) play(f, ef[i]);
    out.insert(disk(f));
    if (k < ef.size() && ef[k].k == Eff::WRITE) for (size_t c = 1; c < ef[k].data.size(); c++) { Fs g = f; play(g, ef[k], 0, c); out.insert(disk(g)); }
    return;
  }
  // Per file: the size and each 512 byte sector independently show the state
  // after some effect not older than the last flush of that file; names appear
  // or not.  A sector that holds only part of the 20 byte header does not come
  // with a size from a later write (see DESIGN.md).
  std::map<int, size_t> sync_at;
  for (size_t i = 0; i < k; i++) if (ef[i].k == Eff::SYNC) sync_at[ef[i].ino] = i;
  bool torn_next = k < ef.size() && ef[k].k == Eff::WRITE;
  std::map<int, std::vector<Str>> ver; std::vector<size_t> nm; Fs f = base;
  for (auto& d : base.data) ver[d.first] = {d.second};
  for (size_t i = 0; i < k; i++) {
    const Eff& e = ef[i]; bool data = e.k == Eff::WRITE || e.k == Eff::TRUNC; bool durable = sync_at.count(e.ino) && sync_at[e.ino] > i;
    if (data || e.k == Eff::CREATE) { play(f, e); Str d = f.data[e.ino]; if (durable || !ver.count(e.ino)) ver[e.ino] = {d}; else if (data) ver[e.ino].push_back(d); }
    else play(f, e);
    if (!data && e.k != Eff::SYNC && !durable) nm.push_back(i);
  }
  std::map<int, std::set<Str>> opts;
  for (auto& v : ver) {
    auto& V = v.second; std::set<Str>& o = opts[v.first]; size_t mx = 0; for (auto& x : V) mx = std::max(mx, x.size()); size_t ns = (mx + 511) / 512;
    std::vector<Str> secs; std::vector<std::vector<Str>> choices(ns);
    for (size_t s = 0; s < ns; s++) { std::set<Str> c; for (auto& x : V) c.insert(x.size() > s * 512 ? x.substr(s * 512, 512) : Str()); choices[s].assign(c.begin(), c.end()); }
    std::set<size_t> sizes; for (auto& x : V) sizes.insert(x.size());
    std::vector<size_t> ix(ns, 0); uint64_t n = 0;
    for (;;) {
      for (size_t z : sizes) {
        if (ns && choices[0][ix[0]].size() < 20 && z > choices[0][ix[0]].size()) continue;
        Str x(z, 0); for (size_t s = 0; s < ns; s++) { const Str& c = choices[s][ix[s]]; if (s * 512 < z) memcpy(&x[s * 512], c.data(), std::min(c.size(), z - s * 512)); } o.insert(x);
      }
      if (++n > 5000) { capped = true; break; }
      size_t s = 0; while (s < ns && ++ix[s] == choices[s].size()) ix[s++] = 0; if (s == ns) break;
    }
    for (auto& x : V) o.insert(x);
    if (torn_next && ef[k].ino == v.first) { size_t n2 = ef[k].data.size(), step = n2 > 400 ? 37 : 1; for (size_t c = step; c < n2; c += step) { Fs g; g.data[v.first] = V.back(); play(g, ef[k], 0, c); o.insert(g.data[v.first]); } }
  }
  if (nm.size() > 6) { capped = true; nm.erase(nm.begin(), nm.end() - 6); }
  for (unsigned m = 0; m < (1u << nm.size()); m++) {
    Fs g = base; size_t u = 0;
    for (size_t i = 0; i < k; i++) { if (u < nm.size() && nm[u] == i) { if (!(m >> u++ & 1)) continue; } if (ef[i].k == Eff::CREATE || ef[i].k == Eff::UNLINK || ef[i].k == Eff::RENAME) play(g, ef[i]); }
    std::vector<Disk> ds(1);
    for (auto& n : g.names) { auto it = opts.find(n.second); if (it == opts.end()) continue; std::vector<Disk> nx; for (auto& d : ds) for (auto& x : it->second) { if (nx.size() > 20000) { capped = true; break; } Disk e = d; e.files[n.first] = x; nx.push_back(e); } ds.swap(nx); }
    out.insert(ds.begin(), ds.end());
  }
}
static T big(const char* p, int n) { T t; for (int i = 0; i < n; i++) t.put(sfmt("%s%03d-key", p, i)).put("v"); return t; }
static void load(const Disk& d) { vfs.reset(1); for (auto& f : d.files) vfs.put(f.first, f.second); }
CHECK_DEF(C16, "model_checking", "a state is one disk content a crash may leave; distinct_nontrivial counts distinct crash states over all writers, trees and interruption patterns; every reader is run on each") {
  static std::vector<Op> O; for (auto& o : ops()) if (o.write && o.name != "kvtree_write_fd" && o.name != "kvtree_write_close_unlock") O.push_back(o);
  static std::vector<std::pair<T, T>> P = {{parse("a(b)"), parse("a(c)")}, {parse("a(b)"), parse("key(value) a(b(c)) other(1 2 3)")}, {parse("old(tree with(content of(many)))"), parse("x")}, {parse("a(b)"), parse("")}, {parse(""), parse("a")}, {parse("a(b)"), parse("a(b)")}, {parse("n(1) m(2)"), parse("n(2) m(1)")}, {big("o", 60), big("n", 75)}, {big("n", 75), big("o", 60)}, {big("m", 90), big("n", 90)}};
  size_t np = P.size() + 1;
  for (int machine = 0; machine < 2; machine++)
    suite(machine ? "machine" : "process", O.size() * np * 2, [&, machine](uint64_t i) {
      const Api& A = API[i % 2]; const Op& op = O[i / 2 % O.size()]; size_t pi = i / 2 / O.size(); bool have = pi > 0; const T nw = have ? P[pi - 1].second : parse("a(b) c"); const T old = have ? P[pi - 1].first : T();
      bool set = op.name.find("gather") != Str::npos; if (set && have && pi > 2) return;
      std::set<Disk> seen_any;
      uint64_t runs = explore(set ? 1 : g_thorough ? 3 : 2, [&](Explorer& ex) {
        trace_begin(); TRACE("%s: %s of {%s} over %s", A.name, op.name.c_str(), cdesc(nw).c_str(), have && !set ? ("{" + cdesc(old) + "}").c_str() : "nothing");
        vfs.reset(1); Run r; r.A = &A; r.tree = nw; if (have && !set) { r.old = old; r.have_old = true; } r.h = build(nw); op.prep(r); T want = observe(r.h);
        Fs base; for (auto& n : vfs.names) if (!n.second->dir) { base.names[n.first] = n.second->id; base.data[n.second->id] = n.second->data; }
        vfs.log_effects = true; bool fsync_failed = false;
        vfs.before = [&](Sys& s) -> Ans { Ans a; if (s.op == S_WRITE && s.n > 1) { size_t cuts[] = {1, s.n / 2, s.n - 1, 20}; int c = ex.choose(s.n > 21 ? 6 : 4); if (c == 5) { a.k = Ans::FAIL; a.err = ENOSPC; } else if (c) { a.k = Ans::PART; a.n = std::max<size_t>(1, cuts[c - 1]); if (g_verbose) TRACE("    write limited to %zu", a.n); } } else if (s.op == S_FSYNC) { int c = ex.choose(4); if (c) { static const int fe[] = {EIO, EINTR, ENOSPC}; a.k = Ans::FAIL; a.err = fe[c - 1]; if (c != 2) fsync_failed = true; if (g_verbose) TRACE("    fsync fails: %s", strerrorname_np(a.err)); } } return a; };
        bool ok = op.go(r); vfs.before = nullptr; (void)fsync_failed; kvtree_delete(&r.h); std::vector<Eff> ef; ef.swap(vfs.effects); vfs.log_effects = false;
        n_trans(ef.size());
        for (size_t k = 0; k <= ef.size(); k++) {
          std::set<Disk> st; bool capped = false; crash_states(base, ef, k, machine, st, capped); if (capped) note_capped("too many combinations of unsynced effects");
          bool done = ok && k == ef.size();
          for (auto& d : st) {
            if (!done && !seen_any.insert(d).second) continue;
            if (g_verbose) { TRACE("  crash after %zu of %zu effects%s", k, ef.size(), done ? " (the write has reported success)" : ""); for (auto& f : d.files) TRACE("    %s: %zu bytes %s", f.first.c_str(), f.second.size(), quote(f.second).c_str()); }
            if (done && !set) CHECK(d.files.count(Str(VROOT "/") + FN), "after a successful %s the file does not survive a crash", op.name.c_str());
            for (int v = 0; v < 2; v++) for (int rd = 0; rd < (set ? 1 : R_N); rd++) for (int pre = 0; pre < (rd == 0 || set ? 2 : 1); pre++) {
              load(d); n_eval(); kvtree* h = build(pre ? had_tree() : T()); T b4 = observe(h);
              bool empty = !set && (!d.files.count(Str(VROOT "/") + FN) || d.files.at(Str(VROOT "/") + FN).empty());
              bool rok = set ? API[v].kvtree_read_scatter_single(GN, h) == KVTREE_SUCCESS : get_tree(API[v], rd, FN, h); T g = observe(h);
              const char* rn = set ? "kvtree_read_scatter_single" : rname[rd];
              if (!rok) { CHECK(canon(g, true) == canon(b4, true), "%s fails after a crash but changed the tree", rn); CHECK(!done, "%s reported success, but after a crash %s fails", op.name.c_str(), rn); }
              else {
                bool isnew = canon(g) == canon(tunion(b4, want)), isold = have && !set && canon(g) == canon(tunion(b4, old)), isempty = empty && canon(g) == canon(b4);
                CHECK(isnew || isold || isempty, "after a crash during %s, %s yields {%s}", op.name.c_str(), rn, cdesc(g).c_str());
                CHECK(!done || isnew, "%s reported success, but after a crash %s yields {%s}", op.name.c_str(), rn, cdesc(g).c_str());
              }
              kvtree_delete(&h); n_valid();
            }
            // the next write succeeds and is read back
            if (!set) for (int w = 0; w < 2; w++) { load(d); kvtree* h = build(parse("next(write)")); CHECK(put_tree(A, w, FN, h), "%s fails after a crash", wname[w]); kvtree_delete(&h); h = kvtree_new(); CHECK(get_tree(A, R_FILE, FN, h) && canon(observe(h)) == canon(parse("next(write)")), "what is written after a crash is not read back"); kvtree_delete(&h); n_eval(); }
            n_state(); Str key; for (auto& f : d.files) key += f.first + "=" + f.second; outcome(fnv(key) + i);
          }
        }
      });
      (void)runs;
    }, machine ? "machine crash: the size and every 512 byte sector of a file independently revert to any state since its last flush, unflushed names may be lost, the last write is torn at every byte; at every point of every write with up to 2 (thorough 3) short, failing or interrupted calls" : "process crash: every prefix of the effects, the last write torn at every byte");
  // large images: what has been reported as written survives even if everything not flushed is lost
  static std::vector<T> LT; for (int n : {1, 30, 100, 300, 1000, 5000}) LT.push_back(big("k", n)); { T t; for (int k = 0; k < 40; k++) t.k.push_back({sfmt("%d-", k) + Str(40000, 'w'), T()}); LT.push_back(t); }
  suite("flushed", O.size() * LT.size() * 2, [&](uint64_t i) {
    const Api& A = API[i % 2]; const Op& op = O[i / 2 % O.size()]; const T& nw = LT[i / 2 / O.size()]; bool set = op.name.find("gather") != Str::npos;
    for (int prev = 0; prev < (set ? 1 : 4); prev++) {
      trace_begin(); TRACE("%s: %s of %zu entries, previous file %d", A.name, op.name.c_str(), nw.k.size(), prev); n_eval(); n_trans();
      vfs.reset(1); Run r; r.A = &A; r.tree = nw; if (prev) { r.old = prev == 1 ? parse("a") : prev == 2 ? big("o", 200) : big("o", 5000); r.have_old = true; } r.h = build(nw); op.prep(r); T want = observe(r.h);
      Fs f; for (auto& n : vfs.names) if (!n.second->dir) { f.names[n.first] = n.second->id; f.data[n.second->id] = n.second->data; }
      vfs.log_effects = true; bool ok = op.go(r); kvtree_delete(&r.h); std::vector<Eff> ef; ef.swap(vfs.effects); vfs.log_effects = false; CHECK(ok, "%s fails", op.name.c_str());
      // a file keeps what it held when it was last flushed
      Fs now = f, safe = f; std::map<int, bool> synced; for (auto& d : f.data) synced[d.first] = true;
      for (auto& e : ef) { if (e.k != Eff::SYNC) play(now, e); else { safe.data[e.ino] = now.data[e.ino]; synced[e.ino] = true; } }
      safe.names.clear(); for (auto& n : now.names) if (synced[n.second]) safe.names[n.first] = n.second;
      Disk d = disk(safe); load(d); kvtree* h = kvtree_new(); bool rok = set ? A.kvtree_read_scatter_single(GN, h) == KVTREE_SUCCESS : get_tree(A, R_FILE, FN, h); T g = observe(h); kvtree_delete(&h);
      CHECK(rok && canon(g) == canon(want), "%s has reported success, but after a crash its content is %s", op.name.c_str(), rok ? "another" : "lost"); n_valid(); n_state(); outcome(i * 4 + prev);
    }
  }, "images of 40 bytes to 1.6 MB over no, a small and a large file: everything that was not flushed when success was reported is lost");
  assumption("flushing a file makes its name and size durable as well; sectors are written whole; the size of a later write does not become durable when only a part of the 20 byte header written earlier has");
}

// ---------------------------------------------------------------------------
extern "C" { mode_t kvtree_getmode(int, int, int) __attribute__((weak)); mode_t b_kvtree_getmode(int, int, int) __attribute__((weak)); }
CHECK_DEF(C30, "exploration", "a case is one operation of one build under one umask and one previous mode of the file; distinct_nontrivial counts distinct (operation, umask, resulting mode)") {
  static std::vector<Op> O; for (auto& o : ops()) if (o.name != "kvtree_write_fd" && o.name != "kvtree_read_fd") O.push_back(o);
  auto one = [](const Op& op, const Api& A, unsigned um, int oldmode, const std::function<Ans(Sys&)>& before) {
    vfs.reset(1); vfs.procs[0].umask_ = um; Run r; r.A = &A; r.tree = parse("a(b)"); if (oldmode >= 0) { r.old = parse("o(p)"); r.have_old = true; } r.h = build(op.write ? r.tree : had_tree());
    trace_begin(); TRACE("%s: %s with umask %03o%s", A.name, op.name.c_str(), um, oldmode >= 0 ? sfmt(", existing files have mode %03o", oldmode).c_str() : ""); n_eval();
    op.prep(r); std::map<Str, unsigned> had; for (auto& n : vfs.names) if (!n.second->dir) { if (oldmode >= 0) n.second->mode = oldmode; had[n.first] = n.second->mode; }
    if (r.fd >= 0) for (auto& n : had) if (oldmode < 0) had[n.first] = 0666 & ~um; // created by the preparation
    vfs.before = before; bool ok = op.go(r); vfs.before = nullptr;
    CHECK(vfs.procs[0].umask_ == um, "%s changes the umask from %03o to %03o", op.name.c_str(), um, vfs.procs[0].umask_);
    for (auto& n : vfs.names) if (!n.second->dir) { bool ex = had.count(n.first); unsigned want = ex ? had[n.first] : 0666 & ~um; CHECK(n.second->mode == want, "%s with umask %03o %s with mode %03o instead of %03o", op.name.c_str(), um, ex ? "leaves an existing file" : "creates a file", n.second->mode, want); outcome(fnv(op.name) + um * 1024 + n.second->mode); }
    if (ok && !op.write && r.fd >= 0) vf_close(r.fd); kvtree_delete(&r.h); n_valid();
    return ok;
  };
  suite("umasks", O.size() * 2, [&](uint64_t i) {
    const Op& op = O[i / 2];
    for (unsigned um = 0; um < 512; um++) {
      bool ok = one(op, API[i % 2], um, -1, nullptr);
      // as the owner may be denied by the umask, only look at success where the owner can read and write
      if (!op.hopeless && !(um & 0600)) CHECK(ok, "%s fails with umask %03o", op.name.c_str(), um);
    }
    for (unsigned um : {0u, 022u, 077u, 0777u, 0111u, 0133u, 0666u}) for (int m = 0; m < 512; m++) one(op, API[i % 2], um, m, nullptr);
  }, "every operation on files x all 512 umasks on new files, and all 512 modes of existing files x 7 umasks");
  suite("faults", O.size() * 2, [&](uint64_t i) {
    for (unsigned um : {0u, 022u, 027u, 077u, 0137u}) explore(1, [&](Explorer& ex) { std::vector<Alt> m; std::map<int, Ans> sticky; one(O[i / 2], API[i % 2], um, -1, [&](Sys& s) -> Ans { if (sticky.count(s.op)) return sticky[s.op]; menu(s, m, false); if (m.empty()) return Ans(); int c = ex.choose(m.size() + 1); if (!c) return Ans(); if (m[c - 1].persist) sticky[s.op] = m[c - 1].a; return m[c - 1].a; }); });
  }, "the same with every single fault of a system call");
  suite("parallel", 512, [&](uint64_t um) {
    for (int v = 0; v < 2; v++) for (int n : {1, 3}) {
      vfs.reset(n); for (int r = 0; r < n; r++) vfs.procs[r].umask_ = (um + r * 0111) & 0777; mpi_mode = MpiMode(); sched.pick = nullptr; n_eval(); trace_begin(); TRACE("%s: kvtree_write_gather with umask %03o", API[v].name, (unsigned)um); std::map<Str, int> creator;
      vfs.after = [&](const Sys& s) { if (s.op == S_OPEN && s.ret >= 0 && (s.arg & O_CREAT) && !creator.count(s.path)) creator[s.path] = s.proc; };
      mpi_run(n, [&](int r) { kvtree* h = build(parse("a(b)")); kvtree_set_kv_int(h, "rank", r); API[v].kvtree_write_gather(GN, h, MPI_COMM_WORLD); kvtree_delete(&h); }); vfs.after = nullptr;
      for (int r = 0; r < n; r++) CHECK(vfs.procs[r].umask_ == ((um + r * 0111) & 0777), "kvtree_write_gather changes the umask");
      int files = 0; for (auto& f : vfs.names) if (!f.second->dir) { files++; int p = -1; for (auto& c : creator) { Str a = c.first[0] == '/' ? c.first : VROOT "/" + c.first; if (a == f.first) p = c.second; } if (p < 0) continue; unsigned want = 0666 & ~((um + p * 0111) & 0777); CHECK(f.second->mode == want, "kvtree_write_gather creates %s with mode %03o instead of %03o", f.first.c_str(), f.second->mode, want); outcome(um * 512 + f.second->mode); }
      CHECK(files >= 2, "kvtree_write_gather created no files"); n_valid();
    }
  }, "kvtree_write_gather under all 512 umasks, a different one on each process");
  suite("modes", 512, [&](uint64_t um) {
    for (auto f : {&kvtree_getmode, &b_kvtree_getmode}) if (f) for (int a = 0; a < 27; a++) { static const int V[] = {0, 1, 4}; int r = V[a % 3], w = V[a / 3 % 3], x = V[a / 9]; vfs.reset(1); vfs.procs[0].umask_ = um; n_eval(); mode_t m = f(r, w, x); trace_begin(); TRACE("kvtree_getmode(%d, %d, %d) with umask %03o", r, w, x, (unsigned)um); CHECK(vfs.procs[0].umask_ == um, "kvtree_getmode changes the umask to %03o", vfs.procs[0].umask_); unsigned want = ((r ? 0444 : 0) | (w ? 0222 : 0) | (x ? 0111 : 0)) & ~(unsigned)um; CHECK(m == want, "kvtree_getmode gives %03o instead of %03o", (unsigned)m, want); n_valid(); outcome((um * 27 + a) | (1ull << 40)); }
  }, "the mode computed for every combination of permissions asked for, under all 512 umasks");
  // against the kernel
  static Str D = scratch_dir();
  extern void vfs_real_root(const Str&);
  suite("kernel", 512, [&](uint64_t um) {
    for (int w = 0; w < W_N; w++) for (int v = 0; v < 2; v++) {
      Str sub = D + sfmt("/%d-%d", (int)getpid(), w * 2 + v); mkdir(sub.c_str(), 0755); vfs_real_root(sub); mode_t o = umask(um); trace_begin(); TRACE("%s: %s on the kernel's file system with umask %03o", API[v].name, wname[w], (unsigned)um);
      kvtree* h = build(parse("a(b)")); g_real_fs = true; bool ok = put_tree(API[v], w, FN, h); g_real_fs = false; kvtree_delete(&h); mode_t now = umask(o); struct stat st; memset(&st, 0, sizeof st); int e = stat((sub + "/f").c_str(), &st); unlink((sub + "/f").c_str()); rmdir(sub.c_str());
      CHECK(ok && e == 0, "%s fails on the kernel's file system", wname[w]); CHECK(now == um, "%s changes the umask", wname[w]); CHECK((st.st_mode & 07777) == (0666 & ~um), "%s creates a file with mode %03o under umask %03o", wname[w], st.st_mode & 07777, (unsigned)um); n_eval(); n_valid();
    }
  }, "the writers under all 512 umasks on the kernel's file system");
}
