// C27: printing.
#include "printing.h"
#include <sys/mman.h>
#include <unistd.h>

static int memfd = -1, saved = -1;
static Str capture(const std::function<void()>& f) {
  if (memfd < 0) memfd = memfd_create("out", 0);
  fflush(stdout); saved = dup(1); if (ftruncate(memfd, 0) || lseek(memfd, 0, SEEK_SET) || dup2(memfd, 1) < 0) harness_error("capture");
  f(); fflush(stdout); dup2(saved, 1); close(saved);
  off_t n = lseek(memfd, 0, SEEK_END); Str s(n, 0); if (n && pread(memfd, &s[0], n, 0) != n) harness_error("capture"); return s;
}
static Str first_diff(const Str& a, const Str& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t l = a.rfind('\n', i ? i - 1 : 0); l = l == Str::npos ? 0 : l + 1; return sfmt("at byte %zu: %s instead of %s", i, quote(a.substr(std::min(l, a.size()), 120)).c_str(), quote(b.substr(std::min(l, b.size()), 120)).c_str()); }
enum { P_PRINT, P_TREE, P_KV, P_N };
static const char* pname[] = {"kvtree_print", "kvtree_print_mode TREE", "kvtree_print_mode KEYVAL"};
static Str print(int how, const kvtree* h, int indent) { return capture([&] { int rc = how == P_PRINT ? kvtree_print(h, indent) : kvtree_print_mode(h, indent, how == P_TREE ? KVTREE_PRINT_TREE : KVTREE_PRINT_KEYVAL); if (rc != KVTREE_SUCCESS) fail("%s fails", pname[how]); }); }
static void one(const T& t, const std::vector<int>& indents, const char* what = nullptr) {
  Leaks lk; kvtree* h = build(t); T o = observe(h); Str before = ordered(o);
  for (int how = 0; how < P_N; how++) for (int in : indents) {
    trace_begin(); TRACE("%s of %s, indentation %d", pname[how], what ? what : ("{" + cdesc(t) + "}").c_str(), in); n_eval();
    Str got = print(how, h, in), want = want_print(o, in, how == P_KV);
    CHECK(got == want, "%s with indentation %d prints, %s", pname[how], in, first_diff(got, want).c_str()); CHECK(ordered(observe(h)) == before, "%s changed the tree", pname[how]); n_valid(); outcome(fnv(want) + how * 7 + in);
  }
  kvtree_delete(&h); lk.check("printing");
}
CHECK_DEF(C27, "exploration", "a case is one tree printed in one way with one indentation; distinct_nontrivial counts distinct outputs") {
  static std::vector<T> S; int N = g_thorough ? 9 : 8; for (int n = 0; n <= N; n++) { std::vector<T> v; shapes(n, v); S.insert(S.end(), v.begin(), v.end()); }
  suite("shapes", S.size(), [&](uint64_t i) { for (int z = 0; z < 3; z++) { T t = S[i]; int c = 0; label(t, [&](int k) { return z == 0 ? sfmt("k%d", k) : z == 1 ? sfmt("%d", 20 - k * 3) : Str(k % 5, ' ') + Str(1, 'a' + k); }, c); one(t, {0, 1, 7}); } }, "all ordered trees of up to 8 (9) entries x 3 labellings x 3 indentations x 3 ways");
  static std::vector<T> U = universe(g_thorough ? 6 : 5, {"a", "b", ""});
  suite("universe", U.size(), [&](uint64_t i) { one(U[i], {0, 3}); }, "all trees of up to 5 (6) entries over 3 keys, one of them empty");
  static std::vector<T> UN = universe(4, {"a", "b"}, true);
  suite("missing subtrees", UN.size(), [&](uint64_t i) {
    kvtree* h = build(UN[i]); T o = nonull(observe(h)); for (int how = 0; how < P_N; how++) { trace_begin(); TRACE("%s of {%s}", pname[how], canon(UN[i], true).c_str()); n_eval(); Str g = print(how, h, 0), w; size_t a = 0; while (a < g.size()) { size_t b = g.find('\n', a); CHECK(b != Str::npos, "the last line is not ended"); Str l = g.substr(a, b - a); if (l.find_first_not_of(' ') == Str::npos || l.substr(l.find_first_not_of(' ')) != "NULL LIST") w += l + "\n"; a = b + 1; } CHECK(w == want_print(o, 0, how == P_KV), "%s of a tree with missing subtrees prints, %s", pname[how], first_diff(w, want_print(o, 0, how == P_KV)).c_str()); n_valid(); outcome(fnv(g) + how); } kvtree_delete(&h);
  }, "all trees of up to 4 entries with missing subtrees; a line saying so is accepted");
  suite("keys", 256, [&](uint64_t b) { if (!b) return; for (int z = 0; z < 4; z++) { Str k = z == 0 ? Str(1, (char)b) : z == 1 ? "x" + Str(1, (char)b) + "y" : z == 2 ? "%" + Str(1, (char)b) : Str(b, 'q'); T t; t.put(k).put(k); t.put("v").put(k).put("w"); t.put("l").put("m").put(k); one(t, {0, 2}); } }, "every byte as key, inside keys and after a percent sign, keys of every length up to 255");
  suite("formats", 12, [&](uint64_t i) { const char* f[] = {"%s%s%s%s", "%n", "%n%n%n%n", "%d %x %p", "%99999d", "%.9999f", "%*d", "%1$s", "%", "%%", "\\n\\t", "a\nb\n"}; T t; t.put(f[i]).put(f[i]); t.put("x").put(f[i]).put("y").put(f[i]); t.put("z").put(Str(3000 + i * 4099, 'k') + f[i]); one(t, {0, 4, 100}); }, "keys that look like formats, long keys");
  suite("depth", g_thorough ? 60 : 40, [&](uint64_t i) { int d = i < 30 ? i : 30 << ((i - 30) / 2); if (d > 1500) d = 1500 + i; T t; T* p = &t; for (int k = 0; k < d; k++) p = &p->put(sfmt("d%d", k)); p->put("s"); p->put("t"); one(t, {0, 5}, sfmt("a chain of %d entries", d).c_str()); }, "chains of up to 1500 entries");
  suite("width", 30, [&](uint64_t i) { int w = i < 20 ? i : 20 << (i - 20); if (w > 3000) w = 3000 + i; T t; for (int k = 0; k < w; k++) { T x; if (k % 3) x.put("v"); if (k % 7 == 6) x.put("w").put("deep"); t.k.push_back({sfmt("w%d", k), x}); } one(t, {0}, sfmt("%d entries", w).c_str()); }, "up to 3000 entries side by side");
  suite("indents", 130, [&](uint64_t i) { int in = i < 120 ? i : 120 << (i - 120); one(parse("a(b) c(d(e) f) g"), {in}, "a(b) c(d(e) f) g"); }, "indentations 0 to 119 and beyond, up to 61440");
  // after other operations, twice in a row, several trees
  suite("orders", 120, [&](uint64_t i) { auto P = permutations(5); T t; const char* k[] = {"10", "9", "b", "-1", "a"}; for (int x : P[i]) t.put(k[x]).put("v"); for (int how = 0; how < 5; how++) { trace_begin(); n_eval(); kvtree* h = build(t); if (how == 1) kvtree_sort(h, KVTREE_SORT_ASCENDING); if (how == 2) kvtree_sort_int(h, KVTREE_SORT_DESCENDING); if (how == 3) kvtree_unset(h, "b"); if (how == 4) kvtree_set_kv(h, "new", "x"); TRACE("printing {%s} after operation %d", cdesc(t).c_str(), how); T o = observe(h); for (int p = 0; p < P_N; p++) for (int twice = 0; twice < 2; twice++) { Str g = print(p, h, 0); CHECK(g == want_print(o, 0, p == P_KV), "%s prints, %s", pname[p], first_diff(g, want_print(o, 0, p == P_KV)).c_str()); outcome(fnv(g) + p); } kvtree_delete(&h); n_valid(); } }, "all orders of 5 keys, after sorting, removing and adding");
  // logging writes the same entries as messages
  suite("log", S.size() / 4, [&](uint64_t i) { for (int lv : {0, 1, 2, 3, 9}) for (int in : {0, 2, 7}) { if (lv != 1 && in == 2) continue; T t = S[i]; int c = 0; label(t, [&](int k) { return sfmt("%%k%d", k); }, c); trace_begin(); TRACE("kvtree_log of {%s}, level %d, indentation %d", cdesc(t).c_str(), lv, in); n_eval(); kvtree* h = build(t); T o = observe(h); Str g = capture([&] { if (kvtree_log(h, lv, in) != KVTREE_SUCCESS) fail("kvtree_log fails"); }); CHECK(ordered(observe(h)) == ordered(o), "kvtree_log changed the tree");
    // every entry once, in order, indented by its depth
    Str want = want_print(o, in, false); size_t a = 0, at = 0; while (a < want.size()) { size_t b = want.find('\n', a); Str l = want.substr(a, b - a); at = g.find(": " + l + "\n", at); CHECK(at != Str::npos, "kvtree_log does not write %s in its place", quote(l).c_str()); at += l.size(); a = b + 1; } size_t n = 0; for (size_t p = g.find("%k"); p != Str::npos; p = g.find("%k", p + 1)) n++; CHECK(n == o.nodes(), "kvtree_log writes %zu entries of %zu", n, o.nodes()); kvtree_delete(&h); n_valid(); outcome(fnv(g) + lv); } }, "logging of ordered trees at 5 levels and 3 indentations: every entry once, in order, at its depth");
}
