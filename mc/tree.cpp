// C01-C06: the in-memory tree against the nested-map model.
#include "bfs.h"
#include "model.h"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>

static void drop_elem(kvtree_elem* e) {   // the caller owns an extracted element
  kvtree* h = kvtree_elem_hash(e); char* k = kvtree_elem_key(e);
  kvtree_delete(&h); harness_free(k); harness_free(e);
}

// ---------------------------------------------------------------------------
// C01: operation machine
struct OpDef { int kind; int path; int key; int val; };
enum { O_SETNEW, O_SETNULL, O_SETSUB, O_SETSUB2, O_UNSET, O_EXTRACT, O_UNSETALL, O_SETKV, O_UNSETKV, O_ELEMX, O_ELEMXADDR, O_SORT, O_SORTD, O_GETKV, O_SETKVI, O_UNSETKVI };
static const char* okname[] = {"kvtree_set(new)", "kvtree_set(NULL)", "kvtree_set({v})", "kvtree_set({v{v}})", "kvtree_unset", "kvtree_extract", "kvtree_unset_all", "kvtree_set_kv", "kvtree_unset_kv", "kvtree_elem_extract", "kvtree_elem_extract_by_addr", "kvtree_sort asc", "kvtree_sort desc", "kvtree_get_kv", "kvtree_set_kv_int", "kvtree_unset_kv_int"};

struct MachineCfg { std::vector<Str> keys; std::vector<std::vector<int>> paths; int maxdepth; std::vector<OpDef> ops; };
template <int CFG> struct Machine {
  static MachineCfg cfg;
  Leaks lk; kvtree* h; T m;
  Machine() { h = kvtree_new(); }
  static int nops() { return cfg.ops.size(); }
  Str key() { return ordered(observe(h)); }
  static Str opname(int o) { const OpDef& d = cfg.ops[o]; Str p = "/"; for (int i : cfg.paths[d.path]) p += cfg.keys[i] + "/"; return sfmt("%s at %s key=%s val=%s", okname[d.kind], p.c_str(), d.key >= 0 ? quote(cfg.keys[d.key]).c_str() : "-", d.val >= 0 ? quote(cfg.keys[d.val]).c_str() : "-"); }
  bool apply(int o, bool check) {
    const OpDef& d = cfg.ops[o]; const auto& path = cfg.paths[d.path];
    T* mt = &m; kvtree* ht = h;
    for (int i : path) { mt = mt->get(cfg.keys[i]); if (!mt || mt->null) return false; ht = kvtree_get(ht, cfg.keys[i].c_str()); if (!ht) fail("lookup of %s found nothing", quote(cfg.keys[i]).c_str()); }
    int room = cfg.maxdepth - (int)path.size();
    Str K = d.key >= 0 ? cfg.keys[d.key] : "", V = d.val >= 0 ? cfg.keys[d.val] : "";
    Handles hs(check ? h : nullptr); Str gone = "-";
    if (d.kind <= O_SETSUB2) { gone = ""; for (int i : path) gone = Handles::step(gone, cfg.keys[i]); gone = Handles::step(gone, K); }
    switch (d.kind) {
      case O_SETNEW: case O_SETNULL: case O_SETSUB: case O_SETSUB2: {
        T v; if (d.kind == O_SETNULL) v.null = true; if (d.kind == O_SETSUB || d.kind == O_SETSUB2) v.put(V); if (d.kind == O_SETSUB2) v.put(V).put(V);
        if ((int)v.depth() + 1 > room) return false;
        kvtree* hv = build(v); kvtree* r = kvtree_set(ht, K.c_str(), hv);
        CHECK(r == hv, "kvtree_set did not return the subtree it was given");
        mt->set(K, v); break;
      }
      case O_UNSET: { int r = kvtree_unset(ht, K.c_str()); CHECK(r == KVTREE_SUCCESS, "kvtree_unset returned %d", r); mt->del(K); break; }
      case O_EXTRACT: {
        kvtree* x = kvtree_extract(ht, K.c_str()); T* w = mt->get(K);
        if (!w || w->null) CHECK(x == nullptr, "kvtree_extract returned a tree for a key without one");
        else { CHECK(x, "kvtree_extract of key %s returned nothing", quote(K).c_str()); if (check) verify(x, *w, "extracted tree", true); }
        mt->del(K); if (check) verify(h, m, "after extract", true); kvtree_delete(&x); CHECK(!x, "kvtree_delete left the handle set"); break;
      }
      case O_ELEMX: {
        kvtree_elem* e = kvtree_elem_extract(ht, K.c_str()); T* w = mt->get(K);
        if (!w) CHECK(!e, "kvtree_elem_extract returned an element for an absent key");
        else { CHECK(e, "kvtree_elem_extract of key %s found nothing", quote(K).c_str()); CHECK(K == kvtree_elem_key(e), "extracted element has another key"); if (check) { T g = observe(kvtree_elem_hash(e)); CHECK(same(g, *w, true), "extracted element holds another subtree"); } drop_elem(e); }
        mt->del(K); break;
      }
      case O_ELEMXADDR: {
        kvtree_elem* e = kvtree_elem_get(ht, K.c_str()); if (!mt->get(K)) { CHECK(!e, "kvtree_elem_get found an absent key"); return false; }
        CHECK(e, "kvtree_elem_get of key %s found nothing", quote(K).c_str());
        kvtree_elem* r = kvtree_elem_extract_by_addr(ht, e); CHECK(r == e, "extract_by_addr returned another element"); drop_elem(e); mt->del(K); break;
      }
      case O_UNSETALL: { int r = kvtree_unset_all(ht); CHECK(r == KVTREE_SUCCESS, "kvtree_unset_all returned %d", r); mt->k.clear(); break; }
      case O_SETKV: {
        if (room < 2) return false;
        T* k = mt->get(K); bool fresh = !k || k->null; kvtree* before = kvtree_get_kv(ht, K.c_str(), V.c_str());
        T* mv = fresh ? nullptr : k->get(V); bool had = mv && !mv->null;
        kvtree* r = kvtree_set_kv(ht, K.c_str(), V.c_str());
        CHECK(r, "kvtree_set_kv returned NULL");
        if (fresh) mt->set(K, T()); k = mt->get(K); if (!had) k->set(V, T());
        if (had) CHECK(r == before, "kvtree_set_kv replaced an existing value");
        CHECK(r == kvtree_get_kv(ht, K.c_str(), V.c_str()), "kvtree_set_kv returned another tree than kvtree_get_kv"); break;
      }
      case O_UNSETKV: {
        int r = kvtree_unset_kv(ht, K.c_str(), V.c_str()); CHECK(r == KVTREE_SUCCESS, "kvtree_unset_kv returned %d", r);
        T* k = mt->get(K); if (k) { k->del(V); if (k->k.empty()) mt->del(K); } break;
      }
      case O_SETKVI: { if (room < 2) return false; kvtree* r = kvtree_set_kv_int(ht, K.c_str(), d.val); CHECK(r, "kvtree_set_kv_int returned NULL"); T* k = mt->get(K); if (!k || k->null) { mt->set(K, T()); k = mt->get(K); } T* v = k->get(sfmt("%d", d.val)); if (!v || v->null) k->set(sfmt("%d", d.val), T()); break; }
      case O_UNSETKVI: { int r = kvtree_unset_kv_int(ht, K.c_str(), d.val); CHECK(r == KVTREE_SUCCESS, "kvtree_unset_kv_int returned %d", r); T* k = mt->get(K); if (k) { k->del(sfmt("%d", d.val)); if (k->k.empty()) mt->del(K); } break; }
      case O_SORT: case O_SORTD: kvtree_sort(ht, d.kind == O_SORT ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); break;
      case O_GETKV: { kvtree* r = kvtree_get_kv(ht, K.c_str(), V.c_str()); T* k = mt->get(K); T* v = k ? k->get(V) : nullptr; CHECK((r != nullptr) == (v && !v->null), "kvtree_get_kv is wrong"); if (r) verify(r, *v, "kvtree_get_kv"); break; }
    }
    if (check) {
      verify(h, m, opname(o).c_str(), true); hs.kept(h, opname(o).c_str(), gone);
      CHECK(kvtree_size(ht) == (int)mt->k.size(), "size is wrong");
      for (auto& k : cfg.keys) { T* w = mt->get(k); kvtree* g = kvtree_get(ht, k.c_str()); CHECK((g != nullptr) == (w && !w->null), "lookup of %s is wrong after %s", quote(k).c_str(), opname(o).c_str()); }
      CHECK(!kvtree_get(ht, "zz"), "lookup of an absent key found something");
    }
    return true;
  }
  void finish(bool) { if (h) { kvtree_delete(&h); CHECK(!h, "kvtree_delete left the handle set"); lk.check("after deleting the tree"); } }
  ~Machine() { finish(false); }
};
template <int CFG> MachineCfg Machine<CFG>::cfg;

static MachineCfg mkcfg(std::vector<Str> keys, int nkeys, std::vector<std::vector<int>> paths, int maxdepth, std::vector<int> kinds) {
  MachineCfg c; c.keys = keys; c.paths = paths; c.maxdepth = maxdepth;
  for (int p = 0; p < (int)paths.size(); p++) for (int kd : kinds) switch (kd) {
    case O_UNSETALL: case O_SORT: case O_SORTD: c.ops.push_back({kd, p, -1, -1}); break;
    case O_SETSUB: case O_SETSUB2: case O_SETKV: case O_UNSETKV: case O_GETKV: for (int k = 0; k < nkeys; k++) for (int v = 0; v < (int)keys.size(); v++) c.ops.push_back({kd, p, k, v}); break;
    case O_SETKVI: case O_UNSETKVI: for (int k = 0; k < nkeys; k++) for (int v = 0; v < 2; v++) c.ops.push_back({kd, p, k, v}); break;
    default: for (int k = 0; k < nkeys; k++) c.ops.push_back({kd, p, k, -1});
  }
  return c;
}

template <class W> static void all_sequences(const char* name, const char* rule, int len) {
  int n = W::nops(); uint64_t tot = (uint64_t)n * n;
  suite(name, tot, [&](uint64_t i) {
    uint64_t rest = 1; for (int k = 2; k < len; k++) rest *= n;
    for (uint64_t r = 0; r < rest; r++) {
      trace_begin(); W w; uint64_t x = r; std::vector<int> seq = {(int)(i / n), (int)(i % n)}; for (int k = 2; k < len; k++) { seq.push_back(x % n); x /= n; }
      for (size_t k = 0; k < seq.size(); k++) { if (g_verbose) TRACE("%s", W::opname(seq[k]).c_str()); if (!w.apply(seq[k], k + 1 == seq.size())) break; n_trans(); }
      w.finish(true); n_eval();
    }
  }, rule);
}

// pairs of keys that are easily taken for each other: one character differs, two are swapped, or a hash of theirs agrees
static std::vector<std::pair<Str, Str>> similar_keys() {
  std::vector<std::pair<Str, Str>> v;
  for (auto p : std::initializer_list<std::pair<const char*, const char*>>{
      {"Aa", "BB"}, {"AaAa", "BBBB"}, {"Ab", "BA"}, {"ad", "bc"}, {"12", "21"}, {"az", "by"}, {"acb", "bac"},   // h*31, h*33, sums
      {"ziwxnswy", "retpbvpd"}, {"gdixfffbtukl", "onrfbatpirat"}, {"sjeqnkuf", "bwtwlvkp"}, {"ecseyxtrpbpt", "gfycdxezjppc"}, {"txjscdrn", "bokxkexl"}, {"olnjggmsksdu", "psxxhkfhtwkp"}, // sdbm, FNV-1a, FNV-1
      {"mmckvnng", "cjqwuzzc"}, {"emkieobctihm", "kdjjxticxjlh"}, {"baiueetf", "qohxclxt"}, {"wnmwsiyqrysv", "ofpjvvrvyegs"}, {"rtychpgg", "ccfvjxhq"}, {"jwqyhhgfmlzu", "sczbdszjakla"},  // djb2, djb2a, one at a time
      {"fsvjcwln", "mvfibqml"}, {"lqqjqtmldmnc", "rcywaldagpbc"}, {"hsidrooe", "vimbihfx"}, {"jpcdtzikvaxf", "oupbjfdrljqu"}, {"ascxplir", "kqisxims"}, {"dkzpwldxgmyd", "sjrnehrxpwrf"},  // CRC-32, Adler-32
      {"qjphqrhw", "ahbdgtcn"}, {"csjnwqqksvgo", "fyurdngziqsq"}, {"wthfsahq", "cphfsamp"}, {"ygcsdbiejmmj", "optjtjlpwsah"}, {"umyqlfmc", "emyqlgls"}, {"ycdrxpkfezov", "nfzegnsuajqf"},  // h*31, rotate, ELF
      {"jodbuikx", "zhufntoz"}, {"dbjmdpqyyhbs", "jrrahqhykhku"}, {"gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf"}})                                                      // Murmur3, 64-bit FNV-1a
    v.push_back({p.first, p.second});
  for (int k = 6; k <= 12; k++) { Str a, b; for (int i = 0; i < 1 << k; i++) { bool o = __builtin_popcount(i) & 1; a += o ? 'b' : 'a'; b += o ? 'a' : 'b'; } v.push_back({a, b}); }   // every polynomial hash modulo a power of two, in the end
  for (int n = 2; n <= (g_thorough ? 140 : 70); n++) for (int i = 0; i < n; i++) {
    Str a; for (int k = 0; k < n; k++) a += (char)('a' + (k * 7 + n) % 26);
    for (char x : {(char)0x20, (char)0x80, (char)1}) { Str b = a; b[i] ^= x; v.push_back({a, b}); }
    if (i + 1 < n) { Str b = a; std::swap(b[i], b[i + 1]); v.push_back({a, b}); b = a; std::swap(b[0], b[n - 1]); if (i == 0 && n > 2 && b != a) v.push_back({a, b}); b = a; b[i]++; b[i + 1]--; if (b != a) v.push_back({a, b}); }
  }
  return v;
}
static std::vector<Str> hostile_keys() {
  std::vector<Str> v; for (int c = 1; c < 256; c++) v.push_back(Str(1, (char)c));
  for (const char* s : {"", "a", "ab", "abc", "aB", "AB", "a ", " a", "a  b", "a b", "0", "00", "1", "01", "+1", "-1", "-0", "1.0", "0x1", "1e0", "10", "100", "1000", "2147483647", "-2147483648", "2147483648", "%s", "%d", "%n", "%%", "a\nb", "a\tb", "/", "a/b", "..", ".", "key", "keyy", "kee", "key1", "key10", "NULL", "(nil)", "\xc3\xa9", "\xff\xfe", "a\x80", "a\xff", "\x80""a", "RANK", "RANKS", "LEVEL", "aaaaaaaa", "aaaaaaaab", "aaaaaaaaa", "abcdefgh", "abcdefgi", "Abcdefgh", "abcdefghijklmnop", "abcdefghijklmnoq", "bbcdefghijklmnop"}) v.push_back(s);
  for (int n : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 4095, 4096, 5000}) { v.push_back(Str(n, 'x')); Str z(n, 'x'); z.back() = 'y'; v.push_back(z); z = Str(n, 'x'); z[0] = 'y'; v.push_back(z); }
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}

static void key_pair(const Str& a, const Str& b) {
  trace_begin(); TRACE("set %s, set %s, unset, extract", quote(a).c_str(), quote(b).c_str());
  Leaks lk; kvtree* h = kvtree_new(); T m;
  CHECK(!kvtree_get(h, a.c_str()), "empty tree has key %s", quote(a).c_str());
  kvtree_set(h, a.c_str(), build(parse("one"))); m.set(a, parse("one"));
  CHECK(!kvtree_get(h, b.c_str()), "key %s found although only %s is set", quote(b).c_str(), quote(a).c_str());
  kvtree_set(h, b.c_str(), build(parse("two"))); m.set(b, parse("two")); verify(h, m, "two keys");
  kvtree_set_kv(h, a.c_str(), b.c_str()); m.get(a)->set(b, T()); verify(h, m, "kv");
  kvtree_set_kv(h, a.c_str(), a.c_str()); m.get(a)->set(a, T()); verify(h, m, "kv");
  kvtree_unset_kv(h, a.c_str(), b.c_str()); m.get(a)->del(b); verify(h, m, "unset_kv");
  kvtree_set(h, a.c_str(), kvtree_new()); m.set(a, T()); verify(h, m, "reset");
  kvtree_unset(h, a.c_str()); m.del(a); verify(h, m, "unset");
  CHECK(!kvtree_get(h, a.c_str()) && kvtree_get(h, b.c_str()), "unset removed the wrong key");
  kvtree_unset(h, a.c_str()); verify(h, m, "unset of an absent key");
  kvtree_set_kv(h, b.c_str(), a.c_str()); m.get(b)->set(a, T()); kvtree_unset_kv(h, b.c_str(), "two"); m.get(b)->del("two"); verify(h, m, "unset_kv keeps the other value");
  kvtree_unset_kv(h, b.c_str(), a.c_str()); m.del(b); verify(h, m, "unset_kv of the last value");
  CHECK(kvtree_size(h) == 0, "tree not empty");
  kvtree_delete(&h); lk.check("delete"); n_eval(); outcome(fnv(a + '\0' + b));
}
CHECK_DEF(C01, "model_checking", "a case is one operation applied to one reachable ordered tree (or one enumerated key pair / width); distinct_nontrivial counts distinct reachable ordered trees and distinct observations") {
  std::vector<int> all = {O_SETNEW, O_SETNULL, O_SETSUB, O_SETSUB2, O_UNSET, O_EXTRACT, O_UNSETALL, O_SETKV, O_UNSETKV, O_ELEMX, O_ELEMXADDR, O_SORT, O_GETKV};
  Machine<1>::cfg = mkcfg({"a", "b"}, 2, {{}, {0}, {1}, {0, 0}, {0, 1}, {1, 0}, {1, 1}}, 3, all);
  Machine<2>::cfg = mkcfg({"a", "ab", "b"}, 3, {{}, {0}, {1}, {2}}, 2, {O_SETNEW, O_SETNULL, O_SETSUB, O_UNSET, O_EXTRACT, O_UNSETALL, O_SETKV, O_UNSETKV, O_ELEMXADDR, O_SORTD});
  Machine<3>::cfg = mkcfg({"0", "1"}, 2, {{}, {0}}, 2, {O_SETNEW, O_SETNULL, O_UNSET, O_EXTRACT, O_UNSETALL, O_SETKVI, O_UNSETKVI, O_SETKV, O_UNSETKV, O_SORT});
  bfs<Machine<1>>("bfs-2keys-3levels", "every operation from every ordered tree over keys {a,b}, 3 levels, with and without subtrees", g_thorough ? 40 : 5, 1000000);
  if (g_thorough) bfs<Machine<2>>("bfs-3keys-2levels", "every operation from every ordered tree over keys {a,ab,b}, 2 levels", 40, 1000000);
  else bfs<Machine<2>>("bfs-3keys-2levels", "every operation from every ordered tree over keys {a,ab,b}, 2 levels, reachable in 5 operations", 5, 1000000);
  Machine<4>::cfg = mkcfg({"a", "b"}, 2, {{}, {0}}, 2, {O_SETNEW, O_SETNULL, O_UNSET, O_EXTRACT, O_UNSETALL, O_SETKV, O_UNSETKV, O_SORT});
  all_sequences<Machine<3>>("seq-int", "every sequence of length L of the integer key/value operations, without merging states", g_thorough ? 5 : 4);
  all_sequences<Machine<4>>("seq", "every sequence of length L of the basic operations, without merging states", g_thorough ? 5 : 4);

  static std::vector<Str> hk = hostile_keys();
  suite("key-pairs", hk.size(), [&](uint64_t i) {
    for (size_t j = 0; j < hk.size(); j++) {
      if (i == j) continue;
      const Str &a = hk[i], &b = hk[j]; key_pair(a, b);
      if (i == 3 && j == 40) sample("keys " + quote(a) + " and " + quote(b));
    }
  }, "every ordered pair of distinct hostile keys (all 1-byte keys, prefixes, look-alike numbers, format characters, 15..5000 byte keys differing in first/last byte)");

  static auto SK = similar_keys();
  suite("similar-keys", (SK.size() + 63) / 64, [&](uint64_t c) { for (size_t i = c * 64; i < std::min(SK.size(), (size_t)c * 64 + 64); i++) { key_pair(SK[i].first, SK[i].second); key_pair(SK[i].second, SK[i].first); } },
    "pairs of keys of 2 to 70 (140) characters that differ in one bit or digit at any position or in the order of two neighbours, and pairs with equal hash values (sums, multiplicative, CRC, FNV, Murmur, ...)");

  std::vector<size_t> LK; for (int k = 12; k <= (g_thorough ? 24 : 20); k++) for (int d = -1; d <= 1; d++) LK.push_back(((size_t)1 << k) + d);
  suite("long-keys", LK.size() * 4, [&](uint64_t c) {
    size_t n = LK[c / 4]; int how = c % 4; trace_begin(); TRACE("keys of %zu characters, variant %d", n, how);
    Str a(n, 'x'), b = a; if (how == 0) b[n - 1] = 'y'; else if (how == 1) b[n / 2] = 'y'; else if (how == 2) b += 'x'; else b[0] = 'y';
    Leaks lk; kvtree* h = kvtree_new(); kvtree *x = kvtree_new(), *y = kvtree_new();
    CHECK(kvtree_set(h, a.c_str(), x) == x, "set of a long key"); CHECK(!kvtree_get(h, b.c_str()), "a key of %zu characters is taken for another one", n);
    CHECK(kvtree_set(h, b.c_str(), y) == y && kvtree_size(h) == 2, "two long keys are not told apart");
    CHECK(kvtree_get(h, a.c_str()) == x && kvtree_get(h, b.c_str()) == y, "a long key finds another's subtree");
    kvtree_elem *e = kvtree_elem_get(h, b.c_str()); CHECK(e && b == kvtree_elem_key(e), "a long key is stored altered");
    kvtree_set_kv(h, a.c_str(), b.c_str()); kvtree_set_kv(h, a.c_str(), a.c_str()); CHECK(kvtree_size(x) == 2 && kvtree_get_kv(h, a.c_str(), b.c_str()), "long values"); kvtree_unset_kv(h, a.c_str(), b.c_str()); CHECK(kvtree_size(x) == 1 && kvtree_get_kv(h, a.c_str(), a.c_str()), "unset of a long value");
    kvtree_util_set_str(x, "v", b.c_str()); char* v = nullptr; CHECK(kvtree_util_get_str(x, "v", &v) == KVTREE_SUCCESS && b == v, "a long string is stored altered");
    kvtree_sort(h, KVTREE_SORT_ASCENDING); CHECK(Str(kvtree_elem_key(kvtree_elem_first(h))) == std::min(a, b), "long keys are sorted wrongly");
    Str pk(kvtree_pack_size(h), 0); kvtree_pack(&pk[0], h); kvtree* u = kvtree_new(); CHECK(kvtree_unpack(pk.data(), u) == (ssize_t)pk.size(), "unpack"); CHECK(same(observe(u), observe(h), true), "long keys change on the way through a buffer"); kvtree_delete(&u);
    kvtree_unset(h, b.c_str()); CHECK(!kvtree_get(h, b.c_str()) && kvtree_get(h, a.c_str()) == x && kvtree_size(h) == 1, "unset of a long key");
    kvtree* z = kvtree_extract(h, a.c_str()); CHECK(z == x && kvtree_size(h) == 0, "extract of a long key"); kvtree_delete(&z); kvtree_delete(&h); lk.check("delete"); n_eval(); outcome(c);
  }, "pairs of keys of 4095 to 2^20+1 (thorough 2^24+1) characters, differing in the first, middle or last character or in length");
  static auto BW = big_widths(1500, g_thorough ? 70000 : 17000);
  suite("big-widths", BW.size() * 2, [&](uint64_t c) {
    int n = BW[c / 2]; bool byset = c % 2 == 0 && n < 9000; trace_begin(); TRACE("a tree of %d keys", n); Leaks lk; T t; for (int i = 0; i < n; i++) t.k.push_back({sfmt("k%d", i), T()});
    kvtree* h = byset ? build(t) : build_packed(t); CHECK(kvtree_size(h) == n, "size %d with %d keys", kvtree_size(h), n);
    auto look = [&](int i) { Str k = sfmt("k%d", i); kvtree* x = kvtree_get(h, k.c_str()); kvtree_elem* e = kvtree_elem_get(h, k.c_str()); CHECK(x && e && kvtree_elem_hash(e) == x && k == kvtree_elem_key(e), "key %s of %d is not found", k.c_str(), n); return x; };
    for (int i = 0; i < n; i += n > 3000 && i > 20 && i < n - 20 ? 37 : 1) look(i); CHECK(!kvtree_get(h, sfmt("k%d", n).c_str()) && !kvtree_get(h, "k"), "an absent key is found");
    std::set<int> gone; for (int i : {0, 1, n / 2, n - 2, n - 1}) { kvtree* x = look(i); Str k = sfmt("k%d", i); kvtree* y = kvtree_new(); if (i % 2) { CHECK(kvtree_set(h, k.c_str(), y) == y && look(i) == y, "set of an existing key"); kvtree_unset(h, k.c_str()); } else { kvtree_delete(&y); y = kvtree_extract(h, k.c_str()); CHECK(y == x, "extract"); kvtree_delete(&y); } gone.insert(i); CHECK(!kvtree_get(h, k.c_str()) && kvtree_size(h) == n - (int)gone.size(), "%d keys after taking %zu of %d", kvtree_size(h), gone.size(), n); }
    std::set<Str> seen; for (kvtree_elem* e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) CHECK(seen.insert(kvtree_elem_key(e)).second, "a key appears twice"); CHECK((int)seen.size() == n - (int)gone.size(), "%zu keys visited", seen.size()); for (int i : gone) CHECK(!seen.count(sfmt("k%d", i)), "a key that was removed is visited");
    CHECK(kvtree_unset_all(h) == KVTREE_SUCCESS && kvtree_size(h) == 0 && !kvtree_elem_first(h), "not empty after kvtree_unset_all"); kvtree_delete(&h); lk.check("delete"); n_eval(); outcome(c);
  }, "trees of 2^k and 10^k keys and one more or less, 1500 to 17000 (70000), set one by one or unpacked");
  std::vector<int> W; for (int i = 0; i <= 130; i++) W.push_back(i); for (int i : {254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048}) W.push_back(i);
  if (g_thorough) for (int i : {4096, 5000, 10000}) W.push_back(i);
  suite("width", W.size() * 3, [&](uint64_t c) {
    int n = W[c / 3], mode = c % 3; trace_begin(); TRACE("width %d mode %d", n, mode);
    Leaks lk; kvtree* h = kvtree_new();
    auto key = [&](int i) { return mode == 0 ? sfmt("%d", i) : mode == 1 ? sfmt("key%08d", i) : Str(i % 97, 'k') + sfmt("%d", i); };
    for (int i = 0; i < n; i++) { kvtree_set(h, key(i).c_str(), build(parse(sfmt("v%d", i).c_str()))); }
    CHECK(kvtree_size(h) == n, "size %d after setting %d keys", kvtree_size(h), n);
    auto chk = [&](int i, bool there) { kvtree* g = kvtree_get(h, key(i).c_str()); CHECK((g != nullptr) == there, "width %d: key %d %s", n, i, there ? "lost" : "still there"); if (g) { char* v = kvtree_get_val(h, key(i).c_str()); CHECK(v && v == sfmt("v%d", i), "width %d: key %d has the wrong value", n, i); } };
    for (int i = 0; i < n; i++) chk(i, true);
    for (int i = 0; i < n; i += 3) kvtree_unset(h, key(i).c_str());
    for (int i = 0; i < n; i++) chk(i, i % 3 != 0);
    CHECK(kvtree_size(h) == n - (n + 2) / 3, "size wrong after removals");
    kvtree_unset_all(h); CHECK(kvtree_size(h) == 0 && !kvtree_elem_first(h), "unset_all left entries");
    kvtree_set(h, "x", kvtree_new()); CHECK(kvtree_size(h) == 1, "size after refilling");
    kvtree_delete(&h); lk.check("delete"); n_eval(); outcome(c);
  }, "every width 0..130 and around powers of two, three key shapes: set all, look up all, remove every third, clear");
  suite("wide-and-deep", 4, [&](uint64_t c) {
    Leaks lk; kvtree* h = kvtree_new();
    if (c < 2) {
      int n = c == 0 ? 70000 : 33000; T t; for (int i = 0; i < n; i++) t.k.push_back({sfmt("%d", i), T()});
      Str p = enc_pack(t); kvtree_unpack(p.data(), h);
      CHECK(kvtree_size(h) == n, "size %d of %d entries", kvtree_size(h), n);
      for (int i : {0, 1, 255, 256, 32767, 32768, n - 1}) CHECK(kvtree_get(h, sfmt("%d", i).c_str()), "key %d lost", i);
      kvtree_unset(h, "32768"); CHECK(kvtree_size(h) == n - 1 && !kvtree_get(h, "32768"), "unset in a wide tree");
    } else {
      int n = c == 2 ? 1000 : 3000; kvtree* p = h; for (int i = 0; i < n; i++) p = kvtree_set(p, sfmt("k%d", i).c_str(), kvtree_new());
      p = h; for (int i = 0; i < n; i++) { CHECK(kvtree_size(p) == 1, "size at depth %d", i); p = kvtree_get(p, sfmt("k%d", i).c_str()); CHECK(p, "lost at depth %d", i); }
    }
    kvtree_delete(&h); lk.check("delete"); n_eval(); outcome(c);
  }, "33000 and 70000 entries in one level; 1000 and 3000 levels");
  assumption("states are deduplicated on the ordered tree observed through the public iteration API; the sequence suites do not deduplicate");
}

// ---------------------------------------------------------------------------
CHECK_DEF(C02, "exploration", "a case is one tree (built in one insertion order) with one order and method of extracting its elements") {
  static const std::vector<Str> K = {"1", "-3", "x", "10", "0", "b"};
  static const int KI[] = {1, -3, 0, 10, 0, 0};
  auto iterate = [](kvtree* h, const T& m, const char* when) {
    // iteration visits each key once, reports what a lookup reports, then stops
    std::set<Str> seen; int n = 0;
    for (kvtree_elem* e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) {
      CHECK(++n <= (int)m.k.size(), "%s: iteration does not stop", when);
      Str k = kvtree_elem_key(e); CHECK(seen.insert(k).second, "%s: key %s visited twice", when, quote(k).c_str());
      CHECK(m.get(k), "%s: unknown key %s visited", when, quote(k).c_str());
      CHECK(kvtree_elem_hash(e) == kvtree_get(h, k.c_str()), "%s: element and lookup disagree on %s", when, quote(k).c_str());
      CHECK(kvtree_elem_get(h, k.c_str()) == e, "%s: kvtree_elem_get returned another element", when);
      CHECK(kvtree_elem_key_int(e) == atoi(k.c_str()), "%s: integer key of %s", when, quote(k).c_str());
    }
    CHECK(n == (int)m.k.size(), "%s: iteration visited %d of %zu keys", when, n, m.k.size());
  };
  int N = g_thorough ? 6 : 5;
  std::vector<std::pair<int, std::vector<int>>> cases;
  for (int n = 0; n <= N; n++) for (auto& p : permutations(n)) cases.push_back({n, p});
  suite("extract-orders", cases.size(), [&](uint64_t c) {
    int n = cases[c].first; auto& ins = cases[c].second;
    int methods = n <= 3 ? 64 : n == 4 ? 81 : 9;
    for (auto& ord : permutations(n)) for (int ms = 0; ms < methods; ms++) {
      trace_begin();
      Leaks lk; kvtree* h = kvtree_new(); T m;
      auto sub = [&](int i) { return i % 3 == 0 ? parse("v") : i % 3 == 1 ? TNull() : parse("p(q) r"); };
      for (int i : ins) { kvtree_set(h, K[i].c_str(), build(sub(i))); m.set(K[i], sub(i)); TRACE("set %s", K[i].c_str()); }
      iterate(h, m, "after building");
      int x = ms; std::vector<std::pair<kvtree_elem*, int>> out;
      for (int s = 0; s < n; s++) {
        int i = ord[s]; int meth = methods == 64 ? x % 4 : methods == 81 ? x % 3 : (ms + s * (1 + ms / 3)) % 4; x /= methods == 64 ? 4 : 3;
        kvtree_elem* want = kvtree_elem_get(h, K[i].c_str()); CHECK(want, "element %s lost before extraction", K[i].c_str());
        T wt = *m.get(K[i]); kvtree* wh = kvtree_elem_hash(want); n_trans();
        TRACE("extract %s by method %d", K[i].c_str(), meth);
        bool isint = sfmt("%d", KI[i]) == K[i];
        if (meth == 1 && !isint) meth = 0;
        if (meth == 3) { kvtree* t = kvtree_extract(h, K[i].c_str()); CHECK(t == wh, "kvtree_extract returned another tree"); T g = observe(t); CHECK(same(g, wt, true), "extracted subtree damaged"); kvtree_delete(&t); }
        else {
          kvtree_elem* e = meth == 0 ? kvtree_elem_extract(h, K[i].c_str()) : meth == 1 ? kvtree_elem_extract_int(h, KI[i]) : kvtree_elem_extract_by_addr(h, want);
          CHECK(e == want, "extraction by %s returned another element", meth == 0 ? "key" : meth == 1 ? "integer key" : "address");
          out.push_back({e, i});
        }
        m.del(K[i]); iterate(h, m, "after extraction"); verify(h, m, "after extraction", true);
        CHECK(kvtree_elem_extract(h, K[i].c_str()) == nullptr, "element still there after extraction");
        CHECK(!kvtree_elem_extract(h, "nope") && !kvtree_elem_extract_int(h, 424242) && !kvtree_extract(h, "nope"), "extraction of an absent key returned something");
        verify(h, m, "after extracting absent keys", true);
      }
      // refill while the extracted elements are still held, then check them
      kvtree_set(h, "again", kvtree_new()); T m2; m2.set("again", T()); verify(h, m2, "refill");
      kvtree_delete(&h);
      for (auto& o : out) { CHECK(K[o.second] == kvtree_elem_key(o.first), "extracted element lost its key"); T g = observe(kvtree_elem_hash(o.first)); CHECK(same(g, sub(o.second), true), "extracted element lost its subtree"); drop_elem(o.first); }
      lk.check("after releasing everything"); n_eval(); n_state(); outcome(fnv(&ord[0], n * 4, fnv(&ins[0], n * 4, ms)));
    }
    if (c == 3) sample(sfmt("%d keys inserted in one order, all extraction orders and method mixes", n));
  }, "all insertion orders x all extraction orders of up to 5 (thorough 6) elements x extraction methods (key, integer key, address, subtree)");
  suite("values", 3 * 8 * 2, [&](uint64_t c) {
    // single-value lookup and first-value lookup
    int nv = c % 3 + (c / 24) * 3; int shape = (c / 3) % 8; trace_begin(); TRACE("%d values shape %d", nv, shape);
    Leaks lk; kvtree* h = kvtree_new();
    if (shape & 1) kvtree_set(h, "other", build(parse("z")));
    T t; for (int i = 0; i < nv; i++) t.set(sfmt("v%d", i), (shape & 2) ? parse("deep(er)") : T());
    if (shape & 4) { if (nv == 0) kvtree_set(h, "k", nullptr); else kvtree_set(h, "k", build(t)); } else kvtree_set(h, "k", build(t));
    char* v = kvtree_get_val(h, "k"); char* f = kvtree_elem_get_first_val(h, "k");
    CHECK((v != nullptr) == (nv == 1), "kvtree_get_val with %d values returned %s", nv, v ? v : "nothing"); if (v) CHECK(Str(v) == "v0", "wrong value");
    CHECK((f != nullptr) == (nv > 0), "kvtree_elem_get_first_val with %d values", nv);
    if (f) CHECK(f == kvtree_elem_key(kvtree_elem_first(kvtree_get(h, "k"))), "first value is not the first element's key");
    CHECK(!kvtree_get_val(h, "absent") && !kvtree_elem_get_first_val(h, "absent"), "value of an absent key");
    kvtree_delete(&h); lk.check("delete"); n_eval(); outcome(c);
  }, "0..5 values under a key, with and without siblings, subtrees and a null subtree");
  static const int ints[] = {0, 1, -1, 7, 10, -10, 99999, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1000000000, -1000000000};
  suite("int-keys", 13 * 13, [&](uint64_t c) {
    int a = ints[c / 13], b = ints[c % 13]; if (a == b) return; trace_begin(); TRACE("int keys %d %d", a, b);
    for (int decoy = 0; decoy < 2; decoy++) {
      Leaks lk; kvtree* h = kvtree_new(); T m; Str ka = sfmt("%d", a), kb = sfmt("%d", b), kd = a >= 0 ? "0" + ka : "-0" + ka.substr(1), ke = ka + "x";
      std::vector<Str> ord = decoy ? std::vector<Str>{ka, kd, ke, kb} : std::vector<Str>{kb, ke, kd, ka};
      for (auto& k : ord) { kvtree_set(h, k.c_str(), build(parse(k.c_str()))); m.set(k, parse(k.c_str())); }
      kvtree_elem* e = kvtree_elem_extract_int(h, a); CHECK(e && ka == kvtree_elem_key(e), "extract_int(%d) took %s", a, e ? kvtree_elem_key(e) : "nothing"); CHECK(kvtree_elem_key_int(e) == a, "key_int of %d is %d", a, kvtree_elem_key_int(e)); drop_elem(e); m.del(ka); verify(h, m, "extract_int");
      e = kvtree_elem_extract_int(h, a); CHECK(!e, "extract_int(%d) took the look-alike %s", a, e ? kvtree_elem_key(e) : "");
      verify(h, m, "extract_int absent"); kvtree_delete(&h); lk.check("delete"); n_eval(); outcome(fnv(ka + kb, decoy));
    }
  }, "all pairs of boundary integer keys with look-alike decoys (leading zeros, trailing characters)");
  static auto SK2 = similar_keys();
  suite("similar-keys", (SK2.size() + 63) / 64, [&](uint64_t c) { for (size_t i = c * 64; i < std::min(SK2.size(), (size_t)c * 64 + 64); i++) for (int k = 0; k < 4; k++) {
    auto& p = SK2[i]; trace_begin(); TRACE("keys %s and %s, variant %d", quote(p.first).c_str(), quote(p.second).c_str(), k); const Str &a = k & 1 ? p.first : p.second, &b = k & 1 ? p.second : p.first; Leaks lk; kvtree* h = kvtree_new(); kvtree* x = kvtree_set(h, a.c_str(), kvtree_new());
    CHECK(!kvtree_elem_extract(h, b.c_str()) && !kvtree_extract(h, b.c_str()) && !kvtree_elem_get(h, b.c_str()), "another key is extracted"); kvtree* y = kvtree_set(h, b.c_str(), kvtree_new());
    if (k & 2) { kvtree_elem* e = kvtree_elem_extract(h, a.c_str()); CHECK(e && kvtree_elem_hash(e) == x && a == kvtree_elem_key(e), "kvtree_elem_extract takes another element"); drop_elem(e); } else { kvtree* z = kvtree_extract(h, a.c_str()); CHECK(z == x, "kvtree_extract takes another subtree"); kvtree_delete(&z); }
    CHECK(!kvtree_elem_extract(h, a.c_str()) && kvtree_size(h) == 1 && kvtree_get(h, b.c_str()) == y, "the other element is not left"); kvtree_delete(&h); lk.check("extract"); n_eval(); outcome(i * 4 + k); } }, "pairs of keys that are easily taken for each other");
  static auto BW = big_widths(1500, g_thorough ? 70000 : 17000);
  suite("wide", 40 + BW.size(), [&](uint64_t c) {
    int n = c >= 40 ? BW[c - 40] : c < 30 ? 6 + c * 7 : 300 + (c - 30) * 150; trace_begin(); TRACE("wide %d", n);
    Leaks lk; kvtree* h = kvtree_new(); T m; for (int i = 0; i < n; i++) { kvtree_set(h, sfmt("%d", i).c_str(), kvtree_new()); m.k.push_back({sfmt("%d", i), T()}); }
    iterate(h, m, "wide");
    // extract every other element by address while iterating
    int i = 0; for (kvtree_elem* e = kvtree_elem_first(h); e;) { kvtree_elem* nx = kvtree_elem_next(e); if (i++ % 2) { Str k = kvtree_elem_key(e); kvtree_elem_extract_by_addr(h, e); m.del(k); drop_elem(e); } e = nx; }
    iterate(h, m, "after removing every other element"); kvtree_delete(&h); lk.check("delete"); n_eval(); outcome(c);
  }, "widths up to 1650, and 2^k and 10^k and one more or less up to 17000 (70000), removing every other element during iteration");
}

// ---------------------------------------------------------------------------
static void scribble(kvtree* h) { // change everything reachable
  for (kvtree_elem* e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) if (kvtree_elem_hash(e)) scribble(kvtree_elem_hash(e));
  kvtree_unset_all(h); kvtree_set(h, "scribble", kvtree_new());
}
CHECK_DEF(C03, "exploration", "a case is one ordered pair of trees (destination, source) merged and then torn apart") {
  auto run = [](const T& a, const T& b) {
    trace_begin(); if (g_verbose) TRACE("merge into {%s} from {%s}", cdesc(a).c_str(), cdesc(b).c_str());
    for (int rev = 0; rev < 2; rev++) {
      Leaks lk; kvtree *d = build(a), *s;
      if (rev) { T r = b; std::reverse(r.k.begin(), r.k.end()); s = build(r); } else s = build(b);
      Str so = ordered(observe(s)); T u = tunion(a, b); Handles hd(d), hsrc(s);
      int rc = kvtree_merge(d, s); n_trans(); hd.kept(d, "kvtree_merge"); hsrc.kept(s, "kvtree_merge (source)");
      CHECK(rc == KVTREE_SUCCESS, "kvtree_merge returned %d", rc);
      // keys the source gives no content may stay without a subtree
      T got = observe(d); CHECK(same(nonull(got), nonull(u)), "merge of {%s} into {%s} gave {%s}", cdesc(b).c_str(), cdesc(a).c_str(), cdesc(got).c_str());
      verify(d, got, "merged", true);
      CHECK(ordered(observe(s)) == so, "merging changed the source: now {%s}", cdesc(observe(s)).c_str());
      if (rev) { scribble(s); CHECK(same(observe(d), got, true), "changing the source changed the destination"); kvtree_delete(&s); CHECK(same(observe(d), got, true), "deleting the source changed the destination"); rc = kvtree_merge(d, d); CHECK(rc == KVTREE_SUCCESS && same(nonull(observe(d)), nonull(u)), "merging a tree into itself changed it"); kvtree_delete(&d); }
      else { scribble(d); CHECK(ordered(observe(s)) == so, "changing the destination changed the source"); kvtree_delete(&d); CHECK(ordered(observe(s)) == so, "deleting the destination changed the source"); kvtree_delete(&s); }
      lk.check("merge"); n_eval();
    }
    outcome(canon(a, true) + canon(b, true));
  };
  static auto U = universe(g_thorough ? 5 : 4, {"a", "b"}, true, 3);
  static auto U3 = universe(g_thorough ? 4 : 3, {"a", "ab", "b"}, true, 3);
  n_state(U.size() + U3.size());
  suite("pairs-2keys", U.size(), [&](uint64_t i) { for (auto& b : U) run(U[i], b); if (i == 5) sample("destination {" + cdesc(U[i]) + "} with every source"); }, "all ordered pairs of trees with up to 4 (thorough 5) entries over keys {a,b}, including missing subtrees");
  suite("pairs-3keys", U3.size(), [&](uint64_t i) { for (auto& b : U3) run(U3[i], b); }, "all ordered pairs of trees with up to 3 (thorough 4) entries over keys {a,ab,b}");
  static std::vector<T> M = universe(5, {"a", "b"}, false, 3);
  static std::vector<T> few = {T(), parse("a"), parse("b(a)"), parse("a(a b) b(b)"), parse("c"), parse("a(b(c))")};
  suite("deep", M.size(), [&](uint64_t i) { for (auto& b : few) { run(M[i], b); run(b, M[i]); } }, "all trees with up to 5 entries against six fixed partners, both ways");
  suite("chain", g_thorough ? 20 : 12, [&](uint64_t c) {
    // successive merges accumulate; many sources
    int n = 1 + c * 9; Leaks lk; kvtree* d = kvtree_new(); T m; trace_begin(); TRACE("chain of %d merges", n);
    for (int i = 0; i < n; i++) { T s; s.put(sfmt("r%d", i % 7)).put(sfmt("v%d", i)); s.put("common").put(sfmt("%d", i)).put("x"); kvtree* k = build(s); int rc = kvtree_merge(d, k); kvtree_delete(&k); CHECK(rc == KVTREE_SUCCESS, "merge failed"); m = tunion(m, s); n_trans(); verify(d, m, "chain"); }
    T big; for (int i = 0; i < 400; i++) big.k.push_back({sfmt("w%d", i), i % 5 ? T() : parse("x y(z)")}); kvtree* k = build(big); kvtree_merge(d, k); kvtree_delete(&k); m = tunion(m, big); verify(d, m, "wide merge");
    Str L(5000, 'L'); T lg; lg.put(L).put(L + "2"); k = build(lg); kvtree_merge(d, k); kvtree_delete(&k); m = tunion(m, lg); verify(d, m, "long keys");
    kvtree_delete(&d); lk.check("chain"); n_eval(); outcome(c);
  }, "up to 172 successive merges into one tree, wide and long-key sources");
  static auto SK = similar_keys();
  suite("similar-keys", (SK.size() + 63) / 64, [&](uint64_t c) { for (size_t i = c * 64; i < std::min(SK.size(), (size_t)c * 64 + 64); i++) for (int k = 0; k < 2; k++) { T a, b; a.put(k ? SK[i].first : SK[i].second).put("x"); b.put(k ? SK[i].second : SK[i].first).put("y"); run(a, b); T c2; c2.put(SK[i].first); c2.put(SK[i].second).put("z"); run(a, c2); } }, "keys that are easily taken for each other, in the two trees");
  static auto BW = big_widths(100, g_thorough ? 33000 : 17000);
  suite("big-widths", BW.size() * 3, [&](uint64_t c) {
    int n = BW[c / 3], d0 = c % 3; trace_begin(); TRACE("merging %d entries into %s", n, d0 == 0 ? "an empty tree" : d0 == 1 ? "a small tree" : "a tree with the same keys"); Leaks lk; T s; for (int i = 0; i < n; i++) s.k.push_back({sfmt("k%d", i), i % 64 == 1 ? parse("v") : T()});
    T a = d0 == 0 ? T() : d0 == 1 ? parse("k1(w) old(x)") : s; if (d0 == 2 && n > 5000) return; kvtree *h = build_packed(a), *k = build_packed(s); CHECK(kvtree_merge(h, k) == KVTREE_SUCCESS, "kvtree_merge failed"); CHECK(kvtree_size(k) == n, "the source changed"); kvtree_delete(&k);
    if (d0 == 1) { for (auto& e : s.k) if (e.first == "k1") e.second = parse("v w"); s.k.push_back({"old", parse("x")}); } CHECK(canon(observe(h)) == canon(s), "merging %d entries loses or alters some", n); kvtree_delete(&h); lk.check("merge"); n_eval(); outcome(c); }, "sources of 2^k and 10^k entries and one more or less, 100 to 17000 (33000)");
  suite("nested-depth", 6, [&](uint64_t c) {
    int n = 10 << c; Leaks lk; T t; kvtree *a = kvtree_new(), *b = kvtree_new(), *p = a, *q = b; trace_begin(); TRACE("depth %d", n);
    for (int i = 0; i < n; i++) { kvtree_set(p, "only-a", kvtree_new()); p = kvtree_set(p, "s", kvtree_new()); kvtree_set(q, "only-b", kvtree_new()); q = kvtree_set(q, "s", kvtree_new()); }
    CHECK(kvtree_merge(a, b) == KVTREE_SUCCESS, "merge failed"); p = a; q = b;
    for (int i = 0; i < n; i++) { CHECK(kvtree_size(p) == 3 && kvtree_get(p, "only-a") && kvtree_get(p, "only-b"), "level %d of the union is wrong", i); CHECK(kvtree_size(q) == 2, "source changed"); p = kvtree_get(p, "s"); q = kvtree_get(q, "s"); CHECK(p && q && p != q, "level %d missing or shared", i); }
    kvtree_delete(&b); kvtree_delete(&a); lk.check("depth"); n_eval(); outcome(c);
  }, "chains of 10..320 levels");
}

// ---------------------------------------------------------------------------
// C04
struct Spec { const char* f; int cls; }; // 0 gp, 1 fp
static const Spec SPECS[] = {{"%s", 0}, {"%d", 0}, {"%lld", 0}, {"%lu", 0}, {"%#x", 0}, {"%#lx", 0}, {"%llu", 0}, {"%f", 1}, {"%p", 0}};
struct Arg { uint64_t g = 0; double d = 0; Str txt; };
static Str L1022(1022, 'q'), L1023(1023, 'r');
static std::vector<Arg> argvals(int sp, int level) {
  std::vector<Arg> o; auto G = [&](uint64_t g) { Arg a; a.g = g; o.push_back(a); };
  auto S = [&](const char* s) { G((uint64_t)s); };
  switch (sp) {
    case 0: S("a"); S("0"); if (level) { S(""); S("a b"); S("%d"); S("\xff"); S(L1022.c_str()); S(L1023.c_str()); S("-7"); } break;
    case 1: G((uint32_t)7); G((uint32_t)-1); if (level) for (int v : {0, INT_MAX, INT_MIN, 10, -10}) G((uint64_t)(int64_t)v); break;
    case 2: G(7); G((uint64_t)LLONG_MIN); if (level) for (long long v : {0ll, -1ll, LLONG_MAX, 4294967296ll, -4294967297ll}) G(v); break;
    case 3: G(0); G(ULONG_MAX); if (level) for (unsigned long v : {1ul, 4294967295ul, 4294967296ul, 1ul << 63}) G(v); break;
    case 4: G(0); G(0xdeadbeef); if (level) for (unsigned v : {1u, 15u, 16u, UINT_MAX, 1u << 31}) G(v); break;
    case 5: G(0); G(0xdeadbeefcafeul); if (level) for (unsigned long v : {1ul, 0xfful, ULONG_MAX, 1ul << 32}) G(v); break;
    case 6: G(1); G(ULLONG_MAX); if (level) for (unsigned long long v : {0ull, 1ull << 32, 1ull << 63}) G(v); break;
    case 7: { auto D = [&](double d) { Arg a; a.d = d; o.push_back(a); }; D(0.5); D(-3.25); if (level) for (double d : {0.0, -0.0, 1e6, 1e300, 1e-9, DBL_MAX, (double)INFINITY, 123456789.123456789}) D(d); break; }
    case 8: G(0x1000); G(0); if (level) { G(0x7ffdeadbeef0ull); G(~0ull); } break;
  }
  for (auto& a : o) {
    static char b[4096];
    switch (sp) { case 0: snprintf(b, sizeof b, "%s", (char*)a.g); break; case 1: snprintf(b, sizeof b, "%d", (int)a.g); break; case 2: snprintf(b, sizeof b, "%lld", (long long)a.g); break; case 3: snprintf(b, sizeof b, "%lu", (unsigned long)a.g); break; case 4: snprintf(b, sizeof b, "%#x", (unsigned)a.g); break; case 5: snprintf(b, sizeof b, "%#lx", (unsigned long)a.g); break; case 6: snprintf(b, sizeof b, "%llu", (unsigned long long)a.g); break; case 7: snprintf(b, sizeof b, "%f", a.d); break; case 8: snprintf(b, sizeof b, "%p", (void*)a.g); break; }
    a.txt = b;
  }
  return o;
}
static void run_fmt(const std::vector<int>& sp, const std::vector<Arg>& av, int priorsel, int valsel, int sepsel) {
  size_t n = sp.size(); static const char* seps[] = {" ", "  ", " "}; Str f = sepsel == 2 ? " " : "";
  for (size_t i = 0; i < n; i++) { if (i) f += seps[sepsel]; f += SPECS[sp[i]].f; } if (sepsel == 2) f += " ";
  uint64_t g[6] = {0, 0, 0, 0, 0, 0}; double d[6] = {0, 0, 0, 0, 0, 0}; int ng = 0, nd = 0;
  std::vector<Str> keys; for (size_t i = 0; i < n; i++) { if (SPECS[sp[i]].cls) d[nd++] = av[i].d; else g[ng++] = av[i].g; keys.push_back(av[i].txt); }
  T m;
  // prior tree: bit 0 siblings at every level, then how much of the path exists
  int have = priorsel >> 1; T* c = &m;
  for (size_t i = 0; i <= n; i++) {
    if (priorsel & 1) c->set("sibling", parse("keep(this)"));
    if (i == n || (int)i >= have) break;
    if ((int)i == have - 1 && have <= (int)n && (valsel & 4)) { c->set(keys[i], TNull()); break; }
    c->set(keys[i], T()); c = c->get(keys[i]);
    if (i == n - 1) c->set("old", parse("content"));
  }
  if (g_verbose) { Str ks; for (auto& k : keys) ks += quote(k) + " "; TRACE("format \"%s\" keys %s prior {%s} val %d", f.c_str(), ks.c_str(), cdesc(m).c_str(), valsel); }
  Leaks lk; kvtree* h = build(m); Str before = ordered(observe(h));
  // get: explicit walk
  auto walk = [&](kvtree* t) { for (auto& k : keys) t = kvtree_get(t, k.c_str()); return t; };
  kvtree* r = kvtree_getf(h, f.c_str(), g[0], g[1], g[2], g[3], g[4], g[5], d[0], d[1], d[2], d[3], d[4], d[5]);
  CHECK(r == walk(h), "kvtree_getf(\"%s\") differs from the explicit walk", f.c_str());
  CHECK(ordered(observe(h)) == before, "kvtree_getf changed the tree");
  T v; int vs = valsel & 3; if (vs == 0) v.null = true; if (vs == 2) v = parse("new(leaf) more");
  kvtree* hv = build(v); Handles hs(h);
  r = kvtree_setf(h, hv, f.c_str(), g[0], g[1], g[2], g[3], g[4], g[5], d[0], d[1], d[2], d[3], d[4], d[5]);
  CHECK(r == hv, "kvtree_setf(\"%s\") did not return the tree it was given", f.c_str());
  c = &m; for (size_t i = 0; i + 1 < n; i++) { T* x = c->get(keys[i]); if (!x || x->null) { c->set(keys[i], T()); x = c->get(keys[i]); } c = x; }
  c->set(keys[n - 1], v);
  verify(h, m, sfmt("kvtree_setf(\"%s\")", f.c_str()).c_str(), true);
  { Str gone; for (auto& k : keys) gone = Handles::step(gone, k); hs.kept(h, "kvtree_setf", gone); }
  r = kvtree_getf(h, f.c_str(), g[0], g[1], g[2], g[3], g[4], g[5], d[0], d[1], d[2], d[3], d[4], d[5]);
  CHECK(r == hv && r == walk(h), "kvtree_getf does not return what kvtree_setf stored");
  kvtree_delete(&h); lk.check("setf/getf"); n_eval(); n_trans(2);
}
CHECK_DEF(C04, "exploration", "a case is one format string with one argument list on one prior tree; distinct by format, arguments and prior tree") {
  suite("one-specifier", 9, [](uint64_t s) { for (auto& a : argvals(s, 1)) for (int p = 0; p < 4; p++) for (int v = 0; v < 8; v++) for (int sep = 0; sep < 3; sep++) { trace_begin(); if ((v & 3) == 3) continue; run_fmt({(int)s}, {a}, p, v, sep); outcome(fnv(a.txt, s * 1000 + p * 100 + v * 10 + sep)); } sample(sfmt("format \"%s\", all boundary arguments", SPECS[s].f)); }, "each specifier x boundary arguments x prior trees x new value x spacing");
  suite("two-specifiers", 81, [](uint64_t s) { int x = s / 9, y = s % 9; for (auto& a : argvals(x, 1)) for (auto& b : argvals(y, 1)) for (int p = 0; p < 6; p++) for (int v : {0, 1, 2, 5}) { trace_begin(); run_fmt({x, y}, {a, b}, p, v, (p + v) % 3); outcome(fnv(a.txt + "/" + b.txt, s * 1000 + p * 100 + v * 10)); } }, "all pairs of specifiers x all pairs of boundary arguments x prior trees");
  suite("three-specifiers", 729, [](uint64_t s) { int x = s / 81, y = s / 9 % 9, z = s % 9; for (auto& a : argvals(x, 0)) for (auto& b : argvals(y, 0)) for (auto& c : argvals(z, 0)) for (int p = 0; p < 8; p++) for (int v : {0, 2, 6}) { trace_begin(); run_fmt({x, y, z}, {a, b, c}, p, v, (p + v) % 3); outcome(fnv(a.txt + "/" + b.txt + "/" + c.txt, s * 1000 + p * 100 + v * 10)); } }, "all triples of specifiers x representative arguments x prior trees");
  suite("four-specifiers", 6561, [](uint64_t s) { std::vector<int> sp = {(int)(s / 729), (int)(s / 81 % 9), (int)(s / 9 % 9), (int)(s % 9)}; for (int p : {0, 3, 5, 7, 9}) { trace_begin(); std::vector<Arg> av; for (int i = 0; i < 4; i++) av.push_back(argvals(sp[i], 0)[(p >> 1) % 2]); run_fmt(sp, av, p, 1, 0); outcome(fnv(&s, 8, p)); } if (g_thorough) { sp.push_back(s % 7); sp.push_back(s % 9); std::vector<Arg> av; for (int i : sp) av.push_back(argvals(i, 0)[1]); run_fmt(sp, av, 6, 2, 1); } }, "all 4-tuples of specifiers (thorough: extended to 6) on prior trees of every path length");
  static const std::vector<int> ints = {0, 1, -1, 9, 10, -10, 12345, -99999, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1};
  suite("kv-paths", 6 * 4, [](uint64_t c) {
    // key/value helpers equal the explicit walk, in every prior state
    static const char* prior[] = {"", "k", "k!", "k(v)", "k(v! w) z", "k(v(x) w) z(y)", };
    T base = parse(prior[c / 4]); int mode = c % 4;
    std::vector<Str> vals; if (mode < 2) vals = {"v", "w", "new", "", "a b", "%s"}; else for (int i : ints) vals.push_back(sfmt("%d", i));
    for (auto& key : {Str("k"), Str("z"), Str("fresh")}) for (size_t vi = 0; vi < vals.size(); vi++) for (int twice = 0; twice < 2; twice++) {
      const Str& v = vals[vi]; trace_begin(); TRACE("kv mode %d prior {%s} key %s val %s", mode, cdesc(base).c_str(), key.c_str(), v.c_str());
      Leaks lk; kvtree* h = build(base); T m = base; int iv = mode >= 2 ? ints[vi] : 0;
      if (twice) { T* k = m.get(key); if (!k || k->null) m.set(key, T()); k = m.get(key); if (!k->get(v)) k->set(v, parse("sub")); kvtree_delete(&h); h = build(m); }
      Handles hs(h); Str before = ordered(observe(h)); kvtree* g = mode >= 2 ? kvtree_get_kv_int(h, key.c_str(), iv) : kvtree_get_kv(h, key.c_str(), v.c_str());
      kvtree* w = kvtree_get(kvtree_get(h, key.c_str()), v.c_str()); CHECK(g == w, "get_kv differs from the explicit walk"); CHECK(ordered(observe(h)) == before, "get_kv changed the tree");
      if (mode % 2 == 0) {
        kvtree* r = mode >= 2 ? kvtree_set_kv_int(h, key.c_str(), iv) : kvtree_set_kv(h, key.c_str(), v.c_str());
        T* k = m.get(key); if (!k || k->null) { m.set(key, T()); k = m.get(key); } T* x = k->get(v); bool had = x && !x->null; if (!had) k->set(v, T());
        CHECK(r && r == kvtree_get(kvtree_get(h, key.c_str()), v.c_str()), "set_kv did not return the value's tree"); if (had) CHECK(r == w, "set_kv replaced an existing value");
      } else {
        int rc = mode >= 2 ? kvtree_unset_kv_int(h, key.c_str(), iv) : kvtree_unset_kv(h, key.c_str(), v.c_str()); CHECK(rc == KVTREE_SUCCESS, "unset_kv returned %d", rc);
        T* k = m.get(key); if (k) { k->del(v); if (k->k.empty()) m.del(key); }
      }
      verify(h, m, "kv helper", true); hs.kept(h, "the kv helper"); kvtree_delete(&h); lk.check("kv helper"); n_eval(); n_trans(); outcome(fnv(key + "/" + v, c * 2 + twice));
    }
  }, "set/get/unset through key/value and integer-value helpers on six prior trees, 3 keys, boundary values");
  // long formats: the arguments are an array the call expands
  suite("long-formats", 41 * 9, [](uint64_t c) {
    int n = c / 9 + 1, mode = c % 9; trace_begin(); TRACE("%d specifiers, mode %d", n, mode);
    Str f; std::vector<Str> keys; long av[41]; static Str strs[41];
    for (int i = 0; i < n; i++) {
      int sp = mode < 4 ? mode : (i + mode) % 4;
      if (i) f += mode & 1 ? "  " : " ";
      if (sp == 0) { strs[i] = mode < 4 && i % 7 == 6 ? Str(300, 'k') + sfmt("%d", i) : sfmt("key%d", i); f += "%s"; av[i] = (long)strs[i].c_str(); keys.push_back(strs[i]); }
      else if (sp == 1) { int x = (i & 1 ? -1 : 1) * (i * 53687091); f += "%d"; av[i] = x; keys.push_back(sfmt("%d", x)); }
      else if (sp == 2) { f += "%lu"; av[i] = (long)(ULONG_MAX - i); keys.push_back(sfmt("%lu", ULONG_MAX - i)); }
      else { long x = (i & 1 ? -1L : 1L) * (LONG_MAX - i); f += "%lld"; av[i] = x; keys.push_back(sfmt("%ld", x)); }
    }
    for (int i = n; i < 41; i++) av[i] = 0;
#define A41 av[0], av[1], av[2], av[3], av[4], av[5], av[6], av[7], av[8], av[9], av[10], av[11], av[12], av[13], av[14], av[15], av[16], av[17], av[18], av[19], av[20], av[21], av[22], av[23], av[24], av[25], av[26], av[27], av[28], av[29], av[30], av[31], av[32], av[33], av[34], av[35], av[36], av[37], av[38], av[39], av[40]
    Leaks lk; kvtree* h = kvtree_new(); T m; kvtree* v = build(parse("leaf"));
    CHECK(!kvtree_getf(h, f.c_str(), A41), "kvtree_getf finds something in an empty tree");
    CHECK(kvtree_setf(h, v, f.c_str(), A41) == v, "kvtree_setf of %d specifiers", n);
    T* t = &m; for (auto& k : keys) { t->set(k, T()); t = t->get(k); } t->put("leaf"); verify(h, m, sfmt("kvtree_setf with %d specifiers", n).c_str());
    CHECK(kvtree_getf(h, f.c_str(), A41) == v, "kvtree_getf with %d specifiers", n);
    if (n > 1) {   // every shorter path is what the format names
      Str g; size_t p = 0; for (int i = 0; i < n - 1; i++) { p = f.find('%', p); p = f.find_first_of(" ", p); while (p < f.size() && f[p] == ' ') p++; } g = f.substr(0, p); while (!g.empty() && g.back() == ' ') g.pop_back();
      kvtree* w = kvtree_getf(h, g.c_str(), A41); CHECK(w && kvtree_get(w, keys[n - 1].c_str()) == v, "kvtree_getf with %d specifiers", n - 1);
    }
    kvtree* v2 = kvtree_new(); CHECK(kvtree_setf(h, v2, f.c_str(), A41) == v2, "second kvtree_setf"); *t = T(); verify(h, m, "second kvtree_setf");
    kvtree_delete(&h); lk.check("setf/getf"); n_eval(); n_trans(2); outcome(c + 31337);
  }, "formats of 1 to 41 specifiers, each specifier alone and mixed");
}

// ---------------------------------------------------------------------------
static bool byte_less(const Str& a, const Str& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if ((unsigned char)a[i] != (unsigned char)b[i]) return (unsigned char)a[i] < (unsigned char)b[i]; return a.size() < b.size(); }
static void check_sorted(const std::vector<Str>& keys, int dir, bool num) {
  trace_begin(); if (g_verbose) { Str s; for (auto& k : keys) s += quote(k) + " "; TRACE("sort%s dir=%d: %s", num ? "_int" : "", dir, s.c_str()); }
  Leaks lk; kvtree* h = keys.size() < 2000 ? kvtree_new() : nullptr; T m; std::map<Str, kvtree*> id;
  if (!h) { for (auto& k : keys) m.k.push_back({k, T()}); for (size_t i = 0; i < m.k.size(); i += 50) m.k[i].second.put(m.k[i].first); h = build_packed(m); }
  else for (size_t i = 0; i < keys.size(); i++) { T v; if (i % 3) v.put(sfmt("sub%zu", i)); if (i % 5 == 4) v = TNull(); kvtree* x = kvtree_set(h, keys[i].c_str(), build(v)); m.k.push_back({keys[i], v}); id[keys[i]] = x; }
  int rc = num ? kvtree_sort_int(h, dir) : kvtree_sort(h, dir); CHECK(rc == KVTREE_SUCCESS, "sort returned %d", rc);
  T got = observe(h); CHECK(got.k.size() == m.k.size(), "sorting changed the number of keys from %zu to %zu", m.k.size(), got.k.size());
  for (size_t i = 0; i + 1 < got.k.size(); i++) {
    const Str &a = got.k[i].first, &b = got.k[i + 1].first; bool bad;
    if (num) { long x = atoi(a.c_str()), y = atoi(b.c_str()); bad = dir == KVTREE_SORT_DESCENDING ? x < y : x > y; } else bad = dir == KVTREE_SORT_DESCENDING ? byte_less(a, b) : byte_less(b, a);
    CHECK(!bad, "%s order %s: %s comes before %s", num ? "numeric" : "string", dir ? "descending" : "ascending", quote(a).c_str(), quote(b).c_str());
  }
  if (keys.size() >= 200) CHECK(canon(got, true) == canon(m, true), "sorting changed the contents");
  if (keys.size() < 200) { CHECK(same(got, m, true), "sorting changed the contents"); for (auto& k : id) CHECK(kvtree_get(h, k.first.c_str()) == k.second, "sorting replaced a subtree"); }
  if (num) {
    int n = -7; int* l = (int*)0x1; rc = kvtree_list_int(h, &n, &l); CHECK(rc == KVTREE_SUCCESS && n == (int)keys.size(), "kvtree_list_int returned %d with %d of %zu keys", rc, n, keys.size());
    std::vector<int> w; for (auto& k : keys) w.push_back(atoi(k.c_str())); std::sort(w.begin(), w.end());
    if (n == 0) CHECK(l == nullptr, "list of an empty tree is not NULL");
    for (int i = 0; i < n; i++) CHECK(l[i] == w[i], "kvtree_list_int entry %d is %d, expected %d", i, l[i], w[i]);
    harness_free(l); CHECK(same(observe(h), m, true) || keys.size() >= 200, "kvtree_list_int changed the tree");
  }
  // the list must still be sound: take everything out from the back
  if (keys.size() <= 12) { for (size_t i = got.k.size(); i-- > 0;) { kvtree_elem* e = kvtree_elem_extract(h, got.k[i].first.c_str()); CHECK(e, "element lost after sorting"); drop_elem(e); CHECK(kvtree_size(h) == (int)i, "size after taking elements out of a sorted tree"); } kvtree_set(h, "z", kvtree_new()); CHECK(kvtree_size(h) == 1, "refill"); }
  kvtree_delete(&h); lk.check("sort"); n_eval(); n_trans();
}
static void arrangements(int n, int k, std::vector<int>& cur, const std::function<void(const std::vector<int>&)>& f) {
  f(cur); if ((int)cur.size() == k) return;
  for (int i = 0; i < n; i++) { if (std::find(cur.begin(), cur.end(), i) != cur.end()) continue; cur.push_back(i); arrangements(n, k, cur, f); cur.pop_back(); }
}
CHECK_DEF(C05, "exploration", "a case is one insertion order of one key set, one direction and one comparison") {
  static const std::vector<Str> S = {"", "a", "B", "ab", "10", "9", "-1", "\x80", "\xff", "a b"};
  static const std::vector<Str> I = {"0", "-2147483648", "2147483647", "-1", "1", "9", "10", "1073741824", "-1073741825", "007", "7"};
  int k = g_thorough ? 5 : 4;
  suite("strings", S.size() * 2, [&](uint64_t c) { std::vector<int> cur = {(int)(c / 2)}; arrangements(S.size(), k, cur, [&](const std::vector<int>& p) { std::vector<Str> ks; for (int i : p) ks.push_back(S[i]); check_sorted(ks, c % 2, false); n_state(); outcome(fnv(&p[0], p.size() * 4, c)); }); }, "all arrangements of up to 4 (thorough 5) of 10 hostile string keys, both directions");
  suite("ints", I.size() * 2, [&](uint64_t c) { std::vector<int> cur = {(int)(c / 2)}; arrangements(I.size(), k, cur, [&](const std::vector<int>& p) { std::vector<Str> ks; for (int i : p) ks.push_back(I[i]); check_sorted(ks, c % 2, true); n_state(); outcome(fnv(&p[0], p.size() * 4, 100 + c)); }); if (c == 2) sample("keys -2147483648 2147483647 0 ... in every order"); }, "all arrangements of up to 4 (thorough 5) of 11 integer keys over the whole int range, both directions");
  suite("full-permutations", 2 * 2 * 720, [&](uint64_t c) { static auto P = permutations(6); auto& p = P[c % 720]; int w = c / 720; std::vector<Str> ks; static const char* ik[] = {"-2147483648", "-5", "0", "3", "20", "2147483647"}; static const char* sk[] = {"", "A", "a", "aa", "b", "\xfe"}; for (int i : p) ks.push_back(w & 1 ? ik[i] : sk[i]); check_sorted(ks, w >> 1, w & 1); outcome(c + 7777); }, "all 720 orders of 6 keys");
  std::vector<int> N; for (int i = 0; i <= 70; i++) N.push_back(i); for (int i : {100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1500}) N.push_back(i); for (int i : big_widths(2000, g_thorough ? 140000 : 70000)) N.push_back(i); if (g_thorough) N.push_back(4000);
  suite("sizes", N.size() * 4 * 2 * 2, [&](uint64_t c) {
    int n = N[c / 16], pat = c / 4 % 4, dir = c / 2 % 2, num = c % 2; std::vector<Str> ks;
    for (int i = 0; i < n; i++) { int x = pat == 0 ? i : pat == 1 ? n - 1 - i : pat == 2 ? (i % 2 ? i : n + n - i) : (int)(((uint64_t)i * 7919 + 13) % (n | 1)); long v = num ? ((long)x - n / 2) * (4294967295L / (3 * (n + 1))) : x; ks.push_back(num ? sfmt("%d", (int)std::max<long>(INT_MIN, std::min<long>(INT_MAX, v))) : sfmt("key%d", x)); }
    std::sort(ks.begin(), ks.end()); std::vector<Str> u(ks); u.erase(std::unique(u.begin(), u.end()), u.end()); ks = u;
    if (pat == 1) std::reverse(ks.begin(), ks.end()); if (pat >= 2) for (size_t i = 0; i < ks.size(); i++) std::swap(ks[i], ks[(i * 7919 + pat) % ks.size()]);
    check_sorted(ks, dir, num); outcome(c + 100000);
  }, "every size 0..70 and 2^k and 10^k and one more or less up to 70000 (140000), four input orders, both directions, string and integer");
  suite("null", 1, [](uint64_t) { int n = 5; int* l = (int*)8; CHECK(kvtree_list_int(nullptr, &n, &l) == KVTREE_SUCCESS && n == 0 && !l, "list of a null tree"); CHECK(kvtree_sort(nullptr, 0) == 0 && kvtree_sort_int(nullptr, 1) == 0, "sorting a null tree"); n_eval(); }, "null tree");
}

// ---------------------------------------------------------------------------
// C06
struct Scalar { int type; uint64_t u; double d; const char* s; };
enum { TY_INT, TY_I64, TY_UL, TY_BC, TY_CRC, TY_STR, TY_PTR, TY_DBL, NTY };
static const char* tyname[] = {"int", "int64", "unsigned_long", "bytecount", "crc32", "str", "ptr", "double"};
static int sc_set(kvtree* h, const char* k, const Scalar& v) {
  switch (v.type) { case TY_INT: return kvtree_util_set_int(h, k, (int)v.u); case TY_I64: return kvtree_util_set_int64(h, k, (int64_t)v.u); case TY_UL: return kvtree_util_set_unsigned_long(h, k, v.u); case TY_BC: return kvtree_util_set_bytecount(h, k, v.u); case TY_CRC: return kvtree_util_set_crc32(h, k, (uint32_t)v.u); case TY_STR: return kvtree_util_set_str(h, k, v.s); case TY_PTR: return kvtree_util_set_ptr(h, k, (void*)v.u); default: return kvtree_util_set_double(h, k, v.d); }
}
static Str sc_str(const Scalar& v) { return v.type == TY_STR ? quote(v.s) : v.type == TY_DBL ? sfmt("%a", v.d) : v.type == TY_INT ? sfmt("%d", (int)v.u) : v.type == TY_I64 ? sfmt("%lld", (long long)v.u) : sfmt("%llu", (unsigned long long)v.u); }
static void sc_check(kvtree* h, const char* k, const Scalar& v) {
  int rc; bool ok = false; Str got;
  switch (v.type) {
    case TY_INT: { int x = 0x5a5a5a5a; rc = kvtree_util_get_int(h, k, &x); ok = x == (int)v.u; got = sfmt("%d", x); break; }
    case TY_I64: { int64_t x = 0x5a5a; rc = kvtree_util_get_int64(h, k, &x); ok = x == (int64_t)v.u; got = sfmt("%lld", (long long)x); break; }
    case TY_UL: { unsigned long x = 0x5a5a; rc = kvtree_util_get_unsigned_long(h, k, &x); ok = x == v.u; got = sfmt("%lu", x); break; }
    case TY_BC: { unsigned long x = 0x5a5a; rc = kvtree_util_get_bytecount(h, k, &x); ok = x == v.u; got = sfmt("%lu", x); break; }
    case TY_CRC: { uLong x = 0x5a5a; rc = kvtree_util_get_crc32(h, k, &x); ok = x == (uint32_t)v.u; got = sfmt("%#lx", x); break; }
    case TY_STR: { char* x = nullptr; rc = kvtree_util_get_str(h, k, &x); ok = x && !strcmp(x, v.s); got = x ? quote(x) : "NULL"; break; }
    case TY_PTR: { void* x = (void*)0x5a5a; rc = kvtree_util_get_ptr(h, k, &x); ok = x == (void*)v.u; got = sfmt("%p", x); break; }
    default: { double x = 0x5a5a; rc = kvtree_util_get_double(h, k, &x); ok = (std::isnan(v.d) && std::isnan(x)) || (x == v.d && std::signbit(x) == std::signbit(v.d)); got = sfmt("%a", x); break; }
  }
  CHECK(rc == KVTREE_SUCCESS, "kvtree_util_get_%s failed after storing %s", tyname[v.type], sc_str(v).c_str());
  CHECK(ok, "kvtree_util_get_%s returned %s after storing %s", tyname[v.type], got.c_str(), sc_str(v).c_str());
  CHECK(kvtree_size(kvtree_get(h, k)) == 1, "key holds %d values after a store", kvtree_size(kvtree_get(h, k)));
  char* txt = kvtree_get_val(h, k); CHECK(txt, "no single value after a store");
}
static std::vector<Scalar> sc_values(int ty, bool full) {
  std::vector<Scalar> o; auto U = [&](uint64_t u) { o.push_back({ty, u, 0, nullptr}); };
  static const char* strs[] = {"s", "", "0", "-12", "a b c", "%s%d%n", "x=y", "\xff\x80", "line\nbreak", "/path/to/file.1", "0x10", "nan"};
  static std::vector<Str> longs; if (longs.empty()) for (int n : {100, 1022, 1023, 1024, 1025, 2000, 70000}) longs.push_back(Str(n, 'L'));
  switch (ty) {
    case TY_INT: U(0); U(7); U((uint32_t)-1); U(INT_MAX); U((uint32_t)INT_MIN); if (full) { for (int b = 0; b < 31; b++) for (int k = -1; k <= 1; k++) { U((uint32_t)((1u << b) + k)); U((uint32_t)(-(int)(1u << b) + k)); } for (int i = -3000; i <= 3000; i++) U((uint32_t)i); } break;
    case TY_I64: U(0); U(-7ll); U(LLONG_MAX); U((uint64_t)LLONG_MIN); if (full) for (int b = 0; b < 63; b++) for (int k = -1; k <= 1; k++) { U((1ull << b) + k); U(-(int64_t)(1ull << b) + k); } break;
    case TY_UL: case TY_BC: U(0); U(1); U(ULONG_MAX); U(4294967296ull); if (full) { for (int b = 0; b < 64; b++) for (int k = -1; k <= 1; k++) U((1ull << b) + k); for (int i = 0; i < 2000; i++) U(i * 1000003ull); } break;
    case TY_CRC: U(0); U(1); U(0xffffffff); U(0x80000000); if (full) { for (int b = 0; b < 32; b++) for (int k = -1; k <= 1; k++) U((uint32_t)((1u << b) + k)); for (uint32_t i = 0; i < 4000; i++) U(i * 1048583u & 0xffffffffu); } break;
    case TY_STR: for (auto s : strs) { o.push_back({ty, 0, 0, s}); if (!full && o.size() == 4) break; } if (full) for (auto& s : longs) o.push_back({ty, 0, 0, s.c_str()}); break;
    case TY_PTR: U(0); U(0x1000); U(~0ull); if (full) for (int b = 0; b < 64; b++) U(1ull << b); break;
    case TY_DBL: { auto D = [&](double d) { o.push_back({ty, 0, d, nullptr}); }; D(0); D(1.5); D(-2.25); D(1e15);
      if (full) { for (int e = -1074; e <= 1023; e++) { D(std::ldexp(1.0, e)); D(-std::ldexp(1.0, e)); if (e > -1000) { D(std::ldexp(4503599627370497.0, e - 52)); D(std::ldexp(9007199254740991.0, e - 53)); } } for (double d : {-0.0, 0.1, 0.2, 0.3, 1.0 / 3, 2.0 / 3, 1e-10, 1e-300, 1e300, 3.14159265358979, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_EPSILON, 123456.789, 1e22, 1e23, (double)INFINITY, (double)-INFINITY, (double)NAN}) D(d); for (int i = -2000; i <= 2000; i++) { D(i / 7.0); D(i * 0.01); } }
      break; }
  }
  return o;
}
CHECK_DEF(C06, "exploration", "a case is one sequence of typed stores on one prior state, read back by the matching getters") {
  static const std::vector<T> prior = {parse(""), parse("k!"), parse("k"), parse("k(old)"), parse("k(old older)"), parse("k(old(deep(er)) x) k2(y)"), parse("other(1) k(0) z(2)")};
  suite("values", NTY * prior.size(), [&](uint64_t c) {
    int ty = c % NTY; const T& p = prior[c / NTY];
    for (auto& v : sc_values(ty, true)) {
      trace_begin(); TRACE("store %s %s over {%s}", tyname[ty], sc_str(v).c_str(), cdesc(p).c_str());
      Leaks lk; kvtree* h = build(p); int rc = sc_set(h, "k", v); CHECK(rc == KVTREE_SUCCESS, "set_%s returned %d", tyname[ty], rc);
      sc_check(h, "k", v); sc_check(h, "k", v);
      T got = observe(h); got.del("k"); T w = p; w.del("k"); CHECK(same(got, w, true), "storing a value changed other keys");
      kvtree_delete(&h); lk.check("typed store"); n_eval(); n_trans(); outcome(fnv(sc_str(v), c));
    }
    if (c < NTY) sample(sfmt("set/get %s over all boundary values", tyname[ty]));
  }, "every type x boundary values (powers of two +-1, ranges, hostile and long strings, every binary exponent of double) x 7 prior states");
  // sequences of stores over two keys
  static std::vector<Scalar> few; for (int t = 0; t < NTY; t++) { auto v = sc_values(t, false); few.insert(few.end(), v.begin(), v.end()); }
  suite("sequences", few.size(), [&](uint64_t c) {
    for (auto& b : few) for (int k2 = 0; k2 < 2; k2++) for (size_t ci = 0; ci < few.size(); ci += g_thorough ? 1 : 3) for (int k3 = 0; k3 < 2; k3++) {
      const Scalar &a = few[c], &d = few[ci]; trace_begin(); TRACE("k=%s %s; k%d=%s %s; k%d=%s %s", tyname[a.type], sc_str(a).c_str(), k2, tyname[b.type], sc_str(b).c_str(), k3, tyname[d.type], sc_str(d).c_str());
      Leaks lk; kvtree* h = kvtree_new(); const char* K[] = {"k", "kk"}; const Scalar* last[2] = {nullptr, nullptr};
      sc_set(h, K[0], a); last[0] = &a; sc_set(h, K[k2], b); last[k2] = &b; sc_set(h, K[k3], d); last[k3] = &d;
      for (int i = 0; i < 2; i++) if (last[i]) sc_check(h, K[i], *last[i]); else CHECK(!kvtree_get(h, K[i]), "untouched key exists");
      CHECK(kvtree_size(h) == (last[0] != nullptr) + (last[1] != nullptr), "number of keys");
      kvtree_delete(&h); lk.check("sequence"); n_eval(); n_trans(3); 
    }
    outcome(c + 1000000);
  }, "all sequences of three stores of representative values of all types over two keys");
  suite("absent", 1, [](uint64_t) {
    static const char* pr[] = {"", "k", "k!", "other(1)"};
    for (int p = -1; p < 4; p++) for (const char* key : {"k", "nope"}) {
      trace_begin(); TRACE("getters on prior %d key %s", p, key);
      Leaks lk; kvtree* h = p < 0 ? nullptr : build(parse(pr[p]));
      int i = 11; int64_t l = 12; unsigned long u = 13, b = 14; uLong c = 15; char* s = (char*)16; void* q = (void*)17; double d = 18.5; Str before = ordered(observe(h));
      CHECK(kvtree_util_get_int(h, key, &i) != KVTREE_SUCCESS && i == 11, "get_int on an absent value");
      CHECK(kvtree_util_get_int64(h, key, &l) != KVTREE_SUCCESS && l == 12, "get_int64 on an absent value");
      CHECK(kvtree_util_get_unsigned_long(h, key, &u) != KVTREE_SUCCESS && u == 13, "get_unsigned_long on an absent value");
      CHECK(kvtree_util_get_bytecount(h, key, &b) != KVTREE_SUCCESS && b == 14, "get_bytecount on an absent value");
      CHECK(kvtree_util_get_crc32(h, key, &c) != KVTREE_SUCCESS && c == 15, "get_crc32 on an absent value");
      CHECK(kvtree_util_get_str(h, key, &s) != KVTREE_SUCCESS && s == (char*)16, "get_str on an absent value");
      CHECK(kvtree_util_get_ptr(h, key, &q) != KVTREE_SUCCESS && q == (void*)17, "get_ptr on an absent value");
      CHECK(kvtree_util_get_double(h, key, &d) != KVTREE_SUCCESS && d == 18.5, "get_double on an absent value");
      CHECK(ordered(observe(h)) == before, "a getter changed the tree"); kvtree_delete(&h); lk.check("getters"); n_eval(8); outcome(fnv(Str(key), p));
    }
  }, "every getter on null tree, missing key, key without subtree, key with empty subtree");
}
