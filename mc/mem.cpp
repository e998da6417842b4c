// C07 (memory), C08 (copying and aliasing), C09 (null trees), C29 (running out of memory).
#include "bfs.h"
#include "fakempi.h"
#include "model.h"
extern "C" {
#include "kvtree_mpi.h"
}
#include <algorithm>
#include <cfloat>
#include <climits>
#include <unistd.h>
#include <sys/stat.h>

static void drop_elem(kvtree_elem* e) { kvtree* h = kvtree_elem_hash(e); char* k = kvtree_elem_key(e); kvtree_delete(&h); harness_free(k); harness_free(e); }

// blocks a live tree is made of, measured from the library itself
static int64_t g_cost_new, g_cost_elem;
static void calibrate() {
  int64_t b = heap.live; kvtree* h = kvtree_new(); g_cost_new = heap.live - b;
  kvtree_set(h, "a", nullptr); g_cost_elem = heap.live - b - g_cost_new; kvtree_delete(&h);
  CHECK(heap.live == b, "creating, setting one key and deleting a tree leaves %lld blocks", (long long)(heap.live - b));
}
static int64_t cost(const T& t) { if (t.null) return 0; int64_t n = g_cost_new; for (auto& e : t.k) n += g_cost_elem + cost(e.second); return n; }

// ---------------------------------------------------------------------------
enum { P_SETNEW, P_SETNULL, P_SETH1, P_UNSET, P_EXTDROP, P_EXTH1, P_UNSETALL, P_SETKV, P_UNSETKV, P_SETKVI, P_UNSETKVI, P_ELEMX, P_ELEMXI, P_ELEMXA, P_MERGE, P_MERGEBACK, P_MERGESELF, P_STR, P_INT, P_SETF, P_SETFH1, P_SORT, P_SORTI, P_LIST, P_PACK, P_PERSIST, P_SENDQ, P_NEWH1, P_DELH1, P_DELH0, P_GETF, P_GETVAL, P_WRITE, P_READ, P_N };
static const char* pname[] = {"kvtree_set(new)", "kvtree_set(NULL)", "kvtree_set(second tree)", "kvtree_unset", "kvtree_extract, delete", "kvtree_extract into second", "kvtree_unset_all", "kvtree_set_kv", "kvtree_unset_kv", "kvtree_set_kv_int", "kvtree_unset_kv_int", "kvtree_elem_extract", "kvtree_elem_extract_int", "kvtree_elem_extract_by_addr", "kvtree_merge(tree, second)", "kvtree_merge(second, tree)", "kvtree_merge(tree, tree)", "kvtree_util_set_str", "kvtree_util_set_int", "kvtree_setf(new)", "kvtree_setf(second tree)", "kvtree_sort", "kvtree_sort_int", "kvtree_list_int", "kvtree_pack+unpack into second", "kvtree_write_persist", "kvtree_exchange_sendq", "kvtree_new second", "kvtree_delete second", "kvtree_delete first", "kvtree_getf", "kvtree_get_val", "kvtree_write_file", "kvtree_read_file"};
struct POp { int k, path, key, val; };
static const Str PK[] = {"1", "2"};
struct Owner {
  static std::vector<POp> ops; static size_t maxnodes, maxh1;
  int64_t base; kvtree *h0, *h1 = nullptr;
  Owner() { vfs.reset(1); calibrate(); base = heap.live; h0 = kvtree_new(); }
  static void init() {
    ops.clear();
    for (int p = 0; p < 3; p++) for (int k = 0; k < P_N; k++) switch (k) {
      case P_NEWH1: case P_DELH1: case P_DELH0: case P_MERGESELF: case P_WRITE: case P_READ: if (p == 0) ops.push_back({k, p, 0, 0}); break;
      case P_SORT: case P_SORTI: case P_LIST: case P_PACK: case P_PERSIST: case P_UNSETALL: case P_MERGE: case P_MERGEBACK: if (p < 2) ops.push_back({k, p, 0, 0}); break;
      case P_SETKV: case P_UNSETKV: case P_SETKVI: case P_UNSETKVI: case P_STR: case P_SETF: if (p < 2) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) ops.push_back({k, p, a, b}); break;
      case P_SETFH1: if (p == 0) ops.push_back({k, p, 0, 1}); break;
      case P_GETF: if (p == 0) ops.push_back({k, p, 0, 1}); break;
      default: for (int a = 0; a < 2; a++) ops.push_back({k, p, a, 0});
    }
  }
  static int nops() { return ops.size(); }
  static Str opname(int o) { const POp& d = ops[o]; return sfmt("%s [path %s, key %s, value %s]", pname[d.k], d.path == 0 ? "/" : d.path == 1 ? "/1" : "/1/2", PK[d.key].c_str(), PK[d.val].c_str()); }
  Str key() { T a = observe(h0), b = observe(h1); return ordered(a) + "|" + ordered(b) + (vfs.exists(VROOT "/f") ? "F" : ""); }
  bool apply(int o, bool) {
    const POp& d = ops[o]; kvtree* t = h0; const char *K = PK[d.key].c_str(), *V = PK[d.val].c_str();
    if (d.path >= 1) t = kvtree_get(t, "1"); if (d.path == 2) t = kvtree_get(t, "2");
    if (!t) return false;
    switch (d.k) {
      case P_SETNEW: kvtree_set(t, K, kvtree_new()); break;
      case P_SETNULL: kvtree_set(t, K, nullptr); break;
      case P_SETH1: if (!h1) return false; kvtree_set(t, K, h1); h1 = nullptr; break;
      case P_UNSET: kvtree_unset(t, K); break;
      case P_EXTDROP: { kvtree* x = kvtree_extract(t, K); kvtree_delete(&x); CHECK(!x, "kvtree_delete left the handle set"); break; }
      case P_EXTH1: if (h1) return false; h1 = kvtree_extract(t, K); break;
      case P_UNSETALL: kvtree_unset_all(t); break;
      case P_SETKV: kvtree_set_kv(t, K, V); break;
      case P_UNSETKV: kvtree_unset_kv(t, K, V); break;
      case P_SETKVI: kvtree_set_kv_int(t, K, d.val + 1); break;
      case P_UNSETKVI: kvtree_unset_kv_int(t, K, d.val + 1); break;
      case P_ELEMX: case P_ELEMXI: { kvtree_elem* e = d.k == P_ELEMX ? kvtree_elem_extract(t, K) : kvtree_elem_extract_int(t, d.key + 1); if (e) drop_elem(e); break; }
      case P_ELEMXA: { kvtree_elem* e = kvtree_elem_get(t, K); if (!e) return false; e = kvtree_elem_extract_by_addr(t, e); drop_elem(e); break; }
      case P_MERGE: kvtree_merge(t, h1); break;
      case P_MERGEBACK: if (!h1) return false; kvtree_merge(h1, t); break;
      case P_MERGESELF: kvtree_merge(h0, h0); break;
      case P_STR: kvtree_util_set_str(t, K, V); break;
      case P_INT: kvtree_util_set_int(t, K, 1); break;
      case P_SETF: kvtree_setf(t, kvtree_new(), "%s %s", K, V); break;
      case P_SETFH1: if (!h1) return false; kvtree_setf(t, h1, "%s %d", K, 2); h1 = nullptr; break;
      case P_GETF: kvtree_getf(t, "%s %d", K, 2); break;
      case P_GETVAL: kvtree_get_val(t, K); break;
      case P_SORT: kvtree_sort(t, KVTREE_SORT_DESCENDING); break;
      case P_SORTI: kvtree_sort_int(t, KVTREE_SORT_ASCENDING); break;
      case P_LIST: { int n; int* l; kvtree_list_int(t, &n, &l); if (n) harness_free(l); break; }
      case P_PACK: { if (!h1) return false; size_t n = kvtree_pack_size(t); Str b(n, 0); kvtree_pack(&b[0], t); kvtree_unset_all(h1); kvtree_unpack(b.data(), h1); break; }
      case P_PERSIST: { void* b; size_t n; kvtree_write_persist(&b, &n, t); harness_free(b); break; }
      case P_SENDQ: kvtree_exchange_sendq(t, d.key + 1, h1); break;
      case P_NEWH1: if (h1) return false; h1 = kvtree_new(); break;
      case P_DELH1: if (!h1) return false; kvtree_delete(&h1); CHECK(!h1, "kvtree_delete left the handle set"); break;
      case P_DELH0: kvtree_delete(&h0); CHECK(!h0, "kvtree_delete left the handle set"); h0 = kvtree_new(); break;
      case P_WRITE: kvtree_write_file("f", h0); vfs.put("f", enc_image(enc_pack(parse("1(2) 2(1(2))")))); break;
      case P_READ: if (!vfs.exists(VROOT "/f")) return false; kvtree_read_file("f", h0); break;
    }
    T a = observe(h0), b = observe(h1);
    int64_t want = cost(a) + cost(b), got = heap.live - base;
    if (got != want) fail("after %s the trees {%s} and {%s} account for %lld blocks but %lld are allocated: %s", opname(o).c_str(), cdesc(a).c_str(), cdesc(b).c_str(), (long long)want, (long long)got, got > want ? "memory was not released" : "memory was released that is still part of a tree");
    if (a.nodes() > maxnodes || a.depth() > 3 || b.nodes() > maxh1 || b.depth() > 2) return false;
    return true;
  }
  void finish(bool) {
    if (!h0) return;
    kvtree_delete(&h0); kvtree_delete(&h1); CHECK(!h0 && !h1, "kvtree_delete left a handle set");
    CHECK(heap.live == base, "after deleting every tree %lld blocks are left", (long long)(heap.live - base));
  }
  ~Owner() { finish(false); }
};
std::vector<POp> Owner::ops; size_t Owner::maxnodes, Owner::maxh1;

// ---------------------------------------------------------------------------
// Scenarios: one library call (or a collective of calls) from a prepared state
struct Ctx { int n = 1; T in; std::vector<kvtree*> a, b; std::vector<int> ok; std::vector<Str> extra; int fd = -1; int env = 0; };
struct Scn {
  const char* name; int ranks;                       // 0: no message passing
  std::function<void(Ctx&)> setup;
  std::function<void(Ctx&, int)> body;               // sets ok[r]: 1 success, 0 failure reported
  bool files = false;                                // the content of all files is part of the result
};
static Str allfiles_canon() { Str s; for (auto& e : vfs.names) if (!e.second->dir) { T t; int r = dec_image(e.second->data, t); s += e.first + sfmt("=%d", r) + canon(t) + ";"; } return s; }
static Str allfiles() { Str s; for (auto& e : vfs.names) if (!e.second->dir) s += e.first + "=" + sfmt("%zu:", e.second->data.size()) + e.second->data + ";"; return s; }
static const T& rank_tree(int r, const T& in) { static T x[8]; T t = in; t.put("me").put(sfmt("%d", r)); x[r & 7] = t; return x[r & 7]; }
static void put_set(int ranks, const T& in, int levels) {           // a serial file set under prefix "g"
  auto kv = [](T& t, const char* k, int v) { t.put(k).put(sfmt("%d", v)); };
  std::vector<Str> names; 
  for (int r = 0; r < ranks; r++) { T p; kv(p, "LEVEL", 0); kv(p, "RANKS", ranks); p.put("RANK").set(sfmt("%d", r), rank_tree(r, in)); Str nm = sfmt(".0.%d", r); vfs.put("g" + nm, enc_image(enc_pack(p))); names.push_back(nm); }
  for (int l = 1; l <= levels; l++) {
    std::vector<Str> up;
    size_t per = l == levels ? names.size() : 2;
    for (size_t i = 0; i < names.size(); i += per) {
      T m; kv(m, "LEVEL", l); kv(m, "RANKS", ranks);
      for (size_t j = i; j < i + per && j < names.size(); j++) { T& e = m.put("RANK").put(sfmt("%zu", j << (l - 1))); e.put("FILE").put(names[j]); e.put("OFFSET").put("0"); }
      Str nm = l == levels ? "" : sfmt(".%d.%zu", l, i); vfs.put("g" + nm, enc_image(enc_pack(m))); up.push_back(nm);
    }
    names = up;
  }
}
static T gather_in(int n, const T& in) { T t; for (int r = 0; r < n; r++) t.k.push_back({sfmt("%d", r), rank_tree(r, in)}); return t; }
#define RC(x) (c.ok[r] = ((x) == KVTREE_SUCCESS))
static std::vector<Scn> scenarios() {
  std::vector<Scn> v; auto none = [](Ctx&) {};
  auto mem = [&](const char* nm, std::function<void(Ctx&, int)> b) { v.push_back({nm, 0, none, b, false}); };
  mem("kvtree_new", [](Ctx& c, int r) { kvtree* h = kvtree_new(); c.ok[r] = h != nullptr; if (h) c.extra[r] = canon(observe(h)); kvtree_delete(&h); });
  mem("kvtree_set absent key", [](Ctx& c, int r) { kvtree* x = c.b[r]; if (kvtree_set(c.a[r], "fresh", x)) c.b[r] = nullptr; else c.ok[r] = 0; });
  mem("kvtree_set present key", [](Ctx& c, int r) { kvtree* x = c.b[r]; if (kvtree_set(c.a[r], "a", x)) c.b[r] = nullptr; else c.ok[r] = 0; });
  mem("kvtree_set without subtree", [](Ctx& c, int r) { kvtree_set(c.a[r], "fresh", nullptr); });
  mem("kvtree_unset", [](Ctx& c, int r) { RC(kvtree_unset(c.a[r], "a")); });
  mem("kvtree_extract", [](Ctx& c, int r) { kvtree* x = kvtree_extract(c.a[r], "a"); c.extra[r] = canon(observe(x), true); kvtree_delete(&x); });
  mem("kvtree_elem_extract", [](Ctx& c, int r) { kvtree_elem* x = kvtree_elem_extract(c.a[r], "a"); if (x) { c.extra[r] = canon(observe(kvtree_elem_hash(x)), true); drop_elem(x); } });
  mem("kvtree_unset_all", [](Ctx& c, int r) { RC(kvtree_unset_all(c.a[r])); });
  mem("kvtree_merge", [](Ctx& c, int r) { RC(kvtree_merge(c.b[r], c.a[r])); });
  mem("kvtree_merge onto", [](Ctx& c, int r) { RC(kvtree_merge(c.a[r], c.b[r])); });
  mem("kvtree_set_kv", [](Ctx& c, int r) { if (!kvtree_set_kv(c.a[r], "k", "v")) c.ok[r] = 0; });
  mem("kvtree_set_kv present", [](Ctx& c, int r) { if (!kvtree_set_kv(c.a[r], "a", "v")) c.ok[r] = 0; });
  mem("kvtree_set_kv_int", [](Ctx& c, int r) { if (!kvtree_set_kv_int(c.a[r], "k", -7)) c.ok[r] = 0; });
  mem("kvtree_unset_kv", [](Ctx& c, int r) { RC(kvtree_unset_kv(c.a[r], "a", "b")); });
  mem("kvtree_unset_kv_int", [](Ctx& c, int r) { RC(kvtree_unset_kv_int(c.a[r], "a", 1)); });
  mem("kvtree_setf", [](Ctx& c, int r) { kvtree* x = c.b[r]; if (kvtree_setf(c.a[r], x, "%s %d %s", "a", 3, "z")) c.b[r] = nullptr; else c.ok[r] = 0; });
  mem("kvtree_setf long", [](Ctx& c, int r) { kvtree* x = c.b[r]; Str s(900, 'q'); if (kvtree_setf(c.a[r], x, "%s %lld %lu %f", s.c_str(), 3ll, 4ul, 1.5)) c.b[r] = nullptr; else c.ok[r] = 0; });
  mem("kvtree_getf", [](Ctx& c, int r) { kvtree* x = kvtree_getf(c.a[r], "%s %s", "a", "b"); c.ok[r] = x != nullptr || !kvtree_get_kv(c.a[r], "a", "b"); if (x) c.extra[r] = canon(observe(x), true); });
  mem("kvtree_sort", [](Ctx& c, int r) { RC(kvtree_sort(c.a[r], KVTREE_SORT_DESCENDING)); if (c.ok[r]) c.extra[r] = ordered(observe(c.a[r])); });
  mem("kvtree_sort_int", [](Ctx& c, int r) { RC(kvtree_sort_int(c.b[r], KVTREE_SORT_ASCENDING)); if (c.ok[r]) c.extra[r] = ordered(observe(c.b[r])); });
  mem("kvtree_list_int", [](Ctx& c, int r) { int n = -1; int* l = nullptr; RC(kvtree_list_int(c.b[r], &n, &l)); if (c.ok[r]) { for (int i = 0; i < n; i++) c.extra[r] += sfmt("%d,", l[i]); } if (l && n > 0) harness_free(l); });
  mem("kvtree_pack", [](Ctx& c, int r) { Str b(kvtree_pack_size(c.a[r]), 0); kvtree_pack(&b[0], c.a[r]); c.extra[r] = b; });
  mem("kvtree_unpack", [](Ctx& c, int r) { Str p = enc_pack(c.in); kvtree* h = c.b[r]; kvtree_unset_all(h); size_t n = kvtree_unpack(p.data(), h); c.extra[r] = sfmt("%zu", n); });
  mem("kvtree_write_persist", [](Ctx& c, int r) { void* b = nullptr; size_t n = 0; RC(kvtree_write_persist(&b, &n, c.a[r])); if (c.ok[r]) { c.extra[r] = Str((char*)b, n); } if (b) harness_free(b); });
  mem("kvtree_util_set_str", [](Ctx& c, int r) { RC(kvtree_util_set_str(c.a[r], "a", "value")); });
  mem("kvtree_util_set_str NULL", [](Ctx& c, int r) { RC(kvtree_util_set_str(c.a[r], "a", nullptr)); });
  mem("kvtree_util_set_str fresh", [](Ctx& c, int r) { RC(kvtree_util_set_str(c.a[r], "fresh", "value")); });
  mem("kvtree_util_set_int", [](Ctx& c, int r) { RC(kvtree_util_set_int(c.a[r], "a", -1)); });
  mem("kvtree_util_set_int64", [](Ctx& c, int r) { RC(kvtree_util_set_int64(c.a[r], "a", INT64_MIN)); });
  mem("kvtree_util_set_unsigned_long", [](Ctx& c, int r) { RC(kvtree_util_set_unsigned_long(c.a[r], "fresh", ~0ul)); });
  mem("kvtree_util_set_bytecount", [](Ctx& c, int r) { RC(kvtree_util_set_bytecount(c.a[r], "a", 77)); });
  mem("kvtree_util_set_crc32", [](Ctx& c, int r) { RC(kvtree_util_set_crc32(c.a[r], "a", 0xdeadbeef)); });
  mem("kvtree_util_set_double", [](Ctx& c, int r) { RC(kvtree_util_set_double(c.a[r], "a", 0.1)); });
  mem("kvtree_util_set_double big", [](Ctx& c, int r) { RC(kvtree_util_set_double(c.a[r], "fresh", DBL_MAX)); });
  mem("kvtree_util_set_ptr", [](Ctx& c, int r) { RC(kvtree_util_set_ptr(c.a[r], "a", &g_cost_new)); });
  mem("kvtree_util_get_*", [](Ctx& c, int r) { int i = 1; int64_t l = 2; unsigned long u = 3; double d = 4; char* s = nullptr; void* p = nullptr; const kvtree* h = c.b[r]; int q[] = {kvtree_util_get_int(h, "n", &i), kvtree_util_get_int64(h, "n", &l), kvtree_util_get_unsigned_long(h, "n", &u), kvtree_util_get_double(h, "n", &d), kvtree_util_get_str(h, "n", &s), kvtree_util_get_ptr(h, "zz", &p), kvtree_util_get_double(h, "bad", &d)}; for (int x : q) c.extra[r] += sfmt("%d,", x); c.extra[r] += sfmt("%d %lld %lu %g %s", i, (long long)l, u, d, s ? s : "-"); });
  mem("kvtree_exchange_sendq new", [](Ctx& c, int r) { RC(kvtree_exchange_sendq(c.a[r], 7, c.b[r])); });
  mem("kvtree_exchange_sendq again", [](Ctx& c, int r) { RC(kvtree_exchange_sendq(c.b[r], 12, c.a[r])); });
  mem("kvtree_print", [](Ctx& c, int r) { RC(kvtree_print(c.a[r], 0)); fflush(stdout); });
  mem("kvtree_print_mode", [](Ctx& c, int r) { RC(kvtree_print_mode(c.a[r], 3, KVTREE_PRINT_KEYVAL)); fflush(stdout); });
  mem("kvtree_log", [](Ctx& c, int r) { RC(kvtree_log(c.a[r], 1, 1)); fflush(stdout); });
  // files
  auto file = [&](const char* nm, std::function<void(Ctx&)> s, std::function<void(Ctx&, int)> b) { v.push_back({nm, 0, s, b, true}); };
  auto have = [](Ctx& c) { vfs.put("f", enc_image(enc_pack(c.in))); };
  auto bad = [](Ctx& c) { Str s = enc_image(enc_pack(c.in)); s[s.size() - 1] ^= 1; vfs.put("f", s); };
  auto small = [](Ctx& c) { vfs.put("f", "abc"); };
  auto nocrc = [](Ctx& c) { vfs.put("f", enc_image(enc_pack(c.in), false)); };
  auto incons = [](Ctx& c) { Str p = enc_pack(c.in); p[3]++; vfs.put("f", enc_image(p)); };
  auto empty = [](Ctx&) { vfs.put("f", ""); };
  auto dir = [](Ctx&) { auto i = vfs.put("f", "", 0755); i->dir = true; };
  auto readonly = [](Ctx& c) { vfs.put("f", enc_image(enc_pack(c.in)), 0444); };
  auto hsize = [](Ctx& c) { vfs.put("f", enc_image_raw(0x951fc3f5u, 1, 1, 1ull << 40, 1, enc_pack(c.in), true)); };
  struct { const char* n; std::function<void(Ctx&)> s; } fs[] = {{"of a good file", have}, {"of a damaged file", bad}, {"of a short file", small}, {"without checksum", nocrc}, {"of inconsistent content", incons}, {"of an empty file", empty}, {"of a missing file", none}, {"of a directory", dir}, {"of a read-only file", readonly}, {"with a huge recorded size", hsize}};
  static std::vector<Str> names; names.reserve(400);
  auto nm = [&](const Str& s) { names.push_back(s); return names.back().c_str(); };
  for (auto& f : fs) {
    file(nm(Str("kvtree_read_file ") + f.n), f.s, [](Ctx& c, int r) { RC(kvtree_read_file("f", c.a[r])); });
    file(nm(Str("kvtree_read_with_lock ") + f.n), f.s, [](Ctx& c, int r) { RC(kvtree_read_with_lock("f", c.a[r])); });
    file(nm(Str("kvtree_lock_open_read ") + f.n), f.s, [](Ctx& c, int r) { RC(kvtree_lock_open_read("f", &c.fd, c.a[r])); });
    file(nm(Str("kvtree_write_file ") + f.n), f.s, [](Ctx& c, int r) { RC(kvtree_write_file("f", c.a[r])); });
    file(nm(Str("kvtree_write_with_lock ") + f.n), f.s, [](Ctx& c, int r) { RC(kvtree_write_with_lock("f", c.a[r])); });
  }
  file("kvtree_write_close_unlock", [have](Ctx& c) { have(c); kvtree* x = kvtree_new(); if (kvtree_lock_open_read("f", &c.fd, x) != KVTREE_SUCCESS) fail("kvtree_lock_open_read failed"); kvtree_delete(&x); }, [](Ctx& c, int r) { RC(kvtree_write_close_unlock("f", &c.fd, c.a[r])); });
  file("kvtree_write_fd", [](Ctx& c) { c.fd = vfs.add_foreign(0, "h", O_RDWR); }, [](Ctx& c, int r) { c.ok[r] = kvtree_write_fd("h", c.fd, c.a[r]) >= 0; c.fd = -1; });
  file("kvtree_read_fd", [](Ctx& c) { vfs.put("h", enc_image(enc_pack(c.in))); c.fd = vfs.add_foreign(0, "h", O_RDWR); }, [](Ctx& c, int r) { c.ok[r] = kvtree_read_fd("h", c.fd, c.a[r]) >= 0; c.fd = -1; });
  for (int per : {0, 1, 2}) file(nm(sfmt("kvtree_write_to_gather %d per file", per)), [per](Ctx& c) { c.env = per; kvtree_delete(&c.a[0]); c.a[0] = build(gather_in(3, c.in)); }, [](Ctx& c, int r) { RC(kvtree_write_to_gather("g", c.a[r], 3)); });
  for (int lv = 1; lv <= 3; lv++) file(nm(sfmt("kvtree_read_scatter_single %d levels", lv)), [lv](Ctx& c) { put_set(3, c.in, lv); }, [](Ctx& c, int r) { RC(kvtree_read_scatter_single("g", c.a[r])); });
  for (const char* miss : {"g", "g.0.1", "g.1.0", "g.0.2"}) file(nm(Str("kvtree_read_scatter_single without ") + miss), [miss](Ctx& c) { put_set(3, c.in, 2); vfs.names.erase(Str(VROOT "/") + miss); }, [](Ctx& c, int r) { RC(kvtree_read_scatter_single("g", c.a[r])); });
  for (const char* emp : {"g", "g.0.1", "g.1.0"}) file(nm(Str("kvtree_read_scatter_single with empty ") + emp), [emp](Ctx& c) { put_set(3, c.in, 2); vfs.put(emp, ""); }, [](Ctx& c, int r) { RC(kvtree_read_scatter_single("g", c.a[r])); });
  // message passing
  auto mpi = [&](const char* nm, int n, std::function<void(Ctx&)> s, std::function<void(Ctx&, int)> b, bool files = false) { v.push_back({nm, n, s, b, files}); };
  mpi("kvtree_send/kvtree_recv", 2, none, [](Ctx& c, int r) { if (r == 0) RC(kvtree_send(c.a[r], 1, MPI_COMM_WORLD)); else RC(kvtree_recv(c.b[r], 0, MPI_COMM_WORLD)); });
  mpi("kvtree_sendrecv", 2, none, [](Ctx& c, int r) { RC(kvtree_sendrecv(c.a[r], 1 - r, c.b[r], 1 - r, MPI_COMM_WORLD)); });
  mpi("kvtree_sendrecv one way", 2, none, [](Ctx& c, int r) { RC(kvtree_sendrecv(c.a[r], r ? MPI_PROC_NULL : 1, c.b[r], r ? 0 : MPI_PROC_NULL, MPI_COMM_WORLD)); });
  mpi("kvtree_bcast", 2, none, [](Ctx& c, int r) { RC(kvtree_bcast(c.a[r], 1, MPI_COMM_WORLD)); });
  for (int n = 1; n <= 3; n++) for (int d = 0; d < 3; d++)
    mpi(nm(sfmt("kvtree_exchange %s with %d", d == 0 ? "" : d == 1 ? "right" : "left", n)), n, [](Ctx& c) { for (int r = 0; r < c.n; r++) { kvtree_delete(&c.a[r]); T t; for (int q = 0; q < c.n; q++) if ((q + r) % 3 != 2) t.k.push_back({sfmt("%d", q), rank_tree(r, c.in)}); c.a[r] = build(t); kvtree_unset_all(c.b[r]); } },
      [d](Ctx& c, int r) { RC(d == 0 ? kvtree_exchange(c.a[r], c.b[r], MPI_COMM_WORLD) : kvtree_exchange_direction(c.a[r], c.b[r], MPI_COMM_WORLD, d == 1 ? KVTREE_EXCHANGE_RIGHT : KVTREE_EXCHANGE_LEFT)); });
  for (int n = 1; n <= 3; n++) {
    mpi(nm(sfmt("kvtree_write_gather with %d", n)), n, none, [](Ctx& c, int r) { RC(kvtree_write_gather("g", c.a[r], MPI_COMM_WORLD)); }, true);
    auto rd = [](Ctx& c, int r) { RC(kvtree_read_scatter("g", c.a[r], MPI_COMM_WORLD)); };
    for (int lv = 1; lv <= 2; lv++) mpi(nm(sfmt("kvtree_read_scatter of %d levels with %d", lv, n)), n, [lv](Ctx& c) { put_set(c.n, c.in, lv); }, rd, true);
    mpi(nm(sfmt("kvtree_read_scatter of a set for another size with %d", n)), n, [](Ctx& c) { put_set(c.n + 1, c.in, 1); }, rd, true);
    mpi(nm(sfmt("kvtree_read_scatter of a set without part with %d", n)), n, [](Ctx& c) { put_set(c.n, c.in, 1); vfs.names.erase(VROOT "/g.0.0"); }, rd, true);
    mpi(nm(sfmt("kvtree_read_scatter of nothing with %d", n)), n, none, rd, true);
    mpi(nm(sfmt("kvtree_read_scatter of an empty map with %d", n)), n, [](Ctx& c) { put_set(c.n, c.in, 2); vfs.put("g", ""); }, rd, true);
    mpi(nm(sfmt("kvtree_read_scatter of an empty lower map with %d", n)), n, [](Ctx& c) { put_set(c.n, c.in, 2); vfs.put("g.1.0", ""); }, rd, true);
    mpi(nm(sfmt("kvtree_read_scatter of a map without names with %d", n)), n, [](Ctx& c) { put_set(c.n, c.in, 1); T m; m.put("LEVEL").put("1"); m.put("RANKS").put(sfmt("%d", c.n)); for (int r = 0; r < c.n; r++) m.put("RANK").put(sfmt("%d", r)); vfs.put("g", enc_image(enc_pack(m))); }, rd, true);
  }
  return v;
}

struct Out { bool exited = false; int status = 0; bool msg = false; std::vector<int> ok; std::vector<Str> ta, tb, extra; Str files; uint64_t calls = 0; int64_t leak = 0; int fds = 0, locks = 0; };
static off_t errpos() { struct stat st; return fstat(2, &st) == 0 ? st.st_size : 0; }
struct Faults { uint64_t at = 0, from = 0; std::function<Ans(Sys&)> sys; };
static std::vector<Str> g_before_a, g_before_b;
static Out exec(const Scn& s, const T& in, const Faults& f) {
  Out o; Ctx c; c.n = s.ranks ? s.ranks : 1; c.in = in; vfs.reset(c.n); mpi_mode = MpiMode(); sched.pick = nullptr;
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  int64_t base = heap.live;
  static const T second = parse("3(x) 12(y(z)) n(42) bad(xyz)"), keep = parse("-5 12(w) 7");
  for (int r = 0; r < c.n; r++) { c.a.push_back(build(in)); c.b.push_back(build(s.ranks ? keep : (r == 0 && (strstr(s.name, "_int") || strstr(s.name, "sendq"))) ? keep : second)); }
  c.ok.assign(c.n, 1); c.extra.assign(c.n, "");
  s.setup(c);
  if (c.env) setenv("KVTREE_ENTRIES_PER_FILE", sfmt("%d", c.env).c_str(), 1);
  g_before_a.clear(); g_before_b.clear();
  for (int r = 0; r < c.n; r++) { g_before_a.push_back(canon(observe(c.a[r]), true)); g_before_b.push_back(canon(observe(c.b[r]), true)); }
  fflush(stderr); off_t e0 = errpos();
  heap.calls = 0; heap.refused = 0; heap.fail_at = f.at; heap.fail_from = f.from; vfs.before = f.sys; vfs.nsys = 0;
  if (s.ranks) {
    exit_trap = ExitTrap(); exit_trap.armed = true; exit_trap.leave = [] { fibers_abandon(); };
    mpi_run(c.n, [&](int r) { s.body(c, r); });
    o.exited = exit_trap.hit; o.status = exit_trap.status; exit_trap = ExitTrap();
  } else { o.exited = run_trapping_exit([&] { s.body(c, 0); }); o.status = exit_trap.status; }
  o.calls = heap.calls; heap.fail_at = heap.fail_from = 0; vfs.before = nullptr;
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  fflush(stderr); o.msg = errpos() > e0;
  if (o.exited) { heap.live = base; return o; }     // the program has ended
  for (int r = 0; r < c.n; r++) { o.ta.push_back(canon(observe(c.a[r]), true)); o.tb.push_back(canon(observe(c.b[r]), true)); }
  o.ok = c.ok; o.extra = c.extra; if (s.files) o.files = allfiles();
  if (c.fd >= 0) { T t; kvtree* x = kvtree_new(); vfs.cur = 0; kvtree_write_close_unlock("f", &c.fd, x); kvtree_delete(&x); }
  for (int r = 0; r < c.n; r++) { kvtree_delete(&c.a[r]); kvtree_delete(&c.b[r]); o.fds += vfs.open_fds(r); }
  o.locks = vfs.nlocks(); o.leak = heap.live - base; heap.live = base;
  return o;
}
static std::vector<T> scn_trees() { T big; for (int i = 0; i < 12; i++) big.put(sfmt("%d", i)).put(Str(40 + i, 'v')); return {parse(""), parse("a(b)"), parse("a(b c(d(e))) 12 z!"), big}; }

CHECK_DEF(C07, "model_checking", "a case is one operation applied to one reachable pair of owned trees, or one library call under one environment fault; distinct_nontrivial counts distinct reachable pairs of trees and distinct call outcomes") {
  Owner::init(); Owner::maxnodes = g_thorough ? 6 : 5; Owner::maxh1 = g_thorough ? 3 : 2;
  bfs<Owner>("ownership", "every operation (set, move, extract, merge, pack, print path, send queue, files, ...) from every reachable pair of owned trees; after each, the number of allocated blocks must equal what the two trees consist of", g_thorough ? 9 : 6, g_thorough ? 1200000 : 60000, 8);
  // every way of taking part of a tree away, at every place of larger trees
  static std::vector<T> R = universe(g_thorough ? 6 : 5, {"a", "1", "b"}, false, 3); { auto m = universe(4, {"a", "1", "2"}, true, 3); R.insert(R.end(), m.begin(), m.end()); }
  for (int w = 1; w <= 40; w++) for (int at : {0, w / 2, w - 1}) for (int s : {0, 1, 3, 9, 40}) { T t; for (int i = 0; i < w; i++) { T& c = t.put(sfmt("%d", i)); if (i == at) for (int j = 0; j < s; j++) c.put(sfmt("%d", j)).put("leaf"); } R.push_back(t); }
  for (int d : {1, 2, 5, 20, 100}) { T t; T* p = &t; for (int i = 0; i < d; i++) { p->put("side").put("x"); p = &p->put("1"); } R.push_back(t); }
  static const char* rop[] = {"kvtree_unset", "kvtree_unset of an absent key", "kvtree_extract", "kvtree_elem_extract", "kvtree_elem_extract_by_addr", "kvtree_unset_kv of the first value", "kvtree_unset_kv of the last value", "kvtree_unset_kv of an absent value", "kvtree_set(NULL)", "kvtree_set(new)", "kvtree_set(large)", "kvtree_set(itself)", "kvtree_unset_all", "kvtree_util_set_int", "kvtree_util_set_str", "kvtree_setf", "kvtree_set_kv", "kvtree_merge", "kvtree_sort", "kvtree_unset_all in turn"};
  const int NR = sizeof rop / sizeof *rop;
  suite("release", R.size(), [&](uint64_t i) {
    const T& t = R[i]; calibrate();
    std::vector<std::vector<Str>> at; std::function<void(const T&, std::vector<Str>&)> go = [&](const T& n, std::vector<Str>& p) { at.push_back(p); for (size_t k = 0; k < n.k.size(); k++) if (n.k.size() < 8 || k == 0 || k + 1 == n.k.size() || k == n.k.size() / 2) { if (n.k[k].second.null) continue; p.push_back(n.k[k].first); go(n.k[k].second, p); p.pop_back(); } };
    std::vector<Str> p0; go(t, p0); if (at.size() > 60) at.resize(60);
    for (auto& path : at) for (int o = 0; o < NR; o++) for (int sel = 0; sel < 3; sel++) {
      int64_t base = heap.live; kvtree* h = build(t); kvtree* n = h; for (auto& k : path) n = kvtree_get(n, k.c_str());
      int sz = kvtree_size(n); if (sel && (o >= 12 || sel >= sz)) { del(h); continue; }
      kvtree_elem* e = kvtree_elem_first(n); for (int q = sel == 0 ? 0 : sel == 1 ? sz - 1 : sz / 2; q > 0; q--) e = kvtree_elem_next(e);
      if (!e && o != 1 && o < 12) { del(h); continue; }
      Str K = e ? kvtree_elem_key(e) : "none"; kvtree* sub = e ? kvtree_elem_hash(e) : nullptr; trace_begin(); TRACE("tree {%s}, level %zu, key %s: %s", cdesc(t).c_str(), path.size(), K.c_str(), rop[o]);
      switch (o) {
        case 0: kvtree_unset(n, K.c_str()); break;
        case 1: kvtree_unset(n, "absent"); break;
        case 2: { kvtree* x = kvtree_extract(n, K.c_str()); CHECK(x == sub, "extract"); int64_t c0 = cost(observe(x)), l0 = heap.live; kvtree_delete(&x); CHECK(heap.live == l0 - c0, "deleting an extracted tree releases %lld of %lld blocks", (long long)(l0 - heap.live), (long long)c0); break; }
        case 3: drop_elem(kvtree_elem_extract(n, K.c_str())); break;
        case 4: drop_elem(kvtree_elem_extract_by_addr(n, e)); break;
        case 5: case 6: case 7: { Str v = "absent"; if (o != 7) { kvtree_elem* x = kvtree_elem_first(sub); if (o == 6) while (x && kvtree_elem_next(x)) x = kvtree_elem_next(x); if (x) v = kvtree_elem_key(x); } kvtree_unset_kv(n, K.c_str(), v.c_str()); break; }
        case 8: kvtree_set(n, K.c_str(), nullptr); break;
        case 9: kvtree_set(n, K.c_str(), kvtree_new()); break;
        case 10: kvtree_set(n, K.c_str(), build(t)); break;
        case 11: { kvtree* x = kvtree_extract(n, K.c_str()); kvtree_set(n, K.c_str(), x); break; }
        case 12: kvtree_unset_all(n); break;
        case 13: kvtree_util_set_int(n, K.c_str(), 5); break;
        case 14: kvtree_util_set_str(n, K.c_str(), "string"); break;
        case 15: kvtree_setf(n, kvtree_new(), "%s %d", K.c_str(), 3); break;
        case 16: kvtree_set_kv(n, K.c_str(), "v"); break;
        case 17: { kvtree* x = build(t); kvtree_merge(n, x); del(x); break; }
        case 18: kvtree_sort(n, KVTREE_SORT_DESCENDING); kvtree_sort_int(n, KVTREE_SORT_ASCENDING); break;
        case 19: { kvtree_elem* x = kvtree_elem_first(n); while (x) { kvtree_elem* y = kvtree_elem_next(x); kvtree_unset(n, kvtree_elem_key(x)); x = y; } CHECK(kvtree_size(n) == 0, "entries left"); break; }
      }
      T now = observe(h); int64_t want = cost(now), got = heap.live - base; n_eval(); n_trans();
      if (got != want) fail("after %s the tree {%s} accounts for %lld blocks but %lld are allocated", rop[o], cdesc(now).c_str(), (long long)want, (long long)got);
      kvtree_delete(&h); CHECK(!h && heap.live == base, "%lld blocks are left after deleting the tree", (long long)(heap.live - base)); n_valid(); outcome(canon(now, true) + rop[o]);
    }
  }, "every removing, replacing and adding operation at every node of all trees with up to 5 (thorough 6) entries, of levels of 1 to 40 entries with a small or large subtree at the front, middle or back, and of deep trees; blocks allocated must equal blocks in the tree");
  static std::vector<Scn> S = scenarios(); static std::vector<T> trees = scn_trees();
  suite("calls", S.size() * trees.size(), [&](uint64_t i) {
    const Scn& s = S[i / trees.size()]; const T& in = trees[i % trees.size()];
    std::vector<std::pair<SysOp, Str>> calls; bool any_lock = false; (void)any_lock;
    auto once = [&](const Faults& f, const Str& what) {
      trace_begin(); TRACE("%s with tree {%s}, %s", s.name, cdesc(in).c_str(), what.c_str()); n_eval(); n_trans();
      Out o = exec(s, in, f);
      if (o.exited) fail("%s (%s) ended the program", s.name, what.c_str());
      CHECK(o.leak == 0, "%s (%s): %lld blocks are not released once every tree is deleted", s.name, what.c_str(), (long long)o.leak);
      n_valid(); Str h; for (size_t r = 0; r < o.ok.size(); r++) h += sfmt("%d", o.ok[r]) + o.ta[r] + o.tb[r]; outcome(Str(s.name) + h);
      return o;
    };
    Faults f; f.sys = [&](Sys& y) { calls.push_back({y.op, y.path}); return Ans(); };
    once(f, "no fault");
    size_t n = calls.size();
    for (size_t k = 0; k < n; k++) {
      SysOp op = calls[k].first;
      if (op == S_UMASK || op == S_USLEEP || op == S_CLOSEDIR) continue;
      for (int err : {EIO, EACCES}) {
        size_t at = 0; Faults g; g.sys = [&](Sys&) { Ans a; if (at++ == k) { a.k = Ans::FAIL; a.err = err; } return a; };
        once(g, sfmt("system call %zu (%s %s) fails with %s", k, sysop_name[op], calls[k].second.c_str(), strerrorname_np(err)));
      }
      { size_t at = 0; Faults g; g.sys = [&](Sys&) { Ans a; if (at++ >= k) { a.k = Ans::FAIL; a.err = EIO; } return a; }; once(g, sfmt("every system call from number %zu fails", k)); }
      if (op == S_READ || op == S_WRITE) { size_t at = 0; Faults g; g.sys = [&](Sys&) { Ans a; if (at++ == k) { a.k = Ans::PART; a.n = 0; } return a; }; if (op == S_READ) once(g, sfmt("system call %zu (read) reports the end of the file", k)); }
    }
  }, "every library call of the list with every one of its system calls failing (once, or from there on): no block may be left once the trees are deleted");
}

// ---------------------------------------------------------------------------
// C08: arguments taken from the tree
static void collect(kvtree* h, std::vector<kvtree*>& hs, std::vector<char*>& ks) {
  if (!h) return; hs.push_back(h);
  for (kvtree_elem* e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) { ks.push_back(kvtree_elem_key(e)); collect(kvtree_elem_hash(e), hs, ks); }
}
static Str where(const std::vector<kvtree*>& hs, kvtree* x) { for (size_t i = 0; i < hs.size(); i++) if (hs[i] == x) return sfmt("node %zu", i); return x ? "new" : "NULL"; }
struct AOp { const char* n; int args; std::function<Str(kvtree*, const char*, const char*, kvtree*)> f; };   // handle, arg1, arg2, root
static Str tr(kvtree* h) { return h ? ordered(observe(h)) : Str("NULL"); }
static std::vector<AOp> aops() {
  typedef kvtree* H; typedef const char* S;
  std::vector<AOp> v;
  v.push_back({"kvtree_set(new)", 1, [](H h, S a, S, H) { return tr(kvtree_set(h, a, kvtree_new())); }});
  v.push_back({"kvtree_set(NULL)", 1, [](H h, S a, S, H) { return tr(kvtree_set(h, a, nullptr)); }});
  v.push_back({"kvtree_get", 1, [](H h, S a, S, H) { return tr(kvtree_get(h, a)); }});
  v.push_back({"kvtree_unset", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_unset(h, a)); }});
  v.push_back({"kvtree_extract", 1, [](H h, S a, S, H) { H x = kvtree_extract(h, a); Str s = tr(x); kvtree_delete(&x); return s; }});
  v.push_back({"kvtree_elem_extract", 1, [](H h, S a, S, H) { kvtree_elem* e = kvtree_elem_extract(h, a); Str s = "-"; if (e) { s = Str(kvtree_elem_key(e)) + tr(kvtree_elem_hash(e)); drop_elem(e); } return s; }});
  v.push_back({"kvtree_elem_get", 1, [](H h, S a, S, H) { kvtree_elem* e = kvtree_elem_get(h, a); return e ? Str(kvtree_elem_key(e)) + tr(kvtree_elem_hash(e)) : Str("-"); }});
  v.push_back({"kvtree_elem_get_first_val", 1, [](H h, S a, S, H) { char* s = kvtree_elem_get_first_val(h, a); return Str(s ? s : "(none)"); }});
  v.push_back({"kvtree_get_val", 1, [](H h, S a, S, H) { char* s = kvtree_get_val(h, a); return Str(s ? s : "(none)"); }});
  v.push_back({"kvtree_set_kv", 2, [](H h, S a, S b, H) { return tr(kvtree_set_kv(h, a, b)); }});
  v.push_back({"kvtree_get_kv", 2, [](H h, S a, S b, H) { return tr(kvtree_get_kv(h, a, b)); }});
  v.push_back({"kvtree_unset_kv", 2, [](H h, S a, S b, H) { return sfmt("%d", kvtree_unset_kv(h, a, b)); }});
  v.push_back({"kvtree_set_kv_int", 1, [](H h, S a, S, H) { return tr(kvtree_set_kv_int(h, a, 1)); }});
  v.push_back({"kvtree_unset_kv_int", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_unset_kv_int(h, a, 1)); }});
  v.push_back({"kvtree_setf(\"%s\")", 1, [](H h, S a, S, H) { return tr(kvtree_setf(h, kvtree_new(), "%s", a)); }});
  v.push_back({"kvtree_setf(\"%s %s\")", 2, [](H h, S a, S b, H) { return tr(kvtree_setf(h, kvtree_new(), "%s %s", a, b)); }});
  v.push_back({"kvtree_setf(\"%s %d %s\")", 2, [](H h, S a, S b, H) { return tr(kvtree_setf(h, kvtree_new(), "%s %d %s", a, 2, b)); }});
  v.push_back({"kvtree_getf(\"%s %s\")", 2, [](H h, S a, S b, H) { return tr(kvtree_getf(h, "%s %s", a, b)); }});
  v.push_back({"kvtree_util_set_str", 2, [](H h, S a, S b, H) { Str k = a; int r = kvtree_util_set_str(h, a, b); char* s = nullptr; int q = kvtree_util_get_str(h, k.c_str(), &s); return sfmt("%d %d %s", r, q, q == 0 ? s : "-"); }});
  v.push_back({"kvtree_util_set_str(own value)", 1, [](H h, S a, S, H) { char* s = nullptr; if (kvtree_util_get_str(h, a, &s) != KVTREE_SUCCESS) return Str("none"); Str k = a; int r = kvtree_util_set_str(h, a, s); int g = kvtree_util_get_str(h, k.c_str(), &s); return sfmt("%d %d %s", r, g, g == 0 ? s : "-"); }});
  v.push_back({"kvtree_util_set_int", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_util_set_int(h, a, 2)); }});
  v.push_back({"kvtree_util_set_double", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_util_set_double(h, a, 2.5)); }});
  v.push_back({"kvtree_util_set_bytecount", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_util_set_bytecount(h, a, 2)); }});
  v.push_back({"kvtree_util_set_crc32", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_util_set_crc32(h, a, 2)); }});
  v.push_back({"kvtree_util_set_int64", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_util_set_int64(h, a, 2)); }});
  v.push_back({"kvtree_util_set_ptr", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_util_set_ptr(h, a, (void*)2)); }});
  v.push_back({"kvtree_util_set_unsigned_long", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_util_set_unsigned_long(h, a, 2)); }});
  v.push_back({"kvtree_util_get_*", 1, [](H h, S a, S, H) { int i = 9; double d = 9; unsigned long u = 9; int64_t l = 9; int r1 = kvtree_util_get_int(h, a, &i), r2 = kvtree_util_get_unsigned_long(h, a, &u), r3 = kvtree_util_get_int64(h, a, &l), r4 = kvtree_util_get_double(h, a, &d); return sfmt("%d%d%d%d %d %lu %ld %g", r1, r2, r3, r4, i, u, (long)l, d); }});
  v.push_back({"kvtree_read_file", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_read_file(a, h)); }});
  v.push_back({"kvtree_read_with_lock", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_read_with_lock(a, h)); }});
  v.push_back({"kvtree_lock_open_read+write_close_unlock", 1, [](H h, S a, S, H) { int fd; int r = kvtree_lock_open_read(a, &fd, h); int q = kvtree_write_close_unlock(a, &fd, h); return sfmt("%d %d %d", r, q, fd); }});
  v.push_back({"kvtree_write_file", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_write_file(a, h)); }});
  v.push_back({"kvtree_write_to_gather", 1, [](H h, S a, S, H) { return sfmt("%d", kvtree_write_to_gather(a, h, 2)); }});
  v.push_back({"kvtree_merge of another tree named by it", 1, [](H h, S a, S, H) { H s = kvtree_new(); kvtree_set_kv(s, a, a); int r = kvtree_merge(h, s); kvtree_delete(&s); return sfmt("%d", r); }});
  return v;
}
static void set_files() { vfs.put("1", enc_image(enc_pack(parse("2(1) 1(1(2))")))); vfs.put("2", enc_image(enc_pack(parse("1")))); }

CHECK_DEF(C08, "exploration", "a case is one operation on one node of one tree with one choice of key pointers from that tree (compared with private copies), or one operation whose argument buffers are changed and freed afterwards; distinct_nontrivial counts distinct (operation, result, final tree) triples") {
  static std::vector<AOp> A = aops();
  static std::vector<T> U = universe(g_thorough ? 5 : 4, {"1", "2"}, true, 3);
  U.erase(U.begin());
  auto more = universe(3, {"1", "12", "2"}, false, 3); for (auto& t : more) if (t.nodes()) U.push_back(t);
  suite("alias", U.size(), [&](uint64_t i) {
    const T& t = U[i];
    std::vector<kvtree*> hs0; std::vector<char*> ks0; kvtree* probe = build(t); collect(probe, hs0, ks0); size_t nh = hs0.size(), nk = ks0.size(); del(probe);
    for (auto& a : A) for (size_t h = 0; h < nh; h++) for (size_t k1 = 0; k1 < nk; k1++) for (size_t k2 = 0; k2 < (a.args == 2 ? nk : 1); k2++) {
      trace_begin(); TRACE("tree {%s}: %s on node %zu with the keys at positions %zu and %zu of the tree itself", cdesc(t).c_str(), a.n, h, k1, k2); n_eval();
      Leaks lk; Str r1, r2, f1, f2, t1, t2;
      { vfs.reset(1); set_files(); kvtree* x = build(t); std::vector<kvtree*> hs; std::vector<char*> ks; collect(x, hs, ks); r1 = a.f(hs[h], ks[k1], ks[k2], x); t1 = ordered(observe(x)); f1 = allfiles(); del(x); }
      lk.check(a.n);
      { vfs.reset(1); set_files(); kvtree* x = build(t); std::vector<kvtree*> hs; std::vector<char*> ks; collect(x, hs, ks); char *c1 = strdup(ks[k1]), *c2 = strdup(ks[k2]); r2 = a.f(hs[h], c1, c2, x); memset(c1, 'Z', strlen(c1)); memset(c2, 'Z', strlen(c2)); free(c1); free(c2); t2 = ordered(observe(x)); f2 = allfiles(); del(x); }
      lk.check(a.n);
      CHECK(r1 == r2, "%s returns %s for keys taken from the tree, %s for copies", a.n, quote(r1).c_str(), quote(r2).c_str());
      CHECK(t1 == t2, "%s leaves {%s} for keys taken from the tree, {%s} for copies", a.n, t1.c_str(), t2.c_str());
      CHECK(f1 == f2, "%s leaves other files for keys taken from the tree", a.n);
      n_valid(); outcome(Str(a.n) + r1 + t1);
    }
  }, "every operation taking strings, on every node of every tree with up to 4 (thorough 5) entries, with every choice of argument strings from that tree");
  // values of one entry handed to another operation after being read, in pairs
  static std::vector<T> V = universe(3, {"1", "2"}, false, 3);
  suite("alias-sequences", V.size(), [&](uint64_t i) {
    const T& t = V[i]; if (!t.nodes()) return;
    std::vector<kvtree*> hs0; std::vector<char*> ks0; kvtree* probe = build(t); collect(probe, hs0, ks0); size_t nk = ks0.size(); del(probe);
    // two operations in a row on the root, the second with keys of the tree left by the first
    for (auto& a : A) for (auto& b : A) {
      if (strstr(a.n, "file") || strstr(b.n, "file") || strstr(a.n, "lock") || strstr(b.n, "lock") || strstr(a.n, "gather") || strstr(b.n, "gather")) continue;
      for (size_t k1 = 0; k1 < nk; k1++) for (size_t k2 = 0; k2 < nk + 1; k2++) {
        trace_begin(); n_eval(); Leaks lk; Str r[2], u[2];
        for (int m = 0; m < 2; m++) {
          vfs.reset(1); kvtree* x = build(t);
          auto step = [&](const AOp& o, size_t k, size_t l) { std::vector<kvtree*> hs; std::vector<char*> ks; collect(x, hs, ks); if (ks.empty()) return; char *p = ks[k % ks.size()], *q = ks[l % ks.size()]; if (m) { p = strdup(p); q = strdup(q); } TRACE("%s(%s, %s)%s", o.n, p, q, m ? " copies" : ""); r[m] += o.f(x, p, q, x) + ";"; if (m) { free(p); free(q); } };
          step(a, k1, k1 + 1); step(b, k2, k2 + 1); u[m] = ordered(observe(x)); del(x);
        }
        lk.check("sequence");
        CHECK(r[0] == r[1] && u[0] == u[1], "%s then %s: result %s / tree %s with keys of the tree, %s / %s with copies", a.n, b.n, r[0].c_str(), u[0].c_str(), r[1].c_str(), u[1].c_str());
        n_valid(); outcome(r[0] + u[0]);
      }
    }
  }, "every pair of operations in a row on trees with up to 3 entries, keys taken from the tree");
  suite("buffers", A.size(), [&](uint64_t i) {
    const AOp& a = A[i];
    for (auto& t : U) for (const char* k1 : {"1", "2", "new", ""}) for (const char* k2 : {"1", "v", ""}) {
      if (a.args == 1 && *k2 != '1') continue;
      trace_begin(); TRACE("%s(\"%s\", \"%s\") on {%s}, then the buffers are overwritten and freed", a.n, k1, k2, cdesc(t).c_str()); n_eval();
      vfs.reset(1); set_files(); Leaks lk; kvtree* x = build(t); char *c1 = strdup(k1), *c2 = strdup(k2);
      a.f(x, c1, c2, x); Str b = ordered(observe(x)); for (char* p : {c1, c2}) memset(p, 'Z', strlen(p)); CHECK(ordered(observe(x)) == b, "%s: the tree changes when the caller's buffer is changed", a.n);
      free(c1); free(c2); CHECK(ordered(observe(x)) == b, "%s: the tree changes when the caller's buffer is freed", a.n); del(x); lk.check(a.n); n_valid(); outcome(a.n + b);
    }
  }, "every operation with private buffers that are overwritten and freed right after the call");
}

// ---------------------------------------------------------------------------
CHECK_DEF(C09, "exploration", "a case is one call with at least one null handle; distinct_nontrivial counts distinct calls") {
  struct N { const char* n; std::function<void()> f; };
  static std::vector<N> L; static kvtree* nul = nullptr;
  static auto unchanged = [](kvtree* h, const char* want, const char* n) { Str g = canon(observe(h)), w = canon(parse(want)); CHECK(g == w, "%s changed a tree to %s", n, g.c_str()); };
#define NT(x) L.push_back({#x, [] { CHECK(x, "%s does not hold", #x); }})
#define NV(name, code) L.push_back({name, [] { code; }})
  NT(kvtree_size(nul) == 0); NT(kvtree_get(nul, "a") == nullptr); NT(kvtree_get(nul, nullptr) == nullptr); NT(kvtree_set(nul, "a", nullptr) == nullptr);
  NV("kvtree_set(NULL,key,tree)", kvtree* x = build(parse("b")); CHECK(!kvtree_set(nul, "a", x), "returned a tree"); unchanged(x, "b", "kvtree_set(NULL)"); del(x));
  NT(kvtree_extract(nul, "a") == nullptr); NT(kvtree_unset(nul, "a") == KVTREE_SUCCESS); NT(kvtree_unset_all(nul) == KVTREE_SUCCESS);
  NV("kvtree_delete(NULL)", CHECK(kvtree_delete(nullptr) == KVTREE_SUCCESS, "failed"); kvtree* x = nullptr; CHECK(kvtree_delete(&x) == KVTREE_SUCCESS && !x, "failed"));
  NV("kvtree_merge(tree,NULL)", for (const char* t : {"", "a(b) c!"}) { kvtree* x = build(parse(t)); CHECK(kvtree_merge(x, nul) == KVTREE_SUCCESS, "merging nothing failed"); unchanged(x, t, "kvtree_merge(tree,NULL)"); del(x); });
  NV("kvtree_merge(NULL,tree)", for (const char* t : {"", "a(b) c!"}) { kvtree* x = build(parse(t)); int r = kvtree_merge(nul, x); CHECK(!*t || r != KVTREE_SUCCESS, "merging into nothing reports success"); unchanged(x, t, "kvtree_merge(NULL,tree)"); del(x); });
  NV("kvtree_merge(NULL,NULL)", kvtree_merge(nul, nul));
  NT(kvtree_setf(nul, nullptr, "%s", "a") == nullptr); NT(kvtree_setf(nul, nullptr, "%s %d", "a", 1) == nullptr); NT(kvtree_getf(nul, "%s", "a") == nullptr); NT(kvtree_getf(nul, "%s %d", "a", 3) == nullptr);
  NV("kvtree_setf(NULL,tree)", kvtree* x = build(parse("b")); CHECK(!kvtree_setf(nul, x, "%s", "a"), "returned a tree"); unchanged(x, "b", "kvtree_setf(NULL)"); del(x));
  NT(kvtree_sort(nul, KVTREE_SORT_ASCENDING) == KVTREE_SUCCESS); NT(kvtree_sort(nul, KVTREE_SORT_DESCENDING) == KVTREE_SUCCESS); NT(kvtree_sort_int(nul, KVTREE_SORT_ASCENDING) == KVTREE_SUCCESS); NT(kvtree_sort_int(nul, KVTREE_SORT_DESCENDING) == KVTREE_SUCCESS);
  NV("kvtree_list_int(NULL)", int n = 7; int* l = &n; CHECK(kvtree_list_int(nul, &n, &l) == KVTREE_SUCCESS && n == 0 && l == nullptr, "kvtree_list_int(NULL) reports %d keys", n));
  NT(kvtree_set_kv(nul, "a", "b") == nullptr); NT(kvtree_set_kv_int(nul, "a", 1) == nullptr); NT(kvtree_get_kv(nul, "a", "b") == nullptr); NT(kvtree_get_kv_int(nul, "a", 1) == nullptr); NT(kvtree_unset_kv(nul, "a", "b") == KVTREE_SUCCESS); NT(kvtree_unset_kv_int(nul, "a", 1) == KVTREE_SUCCESS);
  NT(kvtree_elem_first(nul) == nullptr); NT(kvtree_elem_next(nullptr) == nullptr); NT(kvtree_elem_key(nullptr) == nullptr); NT(kvtree_elem_key_int(nullptr) == 0); NT(kvtree_elem_hash(nullptr) == nullptr); NT(kvtree_elem_get(nul, "a") == nullptr); NT(kvtree_elem_get_first_val(nul, "a") == nullptr); NT(kvtree_elem_extract(nul, "a") == nullptr); NT(kvtree_elem_extract_int(nul, 1) == nullptr); NT(kvtree_get_val(nul, "a") == nullptr);
  // entries without a subtree behave like entries with an empty one
  NV("operations through an entry without a subtree", kvtree* x = build(parse("a! b")); CHECK(!kvtree_get_kv(x, "a", "b") && !kvtree_getf(x, "%s %s", "a", "b") && !kvtree_elem_get_first_val(x, "a") && !kvtree_get_val(x, "a") && kvtree_size(kvtree_get(x, "a")) == 0, "an entry without a subtree has values"); CHECK(kvtree_unset_kv(x, "zz", "b") == KVTREE_SUCCESS, "unset_kv"); unchanged(x, "a b", "unset_kv"); CHECK(kvtree_set_kv(x, "a", "v") != nullptr, "set_kv under an entry without a subtree"); unchanged(x, "a(v) b", "set_kv"); del(x));
  NT(kvtree_pack_size(nul) == kvtree_pack_size(nul) && kvtree_pack_size(nul) == enc_pack(T()).size());
  NV("kvtree_pack(NULL)", char b[8]; memset(b, 0x55, 8); CHECK(kvtree_pack(b, nul) == 4 && Str(b, 4) == enc_pack(T()) && b[4] == 0x55, "packing nothing is not packing an empty tree"));
  NV("kvtree_unpack(NULL)", Str p = enc_pack(parse("a(b)")); kvtree_unpack(p.data(), nul));
  NV("kvtree_write_persist(NULL)", void* b = nullptr; size_t n = 3; CHECK(kvtree_write_persist(&b, &n, nul) != KVTREE_SUCCESS && !b && n == 3, "kvtree_write_persist of nothing"));
  NV("kvtree_write_persist(NULL buffer)", kvtree* x = kvtree_new(); size_t n = 3; CHECK(kvtree_write_persist(nullptr, &n, x) != KVTREE_SUCCESS && n == 3, "kvtree_write_persist without a buffer"); del(x));
  // files: nothing may be created or changed
  static auto nofile = [](const char* n, std::function<int()> f) {
    for (int have = 0; have < 2; have++) {
      vfs.reset(1); if (have) { vfs.put("f", enc_image(enc_pack(parse("a")))); } Str b = allfiles(); int r = f();
      CHECK(r != KVTREE_SUCCESS, "%s reports success", n); CHECK(allfiles() == b, "%s created or changed a file", n); CHECK(vfs.open_fds(0) == 0, "%s left a descriptor open", n); CHECK(vfs.nlocks() == 0, "%s left a lock", n);
    }
  };
#define NF(x) L.push_back({#x, [] { nofile(#x, []() -> int { return x; }); }})
#define NFT(x) L.push_back({#x, [] { nofile(#x, []() -> int { kvtree* t = build(parse("q(r)")); int rc = x; unchanged(t, "q(r)", #x); del(t); return rc; }); }})
  NF(kvtree_write_file("f", nul)); NF(kvtree_read_file("f", nul)); NF(kvtree_write_with_lock("f", nul)); NF(kvtree_read_with_lock("f", nul)); NF(kvtree_write_file(nullptr, nul)); NF(kvtree_read_file(nullptr, nul)); NF(kvtree_read_with_lock(nullptr, nul)); NF(kvtree_write_with_lock(nullptr, nul));
  NFT(kvtree_write_file(nullptr, t)); NFT(kvtree_read_file(nullptr, t)); NFT(kvtree_write_with_lock(nullptr, t)); NFT(kvtree_read_with_lock(nullptr, t));
  NF(kvtree_write_to_gather("f", nul, 2)); NFT(kvtree_write_to_gather(nullptr, t, 2)); NF(kvtree_write_to_gather(nullptr, nul, 2)); NF(kvtree_read_scatter_single("f", nul)); NFT(kvtree_read_scatter_single(nullptr, t));
  L.push_back({"kvtree_lock_open_read(file,&fd,NULL)", [] { nofile("kvtree_lock_open_read", [] { int fd = 77; int r = kvtree_lock_open_read("f", &fd, nullptr); CHECK(fd == -1, "a descriptor %d is handed out", fd); return r; }); }});
  L.push_back({"kvtree_lock_open_read(NULL,&fd,tree)", [] { nofile("kvtree_lock_open_read", [] { int fd = 77; kvtree* t = build(parse("q")); int r = kvtree_lock_open_read(nullptr, &fd, t); CHECK(fd == -1, "a descriptor %d is handed out", fd); unchanged(t, "q", "kvtree_lock_open_read"); del(t); return r; }); }});
  NFT(kvtree_lock_open_read("f", nullptr, t)); NFT(kvtree_write_close_unlock("f", nullptr, t));
  L.push_back({"kvtree_write_close_unlock(file,&fd,NULL)", [] { nofile("kvtree_write_close_unlock", [] { int fd = vfs.add_foreign(0, "z", O_RDWR); Str b = allfiles(); int r = kvtree_write_close_unlock("f", &fd, nullptr); vfs.procs[0].fds.clear(); CHECK(allfiles() == b, "a file was changed"); vfs.names.erase(VROOT "/z"); return r; }); }});
  L.push_back({"kvtree_write_close_unlock(NULL,&fd,tree)", [] { nofile("kvtree_write_close_unlock", [] { int fd = vfs.add_foreign(0, "z", O_RDWR); Str b = allfiles(); kvtree* t = build(parse("q")); int r = kvtree_write_close_unlock(nullptr, &fd, t); vfs.procs[0].fds.clear(); unchanged(t, "q", "kvtree_write_close_unlock"); del(t); CHECK(allfiles() == b, "a file was changed"); vfs.names.erase(VROOT "/z"); return r; }); }});
  L.push_back({"kvtree_write_close_unlock(file,closed,tree)", [] { nofile("kvtree_write_close_unlock", [] { int fd = -1; kvtree* t = build(parse("q")); int r = kvtree_write_close_unlock("f", &fd, t); CHECK(fd == -1, "descriptor"); del(t); return r; }); }});
  L.push_back({"kvtree_write_fd/read_fd", [] { vfs.reset(1); kvtree* t = build(parse("q")); int fd = vfs.add_foreign(0, "z", O_RDWR); vfs.nsys = 0;
    CHECK(kvtree_write_fd("z", fd, nullptr) < 0, "kvtree_write_fd of nothing"); CHECK(kvtree_write_fd(nullptr, fd, t) < 0, "kvtree_write_fd without a name"); CHECK(kvtree_write_fd("z", -1, t) < 0, "kvtree_write_fd without a descriptor"); CHECK(kvtree_read_fd("z", fd, nullptr) < 0, "kvtree_read_fd into nothing"); CHECK(kvtree_read_fd(nullptr, fd, t) < 0, "kvtree_read_fd without a name"); CHECK(kvtree_read_fd("z", -1, t) < 0, "kvtree_read_fd without a descriptor"); CHECK(vfs.content("z").empty() && vfs.foreign_ops == 0, "the file was touched"); unchanged(t, "q", "kvtree_read_fd"); del(t); }});
  // printing
  NV("kvtree_print(NULL)", kvtree_print(nul, 0); kvtree_print(nul, 5); kvtree_print_mode(nul, 0, KVTREE_PRINT_TREE); kvtree_print_mode(nul, 3, KVTREE_PRINT_KEYVAL); kvtree_log(nul, 1, 0); kvtree_log(nul, 1, 4); kvtree* x = build(parse("a! b(c!)")); kvtree_print(x, 0); kvtree_print_mode(x, 0, KVTREE_PRINT_KEYVAL); kvtree_log(x, 1, 0); unchanged(x, "a b(c)", "printing"); del(x); fflush(stdout));
  // typed helpers
#define US(x) L.push_back({#x, [] { x; }})
  US(kvtree_util_set_int(nul, "a", 1)); US(kvtree_util_set_int64(nul, "a", 1)); US(kvtree_util_set_unsigned_long(nul, "a", 1)); US(kvtree_util_set_bytecount(nul, "a", 1)); US(kvtree_util_set_crc32(nul, "a", 1)); US(kvtree_util_set_str(nul, "a", "b")); US(kvtree_util_set_str(nul, "a", nullptr)); US(kvtree_util_set_double(nul, "a", 1)); US(kvtree_util_set_double(nul, "a", 1e300)); US(kvtree_util_set_ptr(nul, "a", nullptr));
#define UG(T_, fn) L.push_back({#fn "(NULL)", [] { T_ v; memset(&v, 0x5a, sizeof v); T_ w; memset(&w, 0x5a, sizeof w); CHECK(fn(nul, "a", &v) != KVTREE_SUCCESS, #fn " of nothing succeeds"); CHECK(!memcmp(&v, &w, sizeof v), #fn " of nothing sets the variable"); }})
  UG(int, kvtree_util_get_int); UG(int64_t, kvtree_util_get_int64); UG(unsigned long, kvtree_util_get_unsigned_long); UG(unsigned long, kvtree_util_get_bytecount); UG(uLong, kvtree_util_get_crc32); UG(char*, kvtree_util_get_str); UG(double, kvtree_util_get_double); UG(void*, kvtree_util_get_ptr);
  // transfer
  static auto runm = [](int n, std::function<void(int)> f) { for (auto& m : mpi_modes()) { vfs.reset(n); mpi_mode = m; sched.pick = nullptr; mpi_run(n, f); n_trans(); } };
  L.push_back({"kvtree_send(NULL)", [] { runm(2, [](int r) { if (r == 0) CHECK(kvtree_send(nul, 1, MPI_COMM_WORLD) == KVTREE_SUCCESS, "sending nothing failed"); else { kvtree* x = build(parse("old(x)")); CHECK(kvtree_recv(x, 0, MPI_COMM_WORLD) == KVTREE_SUCCESS, "receive failed"); unchanged(x, "", "receiving nothing"); del(x); } }); }});
  L.push_back({"kvtree_recv(NULL)", [] { runm(1, [](int) { CHECK(kvtree_recv(nul, 0, MPI_COMM_SELF) != KVTREE_SUCCESS, "receiving into nothing reports success"); }); }});
  for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) L.push_back({a ? b ? "kvtree_sendrecv(NULL,..,NULL)" : "kvtree_sendrecv(NULL,..,tree)" : b ? "kvtree_sendrecv(tree,..,NULL)" : "kvtree_sendrecv", [a, b] { runm(2, [a, b](int r) {
    kvtree* s = r == 0 && a ? nullptr : build(parse(r ? "one" : "zero")); kvtree* d = r == 1 && b ? nullptr : build(parse("old"));
    CHECK(kvtree_sendrecv(s, 1 - r, d, 1 - r, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_sendrecv failed"); if (s) unchanged(s, r ? "one" : "zero", "kvtree_sendrecv"); if (d) unchanged(d, r == 1 ? (a ? "" : "zero") : "one", "kvtree_sendrecv"); del(s); del(d); }); }});
  L.push_back({"kvtree_sendrecv(NULL) with nobody", [] { runm(1, [](int) { CHECK(kvtree_sendrecv(nul, MPI_PROC_NULL, nul, MPI_PROC_NULL, MPI_COMM_SELF) == KVTREE_SUCCESS, "failed"); CHECK(kvtree_sendrecv(nul, 0, nul, 0, MPI_COMM_SELF) == KVTREE_SUCCESS, "failed"); }); }});
  for (int who = 0; who < 4; who++) L.push_back({"kvtree_bcast(NULL)", [who] { runm(3, [who](int r) { // bit 0: root has none, bit 1: rank 2 has none
    kvtree* x = (r == 1 && (who & 1)) || (r == 2 && (who & 2)) ? nullptr : build(parse(r == 1 ? "root(x)" : "old"));
    CHECK(kvtree_bcast(x, 1, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_bcast failed"); if (x) unchanged(x, (who & 1) ? "" : "root(x)", "kvtree_bcast"); del(x);
    kvtree* y = build(parse(r ? "old" : "next")); CHECK(kvtree_bcast(y, 0, MPI_COMM_WORLD) == KVTREE_SUCCESS, "following broadcast failed"); unchanged(y, "next", "the following broadcast"); del(y); }); }});
  for (int n = 1; n <= 4; n++) for (int d = 0; d < 3; d++) for (int who = 1; who < 4; who++) L.push_back({d == 0 ? "kvtree_exchange(NULL)" : d == 1 ? "kvtree_exchange_direction(NULL) right" : "kvtree_exchange_direction(NULL) left", [n, d, who] { runm(n, [n, d, who](int r) {
    kvtree* s = (r == 0 && (who & 1)) ? nullptr : kvtree_new(); if (s) kvtree_exchange_sendq(s, (r + 1) % n, nullptr); kvtree* x = (r == n - 1 && (who & 2)) ? nullptr : kvtree_new();
    int rc = d == 0 ? kvtree_exchange(s, x, MPI_COMM_WORLD) : kvtree_exchange_direction(s, x, MPI_COMM_WORLD, d == 1 ? KVTREE_EXCHANGE_RIGHT : KVTREE_EXCHANGE_LEFT);
    CHECK(rc == KVTREE_SUCCESS || !x, "exchange failed"); int from = (r + n - 1) % n; if (x) unchanged(x, from == 0 && (who & 1) ? "" : sfmt("%d", from).c_str(), "exchange"); del(s); del(x); }); }});
  L.push_back({"kvtree_exchange_sendq(NULL)", [] { kvtree* x = build(parse("a")); kvtree_exchange_sendq(nul, 1, x); kvtree_exchange_sendq(nul, 1, nul); unchanged(x, "a", "sendq"); del(x); x = kvtree_new(); CHECK(kvtree_exchange_sendq(x, 3, nul) == KVTREE_SUCCESS, "queueing nothing failed"); unchanged(x, "3", "sendq"); CHECK(kvtree_exchange_sendq(x, 3, nul) == KVTREE_SUCCESS, "queueing nothing failed"); unchanged(x, "3", "sendq"); del(x); }});
  for (int n = 1; n <= 3; n++) for (int who = 0; who < n; who++) L.push_back({"kvtree_write_gather(NULL data)", [n, who] { runm(n, [n, who](int r) {
    // writing nothing is writing an empty tree (or a failure everywhere)
    kvtree* t = r == who ? nullptr : build(parse("q(r)")); int rc = kvtree_write_gather("g", t, MPI_COMM_WORLD); del(t);
    if (rc == KVTREE_SUCCESS) { kvtree* x = build(parse("mine")); CHECK(kvtree_read_scatter("g", x, MPI_COMM_WORLD) == KVTREE_SUCCESS, "reading back failed"); unchanged(x, r == who ? "mine" : "mine q(r)", "gather and scatter"); del(x); } }); }});
  suite("null", L.size(), [&](uint64_t i) {
    vfs.reset(1); Leaks lk; trace_begin(); TRACE("%s", L[i].n); n_eval(); L[i].f(); lk.check(L[i].n); n_valid(); outcome(sfmt("%llu ", (unsigned long long)i) + L[i].n); n_state();
    if (i % 9 == 0) sample(L[i].n);
  }, "every function of the library with every combination of null handles it can be given");
  // every sequence of two calls on a tree reached through a null subtree: same as through an empty one
  static std::vector<AOp> A = aops();
  static std::vector<T> U = universe(3, {"1", "2"}, true, 3);
  suite("null-subtrees", U.size(), [&](uint64_t i) {
    const T& t = U[i]; T e = nonull(t); if (same(t, e, true)) return;
    for (auto& a : A) for (const char* k1 : {"1", "2", "3"}) for (const char* k2 : {"1", "2"}) {
      if (a.args == 1 && *k2 == '2') continue;
      trace_begin(); TRACE("%s(\"%s\", \"%s\") on {%s} and on {%s}", a.n, k1, k2, cdesc(t).c_str(), cdesc(e).c_str()); n_eval();
      Leaks lk; Str r1, r2, t1, t2, f1, f2;
      { vfs.reset(1); set_files(); kvtree* x = build(t); r1 = a.f(x, k1, k2, x); t1 = canon(observe(x)); f1 = allfiles_canon(); del(x); }
      { vfs.reset(1); set_files(); kvtree* x = build(e); r2 = a.f(x, k1, k2, x); t2 = canon(observe(x)); f2 = allfiles_canon(); del(x); }
      lk.check(a.n);
      auto z = [](Str s) { Str o; for (size_t p = 0; p < s.size(); p++) { if (s[p] == '!') o += "()"; else o += s[p]; } return o == "NULL" ? Str("()") : o; };
      CHECK(t1 == t2, "%s treats an entry without a subtree differently from one with an empty subtree: {%s} and {%s}", a.n, t1.c_str(), t2.c_str());
      CHECK(f1 == f2, "%s stores a missing subtree differently", a.n);
      (void)z; n_valid(); outcome(Str(a.n) + t1);
    }
  }, "every operation on every tree with missing subtrees has the same effect as with empty subtrees instead");
}

// ---------------------------------------------------------------------------
CHECK_DEF(C29, "exploration", "a case is one library call with one memory request (or all from one on) refused; distinct_nontrivial counts distinct (call, tree, outcome) triples with at least one refused request") {
  static std::vector<Scn> S = scenarios(); static std::vector<T> trees = scn_trees(); static std::vector<T> more = universe(g_thorough ? 4 : 3, {"a", "b"}, true, 3);
  auto run = [](const Scn& s, const T& in) {
    trace_begin(); Out good = exec(s, in, Faults()); 
    if (good.exited) fail("%s ended the program without any fault", s.name);
    Out again = exec(s, in, Faults()); if (again.calls != good.calls || again.ta != good.ta) harness_error("%s is not deterministic", s.name);
    std::vector<Str> ba = g_before_a, bb = g_before_b;
    for (uint64_t k = 1; k <= good.calls; k++) for (int mode = 0; mode < 2; mode++) {
      trace_begin(); TRACE("%s with tree {%s}: memory request %llu of %llu is refused%s", s.name, cdesc(in).c_str(), (unsigned long long)k, (unsigned long long)good.calls, mode ? ", and all later ones" : ""); n_eval(); n_trans();
      Faults f; (mode ? f.from : f.at) = k; Out o = exec(s, in, f);
      if (o.exited) {
        CHECK(o.status != 0, "%s: out of memory ends the program with status zero", s.name);
        CHECK(o.msg, "%s: out of memory ends the program without a message", s.name);
        n_valid(); outcome(sfmt("%s %llu exit", s.name, (unsigned long long)k)); continue;
      }
      for (size_t r = 0; r < o.ok.size(); r++) {
        if (o.ok[r] || !good.ok[r]) {
          if (o.ok[r] != good.ok[r]) fail("%s: succeeds only when memory is refused", s.name);
        }
        if (o.ok[r]) {
          CHECK(o.ta[r] == good.ta[r] && o.tb[r] == good.tb[r], "%s: carries on after a refused memory request with another result: {%s} {%s} instead of {%s} {%s}", s.name, o.ta[r].c_str(), o.tb[r].c_str(), good.ta[r].c_str(), good.tb[r].c_str());
          CHECK(o.extra[r] == good.extra[r], "%s: reports success after a refused memory request but returns %s instead of %s", s.name, quote(o.extra[r]).c_str(), quote(good.extra[r]).c_str());
        } else {
          CHECK(o.ta[r] == ba[r] || (!good.ok[r] && o.ta[r] == good.ta[r]), "%s: fails after a refused memory request but has changed the tree from %s to %s", s.name, ba[r].c_str(), o.ta[r].c_str());
          CHECK(o.tb[r] == bb[r] || (!good.ok[r] && o.tb[r] == good.tb[r]), "%s: fails after a refused memory request but has changed the tree from %s to %s", s.name, bb[r].c_str(), o.tb[r].c_str());
        }
      }
      bool all = true; for (int x : o.ok) all = all && x;
      if (all) CHECK(o.files == good.files, "%s: reports success after a refused memory request but the files differ", s.name);
      CHECK(o.leak == 0, "%s: %lld blocks leak after a refused memory request", s.name, (long long)o.leak);
      CHECK(o.fds == 0 && o.locks == 0, "%s: a descriptor or lock is left after a refused memory request", s.name);
      n_valid(); outcome(sfmt("%s %llu %d", s.name, (unsigned long long)k, (int)all));
    }
  };
  suite("calls", S.size() * trees.size(), [&](uint64_t i) { run(S[i / trees.size()], trees[i % trees.size()]); if (i % 37 == 0) sample(S[i / trees.size()].name); }, "every library call of the list x 4 trees x every memory request it makes, refused once or from there on");
  suite("trees", S.size() * more.size(), [&](uint64_t i) {
    const Scn& s = S[i / more.size()]; const T& t = more[i % more.size()]; size_t lim = g_thorough ? (s.ranks ? 3 : 4) : s.ranks ? 1 : s.files ? 2 : 3;
    if (t.nodes() <= lim) run(s, t);
  }, "the same for every tree of a small universe, with and without missing subtrees");
}
