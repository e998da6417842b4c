// C10 (pack/unpack), C11 (file format), C12 (files yield the last tree), C13 (damage), C14 (malformed contents).
#include "api.h"
#include "bfs.h"
#include "fakempi.h"
#include "huge.h"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>

static T chain(int depth, int fan, const Str& key) { T t; for (int d = 0; d < depth; d++) { T u; for (int f = 0; f + 1 < fan; f++) u.k.push_back({key + sfmt("%d", f), T()}); u.k.push_back({key, t}); t = u; } return t; }
static T wide(int n, size_t len) { T t; for (int i = 0; i < n; i++) { Str k = sfmt("%d", i); if (k.size() < len) k += Str(len - k.size(), 'w'); t.k.push_back({k, T()}); } return t; }
static std::vector<T> special() {
  std::vector<T> v;
  std::vector<Str> ks = {"", "\x01", "\xff", "\x80\x81", " ", "\n", Str(255, 'k'), Str(256, 'k'), Str(257, 'k'), Str(4096, 'k'), Str(70000, 'k'), "%s", "a\tb"};
  for (auto& a : ks) { T t; t.k.push_back({a, T()}); v.push_back(t); T u; u.k.push_back({"x", t}); u.k.push_back({a, u}); v.push_back(u); for (auto& b : ks) if (b != a && a.size() < 300 && b.size() < 300) { T w; T x; x.k.push_back({b, TNull()}); w.k.push_back({a, x}); w.k.push_back({b, t}); v.push_back(w); } }
  for (int n : {2, 3, 15, 16, 17, 127, 128, 255, 256, 257, 1000, 3000}) v.push_back(wide(n, n < 300 ? 0 : 3));
  for (int d : {2, 10, 100, 255, 256, 257, 1000}) { v.push_back(chain(d, 1, "d")); v.push_back(chain(d, 3, "")); }
  T all; for (int c = 1; c < 256; c++) { Str s(1, (char)c); all.k.push_back({s, c % 3 ? T() : TNull()}); } v.push_back(all);
  return v;
}
static void addrs(kvtree* h, std::vector<const void*>& v) { v.push_back(h); if (h) for (kvtree_elem* e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) { v.push_back(e); v.push_back(kvtree_elem_key(e)); addrs(kvtree_elem_hash(e), v); } }
static void same_tree(kvtree* h, const Str& want, const std::vector<const void*>& a, const char* what) { CHECK(ordered(observe(h)) == want, "%s changed the tree", what); std::vector<const void*> b; addrs(h, b); CHECK(a == b, "%s replaced parts of the tree", what); }

// ---------------------------------------------------------------------------
static void c10_one(const T& t) {
  vfs.reset(1); Leaks lk; kvtree* h = build(t); Str o0 = ordered(observe(h)); std::vector<const void*> ad; addrs(h, ad);
  Str packs[2];
  for (int v = 0; v < 2; v++) {
    const Api& A = API[v]; trace_begin(); TRACE("%s: tree {%s}", A.name, cdesc(t).c_str());
    size_t n = A.kvtree_pack_size(h); same_tree(h, o0, ad, "kvtree_pack_size");
    bool small = n < 5000;
    std::vector<Str> after = {"", Str(16, '\0'), Str(16, '\xff'), enc_pack(parse("zz(yy)")), "a"};
    for (int al = 0; al < (small ? 9 : 2); al++) for (size_t tail = 0; tail < (small ? after.size() : 2); tail++) {
      n_eval();
      // packing into an exact block that starts `al` bytes after an aligned address
      size_t total = al + n + after[tail].size(); char* b = (char*)malloc(total ? total : 1); memset(b, 0x6b, total); memcpy(b + al + n, after[tail].data(), after[tail].size());
      size_t w = A.kvtree_pack(b + al, h);
      CHECK(w == n, "kvtree_pack_size announces %zu bytes, kvtree_pack returns %zu", n, w);
      for (int i = 0; i < al; i++) CHECK(b[i] == 0x6b, "kvtree_pack wrote in front of the buffer");
      CHECK(!memcmp(b + al + n, after[tail].data(), after[tail].size()), "kvtree_pack wrote behind the announced size");
      same_tree(h, o0, ad, "kvtree_pack");
      Str p(b + al, n); T d; size_t at = 0; CHECK(dec_pack(p, at, d), "the packed bytes are not a complete tree");
      CHECK(at == n, "the packed tree ends after %zu of %zu bytes", at, n);
      CHECK(canon(d) == canon(t), "the packed bytes encode {%s} instead of {%s}", cdesc(d).c_str(), cdesc(t).c_str());
      if (packs[v].empty()) packs[v] = p; else CHECK(packs[v] == p, "packing the same tree twice gives different bytes");
      if (tail == 0 && al == 0) { memset(b, 0, n); w = A.kvtree_pack(b, h); CHECK(w == n && Str(b, n) == p, "what was in the buffer before influences the packed bytes"); }
      for (int u = 0; u < 2; u++) {                     // unpack by either build
        kvtree* x = kvtree_new(); size_t r = API[u].kvtree_unpack(b + al, x);
        CHECK(r == n, "kvtree_unpack consumes %zu of %zu bytes", r, n);
        T g = observe(x); CHECK(canon(g, true) == canon(nonull(t), true), "unpacking gives {%s} instead of {%s}", cdesc(g).c_str(), cdesc(t).c_str());
        if (small) verify(x, nonull(t), "unpacked tree", true);
        CHECK(Str(b + al, n) == p, "kvtree_unpack changed the buffer");
        memset(b, 'Z', total); CHECK(canon(observe(x)) == canon(g), "the unpacked tree changes with the buffer"); memcpy(b + al, p.data(), n); memcpy(b + al + n, after[tail].data(), after[tail].size());
        if (al == 0 && tail == 0) { CHECK(API[u].kvtree_pack_size(x) == n, "the unpacked tree packs into another size"); Str q(n, 0); API[u].kvtree_pack(&q[0], x); T d2; size_t at2 = 0; CHECK(dec_pack(q, at2, d2) && at2 == n && canon(d2) == canon(t), "packing the unpacked tree gives another tree"); }
        // the unpacked tree behaves as a tree
        if (small && al == 0 && !t.k.empty()) { T m = nonull(t); Str k = t.k[0].first; kvtree_set_kv(x, "new", "v"); m.put("new").put("v"); kvtree_unset(x, k.c_str()); m.del(k); verify(x, m, "unpacked tree after changes"); }
        kvtree_delete(&x); n_valid();
      }
      free(b);
    }
    outcome(packs[v]);
  }
  CHECK(packs[0] == packs[1] || packs[0].size() == packs[1].size(), "the two builds pack to different sizes");
  kvtree_delete(&h); lk.check("packing and unpacking");
  for (int v = 0; v < 2; v++) {                         // an independent encoder's order
    Str p = enc_pack(t); char* b = (char*)malloc(p.size()); memcpy(b, p.data(), p.size()); kvtree* x = kvtree_new(); size_t r = API[v].kvtree_unpack(b, x); free(b);
    CHECK(r == p.size(), "kvtree_unpack consumes %zu of %zu bytes", r, p.size()); CHECK(canon(observe(x)) == canon(t), "unpacking gives another tree"); kvtree_delete(&x);
  }
  lk.check("unpacking");
}
CHECK_DEF(C10, "exploration", "a case is one tree packed at one alignment in front of one kind of trailing bytes and unpacked by both builds; distinct_nontrivial counts distinct packed images") {
  static std::vector<T> U = universe(g_thorough ? 6 : 5, {"a", "b"}, true, 4);
  auto more = universe(g_thorough ? 5 : 4, {"a", "", "b"}, true, 3); U.insert(U.end(), more.begin(), more.end());
  suite("trees", U.size(), [&](uint64_t i) { c10_one(U[i]); if (i % 977 == 0) sample("{" + cdesc(U[i]) + "}"); }, "every tree with up to 5 (thorough 6) entries, with and without missing subtrees, x 9 alignments x 5 kinds of trailing bytes x both builds");
  static std::vector<T> S = special();
  suite("special", S.size(), [&](uint64_t i) { c10_one(S[i]); }, "trees with boundary key lengths (0..70000), all byte values, widths to 3000, depths to 1000");
  static auto ES = exact_sizes(9, g_thorough ? 1200 : 300, g_thorough ? 24 : 20, -2, 2);
  suite("exact-sizes", ES.size(), [&](uint64_t i) { c10_one(exact_tree(ES[i])); }, "a tree of every packed size from 9 to 300 (1200) bytes and within 2 bytes of every power of two up to 2^20 (2^24)");
  // counts around the widths of the integer types that could hold them
  static const std::vector<int> big = {127, 128, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000};
  suite("counts", big.size() * 2, [&](uint64_t i) {
    int n = big[i / 2]; T in; for (int k = 0; k < n; k++) in.k.push_back({sfmt("%d", k), T()}); T t; if (i % 2) { t.k.push_back({"before", parse("x")}); t.k.push_back({"wide", in}); t.k.push_back({"after", parse("y")}); } else t = in;
    Str p = enc_pack(t); vfs.reset(1); Leaks lk;
    for (int v = 0; v < 2; v++) { trace_begin(); TRACE("%s: %d entries in one level%s", API[v].name, n, i % 2 ? " below the top" : ""); n_eval();
      char* b = (char*)malloc(p.size()); memcpy(b, p.data(), p.size()); kvtree* h = kvtree_new(); size_t r = API[v].kvtree_unpack(b, h); CHECK(r == p.size(), "kvtree_unpack consumes %zu of %zu bytes of %d entries", r, p.size(), n); free(b);
      kvtree* w = i % 2 ? kvtree_get(h, "wide") : h; CHECK(kvtree_size(w) == n, "unpacking %d entries gives %d", n, kvtree_size(w));
      std::vector<bool> seen(n); for (kvtree_elem* e = kvtree_elem_first(w); e; e = kvtree_elem_next(e)) { int k = kvtree_elem_key_int(e); CHECK(k >= 0 && k < n && !seen[k] && sfmt("%d", k) == kvtree_elem_key(e) && kvtree_size(kvtree_elem_hash(e)) == 0, "unpacking %d entries gives the entry %s", n, quote(kvtree_elem_key(e)).c_str()); seen[k] = true; }
      if (i % 2) CHECK(kvtree_size(h) == 3 && kvtree_get(kvtree_get(h, "before"), "x") && kvtree_get(kvtree_get(h, "after"), "y"), "entries next to a level of %d are wrong", n);
      size_t sz = API[v].kvtree_pack_size(h); CHECK(sz == p.size(), "kvtree_pack_size gives %zu instead of %zu for %d entries", sz, p.size(), n);
      Str q(sz + 8, 'G'); size_t k = API[v].kvtree_pack(&q[0], h); CHECK(k == sz && q.substr(sz) == Str(8, 'G'), "kvtree_pack wrote %zu bytes instead of %zu", k, sz); T d; size_t at = 0; CHECK(dec_pack(q, at, d) && at == sz, "the packed bytes are not a complete tree"); CHECK((i % 2 ? d.get("wide")->k.size() : d.k.size()) == (size_t)n, "the packed bytes hold another number of entries");
      kvtree_delete(&h); n_valid(); outcome(fnv(&i, 8, v + 5)); }
    lk.check("packing many entries");
  }, "14 sizes of one level from 127 to 200000 entries, at the top and below it");
  // every insertion history of the same key set
  suite("orders", 120, [&](uint64_t i) {
    auto p = permutations(5)[i]; T t; for (int j : p) { T c; for (int q = 0; q < j % 3; q++) c.k.push_back({sfmt("%d", q), T()}); t.k.push_back({sfmt("k%d", j), c}); } c10_one(t);
  }, "all 120 insertion orders of 5 keys");
}

// ---------------------------------------------------------------------------
static void check_image(const Str& f, const T& want, const char* who) {
  T g; int r = dec_image(f, g);
  CHECK(r == 0, "%s: what was stored is not a well-formed image (%zu bytes: %s)", who, f.size(), quote(f).c_str());
  CHECK(canon(g) == canon(want), "%s: the image encodes {%s} instead of {%s}", who, cdesc(g).c_str(), cdesc(want).c_str());
  CHECK(f == enc_image(enc_pack(g)), "%s: the image is not byte for byte the documented layout", who);
}
static void c11_write(const T& t) {
  vfs.reset(1); Leaks lk; kvtree* h = build(t); Str o0 = ordered(observe(h)); T n = nonull(t);
  for (int v = 0; v < 2; v++) {
    const Api& A = API[v]; trace_begin(); TRACE("%s: storing {%s}", A.name, cdesc(t).c_str());
    void* b = nullptr; size_t sz = 0; n_eval(); CHECK(A.kvtree_write_persist(&b, &sz, h) == KVTREE_SUCCESS, "kvtree_write_persist failed"); Str img((char*)b, sz); harness_free(b); check_image(img, n, "kvtree_write_persist");
    for (int prev = 0; prev < 4; prev++) for (int w = 0; w < W_N; w++) {
      vfs.reset(1); if (prev) vfs.put("f", enc_image(enc_pack(prev == 1 ? parse("a") : prev == 2 ? wide(40, 10) : wide(700, 30)))); n_eval();
      CHECK(put_tree(A, w, "f", h), "%s failed", wname[w]); check_image(vfs.content("f"), n, wname[w]);
      CHECK(vfs.open_fds(0) == 0 && vfs.nlocks() == 0, "%s left a descriptor or lock", wname[w]); outcome(vfs.content("f")); n_valid();
    }
    vfs.reset(1); { int fd = vfs.add_foreign(0, "z", O_RDWR); ssize_t r = A.kvtree_write_fd("z", fd, h); n_eval(); check_image(vfs.content("z"), n, "kvtree_write_fd"); CHECK(r == (ssize_t)vfs.content("z").size(), "kvtree_write_fd returns %zd for %zu bytes", r, vfs.content("z").size());
      ssize_t r2 = A.kvtree_write_fd("z", fd, h); Str c = vfs.content("z"); CHECK(r2 == r && c.size() == 2 * (size_t)r && c.substr(r) == c.substr(0, r), "a second tree written to the same descriptor does not follow the first");
      vfs.procs[0].fds[fd]->pos = 0; kvtree* x = kvtree_new(); for (int k = 0; k < 2; k++) { kvtree_unset_all(x); ssize_t q = A.kvtree_read_fd("z", fd, x); CHECK(q == r, "kvtree_read_fd returns %zd instead of %zd", q, r); CHECK(canon(observe(x)) == canon(n), "reading tree %d of 2 from one descriptor gives {%s}", k + 1, cdesc(observe(x)).c_str()); }
      CHECK(A.kvtree_read_fd("z", fd, x) == 0, "kvtree_read_fd at the end of the file does not report an empty file"); kvtree_delete(&x); n_valid(); vfs.procs[0].fds.clear(); }
    // gather files
    std::vector<Str> names; static const Str large = enc_image(enc_pack(wide(150, 30)));   // the second time over larger files of the same names
    if (t.nodes() < 60) for (int per6 = 0; per6 < 6; per6++) {
      int per = per6 / 2; vfs.reset(1); if (per6 & 1) for (auto& nm : names) vfs.put(nm, large); T d; T g; for (int r = 0; r < 3; r++) d.k.push_back({sfmt("%d", r), t}); kvtree* x = build(d); if (per) setenv("KVTREE_ENTRIES_PER_FILE", sfmt("%d", per).c_str(), 1);
      CHECK(A.kvtree_write_to_gather("g", x, 3) == KVTREE_SUCCESS, "kvtree_write_to_gather failed"); unsetenv("KVTREE_ENTRIES_PER_FILE"); kvtree_delete(&x); n_eval();
      for (auto& e : vfs.names) if (!e.second->dir) { T q; CHECK(dec_image(e.second->data, q) == 0, "gather file %s is not a well-formed image", e.first.c_str()); CHECK(e.second->data == enc_image(enc_pack(q)), "gather file %s is not in the documented layout", e.first.c_str()); if (q.get("LEVEL") && q.get("LEVEL")->get("0")) for (auto& rk : q.get("RANK")->k) g.set(rk.first, rk.second); n_valid(); }
      names.clear(); for (auto& e : vfs.names) if (!e.second->dir) names.push_back(e.first);
      CHECK(canon(g) == canon(nonull(d)), "the gather files hold {%s} instead of {%s}", cdesc(g).c_str(), cdesc(d).c_str());
    }
    if (t.nodes() < 60) for (int n6 = 2; n6 < 8; n6++) {
      int n2 = n6 / 2; vfs.reset(n2); if (n6 & 1) for (auto& nm : names) vfs.put(nm, large); mpi_mode = MpiMode(); sched.pick = nullptr; T g, want; n_eval();
      mpi_run(n2, [&](int r) { T q = t; q.put(sfmt("rank%d", r)); kvtree* x = build(q); CHECK(A.kvtree_write_gather("g", x, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_write_gather failed"); kvtree_delete(&x); want.set(sfmt("%d", r), nonull(q)); });
      for (auto& e : vfs.names) if (!e.second->dir) { T q; CHECK(dec_image(e.second->data, q) == 0, "gather file %s is not a well-formed image", e.first.c_str()); CHECK(e.second->data == enc_image(enc_pack(q)), "gather file %s is not in the documented layout", e.first.c_str()); if (q.get("LEVEL") && q.get("LEVEL")->get("0")) for (auto& rk : q.get("RANK")->k) g.set(rk.first, rk.second); n_valid(); }
      names.clear(); for (auto& e : vfs.names) if (!e.second->dir) names.push_back(e.first);
      CHECK(canon(g) == canon(want), "the gather files hold {%s} instead of {%s}", cdesc(g).c_str(), cdesc(want).c_str());
    }
  }
  CHECK(ordered(observe(h)) == o0, "storing the tree changed it"); kvtree_delete(&h); lk.check("storing");
}
// reads file "f" with every reader; expects the tree (or, ok false, failure and an unchanged tree)
static void expect(const Str& f, const T* want, const char* what, bool both = true) {
  static const T had = parse("a(q) old(x(y))");
  for (int v = 0; v < (both ? 2 : 1); v++) for (int r = 0; r < R_N; r++) {
    vfs.reset(1); vfs.put("f", f); n_eval(); Leaks lk; kvtree* h = build(had);
    trace_begin(); TRACE("%s: %s of %s: %s", API[v].name, rname[r], what, quote(f).c_str());
    bool ok = get_tree(API[v], r, "f", h); T g = observe(h);
    if (want) { CHECK(ok, "%s rejects %s", rname[r], what); CHECK(canon(g) == canon(tunion(had, *want)), "%s reads %s as {%s} instead of {%s}", rname[r], what, cdesc(g).c_str(), cdesc(tunion(had, *want)).c_str()); }
    else { CHECK(!ok, "%s accepts %s", rname[r], what); CHECK(canon(g) == canon(had), "%s fails on %s but changed the tree to {%s}", rname[r], what, cdesc(g).c_str()); }
    CHECK(vfs.content("f") == f, "%s changed the file", rname[r]); CHECK(vfs.open_fds(0) == 0 && vfs.nlocks() == 0, "%s of %s left a descriptor or lock", rname[r], what);
    kvtree_delete(&h); lk.check(rname[r]); n_valid();
  }
}
static void exact_suite();
CHECK_DEF(C11, "exploration", "a case is one tree stored by one writer of one build, or one foreign image or header offered to one reader; distinct_nontrivial counts distinct images") {
  static std::vector<T> U = universe(g_thorough ? 5 : 4, {"a", "b"}, true, 3); auto m = universe(3, {"", "0", "10"}, true, 3); U.insert(U.end(), m.begin(), m.end());
  suite("writers", U.size(), [&](uint64_t i) { c11_write(U[i]); if (i % 301 == 0) sample("{" + cdesc(U[i]) + "}"); }, "every tree of the universe x every writer (buffer, plain, locked, read-modify-write, descriptor, serial and parallel gather) x 4 previous file contents x both builds");
  static std::vector<T> S = special(); S.push_back(wide(45, 30000));
  exact_suite();
  suite("special-writers", S.size(), [&](uint64_t i) { c11_write(S[i]); }, "trees with boundary key lengths, widths and depths");
  suite("foreign", U.size(), [&](uint64_t i) {
    T t = nonull(U[i]), rev = t; std::reverse(rev.k.begin(), rev.k.end());
    for (int c = 0; c < 2; c++) for (auto* x : {&t, &rev}) { Str img = enc_image(enc_pack(*x), c); outcome(img); expect(img, x, c ? "a foreign image with checksum" : "a foreign image without checksum"); if (c || true) expect(img + "trailing bytes", x, "an image followed by other bytes"); }
  }, "every tree of the universe encoded by an independent encoder, in two element orders, with and without checksum, alone and followed by other bytes");
  suite("foreign-special", S.size(), [&](uint64_t i) { T t = nonull(S[i]); if (t.depth() > 2000) return; for (int c = 0; c < 2; c++) { Str img = enc_image(enc_pack(t), c); outcome(img); expect(img, &t, "a foreign image"); } }, "the special trees encoded by an independent encoder");
  suite("foreign-orders", 120, [&](uint64_t i) { auto p = permutations(5)[i]; T t; for (int j : p) t.k.push_back({sfmt("k%d", j), parse("x(y) z")}); Str img = enc_image(enc_pack(t), i & 1); expect(img, &t, "a foreign image"); outcome(img); }, "all 120 element orders of a foreign image");
  static const std::vector<size_t> huges = g_thorough ? std::vector<size_t>{((size_t)1 << 32) + 12345, ((size_t)1 << 31) + 77, (size_t)1 << 32, ((size_t)1 << 32) + 3, 3 * ((size_t)1 << 31) + 5} : std::vector<size_t>{((size_t)1 << 32) + 12345, ((size_t)1 << 31) + 77};
  suite("huge", huges.size() * 2, [&](uint64_t i) { size_t z = huges[i / 2]; if (i & 1) huge::load(z, {}, z, "undamaged"); else huge::store(z); }, "images of more than 2 and 4 GiB: stored by the library and compared byte for byte, and read back");
  // headers
  suite("headers", 64 + 65536 * 2, [&](uint64_t i) {
    Str body = enc_pack(parse("a(b)")); uint32_t magic = 0x951fc3f5u; unsigned type = 1, ver = 1; Str what;
    if (i < 32) { magic ^= 1u << i; what = sfmt("magic %#x", magic); }
    else if (i < 64) { static const uint32_t M[32] = {0, 1, ~0u, 0xf5c31f95u, 0x1f95f5c3u, 0xc3f5951fu, 0x951fc3f4u, 0x951fc3f6u, 0x7fffffffu, 0x80000000u, 0x951f0000u, 0x0000c3f5u, 0x95000000u, 0x000000f5u, 0x951fc300u, 0x001fc3f5u}; magic = M[i - 32 < 16 ? i - 32 : 0] + (i >= 48 ? i : 0); what = sfmt("magic %#x", magic); }
    else if (i < 64 + 65536) { type = i - 64; what = sfmt("type %u", type); if (type == 1) return; }
    else { ver = i - 64 - 65536; what = sfmt("version %u", ver); if (ver == 1) return; }
    for (int c = 0; c < 2; c++) { Str img = enc_image_raw(magic, type, ver, 20 + body.size() + 4 * c, c, body, c); if (i < 400 || i > 131000 || i % 64 == 0 || g_thorough || !c) expect(img, nullptr, what.c_str(), i % 16 == 0); outcome(img); }
  }, "every single-bit change and boundary value of the magic, every other type and every other version number, with checksums that match");
}

// ---------------------------------------------------------------------------
// C12
// an image of exactly n bytes: by every writer, over nothing and over another file, read back by every reader
static void exact_image(size_t n, uint64_t k) {
  T t = exact_tree(n - 24), had = parse("a(q) old(x(y))"); Leaks lk; kvtree* h = build(t);
  for (int v = 0; v < 2; v++) {
    const Api& A = API[v]; trace_begin(); TRACE("%s: an image of %zu bytes", A.name, n);
    void* b = nullptr; size_t sz = 0; CHECK(A.kvtree_write_persist(&b, &sz, h) == KVTREE_SUCCESS && sz == n, "kvtree_write_persist gives %zu of %zu bytes", sz, n); Str img((char*)b, sz); harness_free(b); n_eval(); check_image(img, t, "kvtree_write_persist");
    for (int w = 0; w <= W_N; w++) {
      vfs.reset(1); if ((k + w) % 3) vfs.put("f", (k + w) % 3 == 1 ? img + "x" : enc_image(enc_pack(parse("a")))); n_eval();
      if (w < W_N) CHECK(put_tree(A, w, "f", h), "%s failed", wname[w]); else { if ((k + w) % 3) vfs.reset(1); int fd = vfs.add_foreign(0, VROOT "/f", O_RDWR | O_CREAT); CHECK(A.kvtree_write_fd("f", fd, h) == (ssize_t)n, "kvtree_write_fd"); vfs.procs[0].fds.erase(fd); }
      CHECK(vfs.content("f") == img, "%s does not store the image kvtree_write_persist gives", w < W_N ? wname[w] : "kvtree_write_fd"); n_valid(); outcome(n * 10 + v * 5 + w);
    }
    for (int r = 0; r < R_N; r++) { kvtree* x = build(had); CHECK(get_tree(A, r, "f", x), "%s fails", rname[r]); T g = observe(x); CHECK(canon(g) == canon(tunion(had, t)), "%s yields {%s}", rname[r], cdesc(g).c_str()); kvtree_delete(&x); n_eval(); n_valid(); }
    CHECK(vfs.content("f") == img && vfs.open_fds(0) == 0 && vfs.nlocks() == 0, "reading changed the file, or left a descriptor or lock");
  }
  kvtree_delete(&h); lk.check("storing and reading");
}
// two files whose names differ in the last character only: what one holds never shows in the other
static void named_files(const Str& a, const Str& b, uint64_t k) {
  T ta = parse("a(b(c))"), tb = parse("x y(z) long-key-of-the-other-file(v)"), had = parse("a(q) old(x(y))");
  for (int v = 0; v < 2; v++) for (int w = 0; w < W_N; w++) for (int rd = 0; rd < R_N; rd++) {
    const Api& A = API[v]; trace_begin(); TRACE("%s: %s and %s of files named %s and %s (%zu characters)", A.name, wname[w], rname[rd], quote(a.substr(0, 60)).c_str(), quote(b.substr(0, 60)).c_str(), a.size()); vfs.reset(1); size_t sl = a.rfind('/'); if (sl != Str::npos) vfs.put(a.substr(0, sl) + "/keep", "x"); n_eval(); Leaks lk;
    kvtree* x = kvtree_new(); if (rd != R_OPEN) CHECK(!get_tree(A, R_FILE, a.c_str(), x) && kvtree_size(x) == 0, "a missing file can be read"); kvtree_delete(&x);
    kvtree *ha = build(ta), *hb = build(tb); CHECK(put_tree(A, w, a.c_str(), ha), "%s failed", wname[w]); CHECK(put_tree(A, (w + k) % W_N, b.c_str(), hb), "%s failed", wname[(w + k) % W_N]); kvtree_delete(&ha); kvtree_delete(&hb);
    check_image(vfs.content(a), ta, wname[w]); check_image(vfs.content(b), tb, wname[w]);
    for (int z = 0; z < 2; z++) { kvtree* y = build(had); CHECK(get_tree(A, rd, (z ? b : a).c_str(), y), "%s fails", rname[rd]); CHECK(canon(observe(y)) == canon(tunion(had, z ? tb : ta)), "%s yields another tree", rname[rd]); kvtree_delete(&y); }
    int nf = 0; for (auto& f : vfs.names) if (!f.second->dir && f.first.find("keep") == Str::npos) nf++; CHECK(nf == 2, "%d files instead of the two written", nf);
    CHECK(vfs.open_fds(0) == 0 && vfs.nlocks() == 0, "a descriptor or lock is left"); lk.check("writing and reading"); n_valid(); outcome(fnv(a) + v * 64 + w * 8 + rd);
  }
}
static void exact_suite() {
  static auto ES = exact_sizes(33, g_thorough ? 9000 : 4200, g_thorough ? 23 : 20, -3, 3);
  suite("exact-sizes", (ES.size() + 7) / 8, [&](uint64_t b) { for (size_t i = b * 8; i < std::min(ES.size(), (size_t)b * 8 + 8); i++) exact_image(ES[i], i); }, "an image of every size from 33 to 4200 (9000) bytes and within 3 bytes of every power of two up to 2^20 (2^23), by every writer, read by every reader");
}
struct FileWorld {
  static std::vector<T>& trees() { static std::vector<T> v = {parse(""), parse("a"), parse("a(b)"), parse("b(a c)"), parse("big(value1 value2 value3(deep(er)))"), wide(30, 9)}; return v; }
  void exact(const char* who) { if (!real) check_image(vfs.content("f"), nonull(cur), who); }
  static bool real; bool init_ok = true; T cur; bool any = false; Str path = "f";
  FileWorld() { vfs.reset(1); }
  enum { NWR = 0 };
  static int nw() { return trees().size() * W_N * 2; }
  static int nops() { return nw() + 3 * 2 + 4; }
  static Str opname(int o) {
    if (o < nw()) return sfmt("%s: %s of {%s}", API[o % 2].name, wname[o / 2 % W_N], cdesc(trees()[o / 2 / W_N]).c_str());
    o -= nw(); if (o < 6) return sfmt("%s: read, modify (%s) and write back", API[o % 2].name, o / 2 == 0 ? "add" : o / 2 == 1 ? "remove" : "replace");
    return o == 6 ? "close an opened file without writing" : o == 7 ? "read into a tree" : o == 8 ? "kvtree_read_with_lock of the file" : "kvtree_read_file of the file";
  }
  Str key() { return vfs.exists(VROOT "/f") ? "F" + vfs.content("f") : "-"; }
  void read_all(const char* when) {
    static const T had = parse("a(mine) other(c(d)) big");
    for (int v = 0; v < 2; v++) for (int r = 0; r < R_N; r++) for (int pre = 0; pre < 2; pre++) {
      if (!any && r == R_FILE) continue;
      if (!any) continue;
      Str before = real ? "" : vfs.content("f"); kvtree* h = pre ? build(had) : kvtree_new(); bool ok = get_tree(API[v], r, "f", h); T g = observe(h); kvtree_delete(&h);
      CHECK(ok, "%s fails %s", rname[r], when); T want = pre ? tunion(had, cur) : cur;
      CHECK(canon(g) == canon(want), "%s %s yields {%s} instead of {%s}", rname[r], when, cdesc(g).c_str(), cdesc(want).c_str());
      if (!real) CHECK(vfs.content("f") == before, "%s changed the file", rname[r]);
    }
    if (!real) CHECK(vfs.open_fds(0) == 0 && vfs.nlocks() == 0, "a descriptor or lock is left");
  }
  bool apply(int o, bool check) {
    int64_t base = heap.live; Str nm = opname(o);
    if (o < nw()) {
      T t = trees()[o / 2 / W_N]; kvtree* h = build(t); CHECK(put_tree(API[o % 2], o / 2 % W_N, "f", h), "%s failed", nm.c_str()); CHECK(canon(observe(h)) == canon(t), "%s changed the tree", nm.c_str()); kvtree_delete(&h); cur = t; any = true; exact(nm.c_str());
    } else if ((o -= nw()) < 6) {
      const Api& A = API[o % 2]; kvtree* h = kvtree_new(); int fd = -1; CHECK(A.kvtree_lock_open_read("f", &fd, h) == KVTREE_SUCCESS, "kvtree_lock_open_read failed"); if (any) CHECK(canon(observe(h)) == canon(cur), "kvtree_lock_open_read yields {%s} instead of {%s}", cdesc(observe(h)).c_str(), cdesc(cur).c_str());
      if (!any) CHECK(kvtree_size(h) == 0, "reading a new file yields entries");
      if (o / 2 == 0) { if (cur.nodes() > 40) { kvtree_delete(&h); vf_close(fd); return false; } kvtree_set_kv(h, "added", "value"); cur.put("added").put("value"); }
      else if (o / 2 == 1) { if (cur.k.empty()) { kvtree_delete(&h); vf_close(fd); return false; } Str k = cur.k.back().first; kvtree_unset(h, k.c_str()); cur.del(k); }
      else { kvtree_util_set_str(h, "a", "0123456789"); T n; n.put("0123456789"); cur.set("a", n); }
      CHECK(A.kvtree_write_close_unlock("f", &fd, h) == KVTREE_SUCCESS && fd == -1, "kvtree_write_close_unlock failed"); kvtree_delete(&h); any = true; exact(nm.c_str());
    } else {
      if (!any) return false;
      kvtree* h = build(parse("x")); bool ok;
      if (o == 6) ok = get_tree(API[0], R_OPEN, "f", h); else if (o == 7) ok = get_tree(API[1], R_OPEN, "f", h); else if (o == 8) ok = get_tree(API[0], R_LOCK, "f", h); else ok = get_tree(API[0], R_FILE, "f", h);
      CHECK(ok, "%s failed", nm.c_str()); CHECK(canon(observe(h)) == canon(tunion(parse("x"), cur)), "%s yields {%s}", nm.c_str(), cdesc(observe(h)).c_str()); kvtree_delete(&h);
    }
    if (check) read_all(sfmt("after %s", nm.c_str()).c_str());
    CHECK(heap.live == base, "%s: %lld blocks are left", nm.c_str(), (long long)(heap.live - base));
    return true;
  }
  void finish(bool) {}
};
bool FileWorld::real = false;
extern void vfs_real_root(const Str&);
CHECK_DEF(C12, "model_checking", "a state is a file content reached by some history of writers of both builds; after each, every reader of both builds reads it into an empty and a filled tree; distinct_nontrivial counts distinct file contents and histories") {
  bfs<FileWorld>("history", "every writer (plain, locked, read-modify-write) with 6 trees of different sizes from every reachable file content", g_thorough ? 7 : 4, g_thorough ? 60000 : 4000, 8);
  // without merging equal contents: all histories of length 3 (nothing outside the file may matter)
  uint64_t n = FileWorld::nops();
  suite("all-histories", n * n, [&](uint64_t i) {
    for (int c = 0; c < (int)n; c++) { trace_begin(); FileWorld w; int ops[3] = {(int)(i / n), (int)(i % n), c}; bool ok = true; for (int k = 0; k < 3 && ok; k++) { TRACE("%s", FileWorld::opname(ops[k]).c_str()); ok = w.apply(ops[k], k == 2); } n_eval(); if (ok) { n_valid(); outcome(w.key()); } n_trans(); if (!g_thorough && c % 5 != (int)(i % 5) && c < FileWorld::nw()) continue; }
  }, "all histories of three operations, without merging equal file contents");
  exact_suite();
  static std::vector<std::pair<Str, Str>> NM; for (const char* n : {"a b", "%s%n%d", "100%", "%1000000d", "*?[x]{y}~", "x,y;z&\"'", "./f", ".f", "-", "--", "d/e/f", "d//e/./f", "\x80\xff", "a\nb", "a\\b", "f.0.0", "f.tmp", "f.lock"}) NM.push_back({Str(n) + "1", Str(n) + "2"});
  for (int len : {30, 31, 32, 33, 62, 63, 64, 65, 98, 99, 100, 126, 127, 128, 129, 198, 199, 200, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 2000, 2046, 2047, 2048, 2049, 3000, 4000, 4080}) { Str p; while ((int)p.size() + 240 < len) p += Str(200, 'd') + "/"; while ((int)p.size() < len - 1) p += 's'; NM.push_back({p + "1", p + "2"}); }
  suite("names", NM.size(), [&](uint64_t i) { named_files(NM[i].first, NM[i].second, i); }, "pairs of names of 2 to 4080 characters, with directories and special characters, that differ in the last character");
  suite("descriptors", 7, [&](uint64_t i) { vfs.free_low = i + 1; for (size_t n : {24, 40, 100, 5000}) exact_image(n < 33 ? 33 : n, n); named_files("f1", "f2", i); vfs.free_low = 0; }, "some of the descriptors 0 to 2 free, so that files get them");
  // a tree over a file of any other size: the file ends up as if it had been new
  static std::vector<T> Z = {parse(""), parse("a"), parse("a(b)"), wide(30, 9), wide(200, 20), wide(300, 20), wide(700, 30), wide(2500, 30), wide(40, 30000)};
  suite("resize", Z.size() * Z.size(), [&](uint64_t i) {
    const T &a = Z[i / Z.size()], &b = Z[i % Z.size()];
    for (int v = 0; v < 2; v++) for (int w0 = 0; w0 < W_N; w0++) for (int w = 0; w < W_N; w++) {
      if (w0 != W_FILE && w0 != w) continue;
      trace_begin(); TRACE("%s: %s of %zu entries, %s of %zu entries", API[v].name, wname[w0], a.nodes(), wname[w], b.nodes()); vfs.reset(1); n_eval();
      kvtree *x = build(a), *y = build(b); CHECK(put_tree(API[v], w0, "f", x), "write"); CHECK(put_tree(API[v], w, "f", y), "%s over a file of %zu bytes", wname[w], vfs.content("f").size()); del(x); del(y);
      check_image(vfs.content("f"), b, wname[w]); n_valid(); n_trans(); outcome(i * 100 + v * 50 + w0 * 10 + w);
      for (int r = 0; r < R_N; r++) { kvtree* h = kvtree_new(); CHECK(get_tree(API[v], r, "f", h) && canon(observe(h)) == canon(b), "%s after %s over a file of another size", rname[r], wname[w]); del(h); }
    }
  }, "every ordered pair of 9 trees of 24 bytes to 1.2 MB, written one over the other by every writer: the file is exactly the second image");
  // several files, interleaved: what is written to one file never shows in another
  suite("two-files", 6 * 6, [&](uint64_t i) {
    auto& tr = FileWorld::trees();
    for (int w1 = 0; w1 < W_N; w1++) for (int w2 = 0; w2 < W_N; w2++) for (int r = 0; r < R_N; r++) {
      vfs.reset(1); n_eval(); kvtree *a = build(tr[i / 6]), *b = build(tr[i % 6]); kvtree* old = kvtree_new(); int fd = -1;
      if (w1 == W_RMW) { CHECK(API[0].kvtree_lock_open_read("f", &fd, old) == KVTREE_SUCCESS, "open"); CHECK(put_tree(API[0], w2, "g", b), "write"); CHECK(API[0].kvtree_write_close_unlock("f", &fd, a) == KVTREE_SUCCESS, "write back"); }
      else { CHECK(put_tree(API[0], w1, "f", a), "write"); CHECK(put_tree(API[1], w2, "g", b), "write"); }
      kvtree *x = kvtree_new(), *y = kvtree_new(); CHECK(get_tree(API[0], r, "f", x) && get_tree(API[0], r, "g", y), "read"); CHECK(canon(observe(x)) == canon(tr[i / 6]) && canon(observe(y)) == canon(tr[i % 6]), "two files are mixed up"); del(a); del(b); del(x); del(y); del(old); n_valid();
    }
  }, "pairs of files written in an interleaved way");
  // the same histories on a real file system
  static Str D = scratch_dir();
  suite("kernel", n, [&](uint64_t i) {
    for (int c = 0; c < (int)n; c += g_thorough ? 1 : 3) {
      Str sub = D + sfmt("/%d-%llu", (int)getpid(), (unsigned long long)i); mkdir(sub.c_str(), 0755); vfs_real_root(sub); umask(022);
      FileWorld v; bool ok1 = v.apply(i, false) && v.apply(c, true); Str img = v.key(); trace_begin(); TRACE("on the kernel's file system: %s; %s", FileWorld::opname(i).c_str(), FileWorld::opname(c).c_str());
      g_real_fs = true; FileWorld::real = true; bool ok2; { FileWorld w; ok2 = w.apply(i, false) && w.apply(c, true); } g_real_fs = false; FileWorld::real = false;
      FILE* f = fopen((sub + "/f").c_str(), "rb"); Str got = "-"; if (f) { got = "F"; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) got.append(b, k); fclose(f); }
      unlink((sub + "/f").c_str()); rmdir(sub.c_str());
      if (ok1 != ok2 || (ok1 && got != img)) harness_error("the in-memory file system and the kernel disagree on %s; %s", FileWorld::opname(i).c_str(), FileWorld::opname(c).c_str());
      n_eval(); n_valid();
    }
  }, "histories of two operations replayed on the kernel's file system: same results, same bytes");
  assumption("the in-memory file system answers as the kernel's does (replayed by the kernel suite)");
}

// ---------------------------------------------------------------------------
// C13
static std::vector<T> c13_trees() { std::vector<T> v = {parse("a(b)"), parse("a(b(c) d) e(f)"), parse(""), parse("key(value) other(1 2 3) x(y(z(w)))"), parse("RANK(0(FILE(f) OFFSET(0)) 1(FILE(g) OFFSET(77)))")}; return v; }
static void damaged(const Str& good, const Str& bad, const T& t, const Str& what, int variants = 2) {
  if (bad == good) return;
  static const T hads[2] = {parse(""), parse("a(q) old(x(y)) key(z)")};
  for (int v = 0; v < variants; v++) for (int r = 0; r < R_N; r++) for (int h0 = (r == R_FILE ? 0 : 1); h0 < 2; h0++) {
    const T& had = hads[h0]; vfs.reset(1); vfs.put("f", bad); n_eval(); Leaks lk; kvtree* h = build(had);
    trace_begin(); TRACE("%s: %s of an image of {%s} with %s", API[v].name, rname[r], cdesc(t).c_str(), what.c_str());
    bool ok = get_tree(API[v], r, "f", h); T g = observe(h);
    if (bad.empty()) { CHECK(ok && canon(g) == canon(had), "%s does not read an empty file as an empty tree", rname[r]); }
    else if (ok) CHECK(canon(g) == canon(tunion(had, t)), "%s reads an image of {%s} with %s as {%s}", rname[r], cdesc(t).c_str(), what.c_str(), cdesc(g).c_str());
    else CHECK(canon(g) == canon(had), "%s rejects an image with %s but changed the tree to {%s}", rname[r], what.c_str(), cdesc(g).c_str());
    CHECK(vfs.open_fds(0) == 0 && vfs.nlocks() == 0, "%s left a descriptor or lock", rname[r]); CHECK(vfs.content("f") == bad, "%s changed the file", rname[r]);
    kvtree_delete(&h); lk.check(rname[r]); n_valid(); outcome(fnv(what) ^ (uint64_t)ok * 77 ^ fnv(good));
  }
}
// the image the library itself stores; it must read back
static Str stored(const T& t) { kvtree* h = build(t); void* b = nullptr; size_t n = 0; CHECK(API[0].kvtree_write_persist(&b, &n, h) == KVTREE_SUCCESS, "kvtree_write_persist failed"); Str s((char*)b, n); harness_free(b); kvtree_delete(&h); return s; }
static bool clears_crc(const Str& good, const Str& bad) { return bad.size() > 19 && (good[19] & 1) && !(bad[19] & 1); }
CHECK_DEF(C13, "exploration", "a case is one alteration of one stored image offered to one reader of one build; distinct_nontrivial counts distinct (image, alteration, accepted or not)") {
  static std::vector<T> trees = c13_trees(); static std::vector<Str> imgs;
  static std::vector<T> more = universe(g_thorough ? 4 : 3, {"a", "b"}, false, 3); for (auto& t : more) trees.push_back(t);
  T big = wide(300, 20); trees.push_back(big);
  imgs = suite_map("images", trees.size(), [&](uint64_t i) { return stored(trees[i]); }, "the images are those the library stores");
  size_t nbig = trees.size() - 1;
  suite("whole", trees.size(), [&](uint64_t i) { for (int v = 0; v < 2; v++) for (int r = 0; r < R_N; r++) { vfs.reset(1); vfs.put("f", imgs[i]); trace_begin(); TRACE("%s: %s of an undamaged file {%s}", API[v].name, rname[r], cdesc(trees[i]).c_str()); kvtree* h = kvtree_new(); CHECK(get_tree(API[v], r, "f", h) && canon(observe(h)) == canon(trees[i]), "%s does not read back what was stored", rname[r]); kvtree_delete(&h); n_eval(); } }, "every image undamaged");
  suite("truncation", trees.size(), [&](uint64_t i) { for (size_t n = 0; n < imgs[i].size(); n++) damaged(imgs[i], imgs[i].substr(0, n), trees[i], sfmt("only the first %zu of %zu bytes", n, imgs[i].size())); for (const char* add : {"\0", "x", "\xff\xff\xff\xff", "abcdefghijklmnopqrstuvwxyz"}) damaged(imgs[i], imgs[i] + Str(add, strlen(add) ? strlen(add) : 1), trees[i], "bytes appended"); }, "every truncation of every image, and appended bytes");
  { static const size_t z = ((size_t)1 << 32) + 12345; static std::vector<size_t> at = {z - 6, (size_t)1 << 31}; if (g_thorough) { at.push_back(30); at.push_back(20000); at.push_back(((size_t)1 << 32) + 7); at.push_back(z - 1); }
    suite("huge", at.size() + 1, [&](uint64_t i) { if (i < at.size()) huge::load(z, {{at[i], 0x10}}, z, sfmt("one bit of byte %zu flipped", at[i])); else huge::load(z, {}, z - 1, "the last byte missing"); }, "an image of more than 4 GiB with one bit flipped, and truncated"); }
  static auto ES = exact_sizes(33, g_thorough ? 9000 : 4200, g_thorough ? 22 : 19, -3, 3);
  suite("exact-sizes", (ES.size() + 7) / 8, [&](uint64_t b) { for (size_t i = b * 8; i < std::min(ES.size(), (size_t)b * 8 + 8); i++) {
    T t = exact_tree(ES[i] - 24); Str g = stored(t); size_t n = g.size(); if (n != ES[i]) fail("the image of a tree that packs into %zu bytes has %zu bytes", ES[i] - 24, n);
    for (size_t p : {(size_t)12, (size_t)15, (size_t)20, n / 2, n - 13, n - 9, n - 8, n - 7, n - 6, n - 5, n - 4, n - 1}) { Str s = g; s[p] ^= 1 << i % 8; damaged(g, s, t, sfmt("bit %zu of byte %zu of %zu flipped", i % 8, p, n), 1); }
    for (size_t cut : {(size_t)1, (size_t)4, (size_t)5, n / 2}) damaged(g, g.substr(0, n - cut), t, sfmt("only %zu of %zu bytes", n - cut, n), 1);
    Str s = g; for (size_t q = n - 6; q < n; q++) s[q] = 0; damaged(g, s, t, "the last 6 bytes zeroed", 1); s = g; std::swap(s[n - 6], s[n - 9]); damaged(g, s, t, "two bytes swapped", 1); } },
    "images of every size from 33 to 4200 (9000) bytes and within 3 bytes of every power of two up to 2^19 (2^22): damage in the size, at the start, in the middle and in each of the last bytes, and cut off");
  suite("bits", trees.size() * 32, [&](uint64_t c) { size_t i = c / 32; const Str& g = imgs[i]; for (size_t b = c % 32; b < g.size() * 8; b += 32) { Str s = g; s[b / 8] ^= 1 << b % 8; damaged(g, s, trees[i], sfmt("bit %zu of byte %zu flipped", b % 8, b / 8), i == nbig ? 1 : 2); } }, "every single-bit change of every image");
  suite("bytes", 5 * 256, [&](uint64_t i) { const Str& g = imgs[i / 256]; for (size_t p = 0; p < g.size(); p++) { Str s = g; s[p] = (char)(i % 256); damaged(g, s, trees[i / 256], sfmt("byte %zu set to %#llx", p, (unsigned long long)i % 256)); } }, "every value of every byte of five images");
  suite("two-bits", 5 * 64, [&](uint64_t i) {
    const Str& g = imgs[i / 64]; size_t nb = g.size() * 8;
    for (size_t a = i % 64; a < nb; a += 64) for (size_t b = a + 1; b < nb; b++) { if (!g_thorough && i / 64 > 2 && b - a > 40) continue; Str s = g; s[a / 8] ^= 1 << a % 8; s[b / 8] ^= 1 << b % 8; if (clears_crc(g, s)) continue; damaged(g, s, trees[i / 64], sfmt("bits %zu and %zu flipped", a, b), 1); }
  }, "every pair of flipped bits that leaves the checksum flag set (quick: on two of five images only pairs at most 40 bits apart)");
  suite("runs", 5 * 16, [&](uint64_t i) {
    const Str& g = imgs[i / 16]; size_t len = 2 + i % 16; if (len > (g_thorough ? 17u : 12u)) return;
    for (size_t p = 0; p + len <= g.size(); p++) for (int pat = 0; pat < 9; pat++) {
      Str s = g; for (size_t k = 0; k < len; k++) { char& c = s[p + k]; switch (pat) { case 0: c = 0; break; case 1: c = (char)0xff; break; case 2: c ^= 0xff; break; case 3: c ^= 1; break; case 4: c = 'a'; break; case 5: c ^= 0x80; break; case 6: c = g[(p + k + 1) % g.size()]; break; case 7: c = g[p + len - 1 - k]; break; default: c = g[p + k ? p + k - 1 : 0]; } }
      if (clears_crc(g, s)) continue; damaged(g, s, trees[i / 16], sfmt("bytes %zu to %zu altered (pattern %d)", p, p + len - 1, pat), 1);
    }
    // bytes lost or doubled in the middle
    for (size_t p = 0; p + len <= g.size(); p++) { Str s = g.substr(0, p) + g.substr(p + len); if (!clears_crc(g, s)) damaged(g, s, trees[i / 16], sfmt("bytes %zu to %zu lost", p, p + len - 1), 1); s = g.substr(0, p + len) + g.substr(p); if (!clears_crc(g, s)) damaged(g, s, trees[i / 16], sfmt("bytes %zu to %zu doubled", p, p + len - 1), 1); }
  }, "every run of 2 to 12 (thorough 17) bytes overwritten with 9 patterns, lost or doubled, that leaves the checksum flag set");
  suite("bursts", 3 * 64, [&](uint64_t i) {
    const Str& g = imgs[i / 64]; int nb = g.size() * 8;        // all bursts of up to 12 bits
    for (int a = i % 64; a < nb; a += 64) { int w = g_thorough ? 14 : 9; for (unsigned m = 1; m < (1u << w); m += 2) { Str s = g; bool in = true; for (int k = 0; k < w; k++) if (m >> k & 1) { if (a + k >= nb) { in = false; break; } s[(a + k) / 8] ^= 0x80 >> (a + k) % 8; } if (!in || clears_crc(g, s)) continue; damaged(g, s, trees[i / 64], sfmt("burst %#x at bit %d", m, a), 1); } }
  }, "every burst error of up to 9 (thorough 14) bits");
  // images larger than any buffer a reader or the checksum might work through at once
  static std::vector<T> large = {wide(250, 20), wide(700, 20), wide(1400, 60), wide(2000, 600), chain(900, 1, Str(90, 'c'))}; static std::vector<Str> limg; limg = suite_map("large-images", large.size(), [&](uint64_t i) { return stored(large[i]); }, "the images are those the library stores");
  suite("large", large.size() * 48, [&](uint64_t c) {
    size_t i = c / 48; const Str& g = limg[i]; std::vector<size_t> at;
    for (size_t b = 0; b < g.size(); b += 512) for (int d : {-1, 0, 200}) if ((int64_t)b + d >= 0 && b + d < g.size()) at.push_back(b + d);
    for (size_t q = 1; q <= 12; q++) at.push_back(g.size() - q);
    size_t step = at.size() > 480 ? at.size() / 480 : 1; if (g_thorough) step = 1;   // every sector of the smaller images, every n-th of the largest
    for (size_t k = c % 48; k < at.size(); k += 48) { if (step > 1 && k / 48 % step && k + 96 < at.size()) continue; size_t p = at[k]; Str s = g;
      s[p] ^= 1; damaged(g, s, large[i], sfmt("byte %zu of %zu changed", p, g.size()), 1);
      s = g; for (size_t q = p; q < p + 512 && q < g.size(); q++) s[q] = 0; if (!clears_crc(g, s)) damaged(g, s, large[i], sfmt("512 bytes from %zu zeroed", p), 1);
      s = g; for (size_t q = p; q < g.size(); q++) s[q] = 0; if (!clears_crc(g, s)) damaged(g, s, large[i], sfmt("everything from byte %zu zeroed", p), 1);
      damaged(g, g.substr(0, p), large[i], sfmt("only %zu of %zu bytes", p, g.size()), 1); }
  }, "images of 8 KB to 1.2 MB: a byte changed, a sector lost, the rest zeroed or cut off at every sector of the file and around it (quick: a part of the sectors of the largest)");
  assumption("an alteration that also clears the checksum flag turns the image into a legal one without checksum (documented format) and is left out, except single-bit and single-byte changes");
}

// ---------------------------------------------------------------------------
// C14
static bool dups(const T& t) { std::set<Str> s; for (auto& e : t.k) if (!s.insert(e.first).second || dups(e.second)) return true; return false; }
static T fold(const T& t) { T o; for (auto& e : t.k) { T f = fold(e.second); T* x = o.get(e.first); if (x) *x = tunion(*x, f); else o.k.push_back({e.first, f}); } return o; }
static void hostile(const Str& f, const Str& what, int variants = 1, int readers = R_N) {
  static const T had = parse("a(q) old(x(y))");
  T t; int want = dec_image(f, t);
  for (int v = 0; v < variants; v++) for (int r = 0; r < readers; r++) {
    vfs.reset(1); auto ino = vfs.put("f", f); n_eval(); Leaks lk; kvtree* h = build(had);
    trace_begin(); TRACE("%s: %s of %s: %s", API[v].name, rname[r], what.c_str(), quote(f).c_str());
    bool ok = get_tree(API[v], r, "f", h); T g = observe(h);
    if (want < 0) { CHECK(!ok, "%s accepts contents that are not a complete tree (%s)", rname[r], what.c_str()); CHECK(canon(g) == canon(had), "%s rejects the contents but changed the tree", rname[r]); }
    else if (want == 1) CHECK(ok && canon(g) == canon(had), "an empty file is not read as an empty tree");
    else { CHECK(ok, "%s rejects contents that are a complete tree (%s)", rname[r], what.c_str()); if (!dups(t)) CHECK(canon(g) == canon(tunion(had, t)), "%s reads {%s} instead of {%s}", rname[r], cdesc(g).c_str(), cdesc(tunion(had, t)).c_str()); else { T fo = tunion(had, fold(t)); std::set<Str> a, b; for (auto& e : fo.k) a.insert(e.first); for (auto& e : g.k) b.insert(e.first); CHECK(a == b && !dups(g), "%s reads repeated keys as {%s}", rname[r], cdesc(g).c_str()); } }
    CHECK(vfs.open_fds(0) == 0 && vfs.nlocks() == 0, "%s left a descriptor or lock", rname[r]); CHECK(ino->data == f, "%s changed the file", rname[r]);
    kvtree_delete(&h); lk.check(rname[r]); n_valid(); outcome(fnv(f) ^ (uint64_t)ok);
  }
}
static const uint64_t SZ[] = {0, 1, 4, 15, 19, 20, 21, 22, 23, 24, 25, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000014ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000018ull, ~0ull, ~0ull - 3, ~0ull - 23};
CHECK_DEF(C14, "exploration", "a case is one file content offered to one reader; the oracle is an independent bounds-checking decoder; distinct_nontrivial counts distinct contents with their verdict") {
  static const unsigned char AL[] = {0, 1, 2, 3, 'a', 0x80, 0xff};
  int L = g_thorough ? 8 : 6; uint64_t total = 1; for (int i = 0; i < L; i++) total *= sizeof AL; uint64_t chunk = 2401;
  suite("bodies", total / chunk, [&](uint64_t c) {
    for (uint64_t i = c * chunk; i < (c + 1) * chunk; i++) {
      Str b; uint64_t x = i; for (int k = 0; k < L; k++) { b += (char)AL[x % sizeof AL]; x /= sizeof AL; }
      hostile(enc_image(b, false), "a body without checksum", 1, 1); hostile(enc_image(b, true), "a body with a correct checksum", 1, 1);
    }
  }, "every body of 6 (thorough 8) bytes over {0,1,2,3,'a',0x80,0xff} with a well-formed header, with and without checksum");
  suite("short-bodies", 6, [&](uint64_t n) {
    uint64_t tot = 1; for (uint64_t i = 0; i < n; i++) tot *= sizeof AL;
    for (uint64_t i = 0; i < tot; i++) { Str b; uint64_t x = i; for (uint64_t k = 0; k < n; k++) { b += (char)AL[x % sizeof AL]; x /= sizeof AL; } for (int c = 0; c < 2; c++) hostile(enc_image(b, c), "a short body", 2); }
  }, "every body of 0 to 5 bytes over the same alphabet, every reader, both builds");
  // count-led bodies: a plausible count, then arbitrary bytes
  suite("counted", 4 * 343, [&](uint64_t i) {
    uint32_t cnt = 1 + i / 343 % 4; uint64_t x0 = i % 343;
    for (uint64_t j = 0; j < 343; j++) { Str b = be32(cnt == 4 ? 0x01000000 : cnt); uint64_t x = x0, y = j; for (int k = 0; k < 3; k++) { b += (char)AL[x % 7]; x /= 7; } for (int k = 0; k < 3; k++) { b += (char)AL[y % 7]; y /= 7; } for (int tail = 0; tail < 3; tail++) for (int c = 0; c < 2; c++) hostile(enc_image(b + (tail == 0 ? "" : tail == 1 ? Str(4, '\0') : Str(8, '\0')), c), "a counted body", 1, 1); }
  }, "every body that starts with count 1, 2, 3 or 2^24 followed by 6 bytes of the alphabet and 0, 4 or 8 zero bytes");
  static std::vector<T> U = universe(g_thorough ? 5 : 4, {"a", "b"}, false, 4);
  { auto s = c13_trees(); U.insert(U.end(), s.begin(), s.end()); U.push_back(chain(40, 2, "d")); }
  suite("mutated", U.size(), [&](uint64_t i) {
    Str p = enc_pack(U[i]);
    for (int c = 0; c < 2; c++) {
      for (size_t n = 0; n <= p.size(); n++) hostile(enc_image(p.substr(0, n), c), sfmt("a body cut to %zu of %zu bytes", n, p.size()), 1, n % 3 ? 1 : R_N);
      for (size_t at = 0; at < p.size(); at++) for (int v : {0, 1, 2, 0x40, 0x7f, 0x80, 0xff, -1, -2, -3}) { Str q = p; q[at] = v >= 0 ? (char)v : v == -1 ? q[at] + 1 : v == -2 ? q[at] - 1 : q[at] ^ 0x55; if (q != p) hostile(enc_image(q, c), sfmt("byte %zu of the body replaced", at), 1, 1); }
      for (size_t at = 0; at + 4 <= p.size(); at++) for (uint32_t n : {0u, 1u, 2u, 3u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x00ffffffu}) { Str q = p; q.replace(at, 4, be32(n)); if (q != p) hostile(enc_image(q, c), sfmt("count at byte %zu replaced by %u", at, n), 1, 1); }
      for (const char* x : {"\0", "\0\0\0\0", "zz", "\0\0\0\1a"}) hostile(enc_image(p + Str(x, 4), c), "a body followed by more bytes");
    }
  }, "every tree's body cut at every point, with every byte and every 4-byte field replaced by boundary values, checksum absent or recomputed");
  suite("sizes", U.size() < 40 ? U.size() : 40, [&](uint64_t i) {
    Str p = enc_pack(U[i * (U.size() / 40 ? U.size() / 40 : 1) % U.size()]);
    for (uint32_t fl : {0u, 1u, 2u, 3u, 0x100u, 0x01000000u, 0xffffffffu, 0xfffffffeu, 0x80000001u}) for (int cut = 0; cut < 2; cut++) {
      std::vector<uint64_t> sz(std::begin(SZ), std::end(SZ)); for (int64_t d = -8; d <= 8; d++) sz.push_back(20 + p.size() + d); 
      for (uint64_t s : sz) {
        Str h = be32(0x951fc3f5u) + be16(1) + be16(1) + be64(s) + be32(fl) + p;
        hostile(h, sfmt("recorded size %llu, flags %#x", (unsigned long long)s, fl));                    // no checksum bytes at all
        if (s >= 24 && s <= h.size() + 4) { Str g = h; g.resize(s - 4 < g.size() ? g.size() : s - 4); Str q = g.substr(0, s - 4); q += be32(crc32_ref(q)); if (cut) q += "tail"; hostile(q, sfmt("recorded size %llu with a matching checksum, flags %#x", (unsigned long long)s, fl)); }
      }
    }
    for (size_t n = 0; n <= 20; n++) { Str h = enc_image(p); hostile(h.substr(0, n), sfmt("a file of %zu bytes", n), 2); hostile(Str(n, '\0'), "zero bytes", 2); hostile(Str(n, '\xff'), "0xff bytes", 2); }
  }, "boundary values of the recorded size and of the flags, with checksums that match the recorded size where one fits");
  suite("deep", 12, [&](uint64_t i) {
    int d[] = {1, 2, 10, 100, 200, 400, 600, 800, 1000, 1500, 500, g_thorough ? 3000 : 1500};
    Str b; for (int k = 0; k < d[i]; k++) { b += be32(1); b += i == 10 ? Str("\0", 1) : Str("k\0", 2); } 
    for (int c = 0; c < 2; c++) { hostile(enc_image(b + be32(0), c), sfmt("%d nested levels", d[i]), 2); hostile(enc_image(b, c), sfmt("%d nested levels, unfinished", d[i]), 2); hostile(enc_image(b + be32(2) + Str("x\0\0\0\0\0", 6), c), "nested levels with a missing entry", 2); hostile(enc_image(b.substr(0, b.size() - 1), c), "nested levels cut in a key", 2); }
  }, "nesting up to 1500 (thorough 3000) levels, complete and cut");
  suite("big", 6, [&](uint64_t i) {
    T w = i < 3 ? wide(1500, 30) : wide(60, 20000); Str p = enc_pack(w);
    for (int c = 0; c < 2; c++) { if (i % 3 == 0) hostile(enc_image(p, c), "a large body"); if (i % 3 == 1) { Str q = p; q.replace(0, 4, be32(w.k.size() + 1)); hostile(enc_image(q, c), "a large body with one entry announced too many"); q.replace(0, 4, be32(w.k.size() - 1)); hostile(enc_image(q, c), "a large body with one entry announced too few"); } if (i % 3 == 2) for (size_t k : {1u, 2u, 3u, 4u, 5u, 100u, 4096u, 40000u}) hostile(enc_image(p.substr(0, p.size() - k), c), "a large body cut short"); }
    hostile(enc_image(be32(1) + Str(100000, 'x'), true), "a key without terminator"); hostile(enc_image(be32(1) + Str(100000, 'x') + Str(5, '\0'), true), "a very long key");
  }, "large bodies, complete, cut and with wrong counts");
  note_bound("nesting of at most 1500 (thorough 3000) levels (unpacking recurses once per level; the process stack bounds what any caller can read)");
}

// ---------------------------------------------------------------------------
// C33: the packing helpers
extern "C" {
#include "kvtree_helpers.h"
#define X(n) __typeof__(kvtree_pack_uint##n##_t) b_kvtree_pack_uint##n##_t; __typeof__(kvtree_unpack_uint##n##_t) b_kvtree_unpack_uint##n##_t;
X(16) X(32) X(64)
#undef X
}
template <class V> struct PackFn { const char* name; int (*pack)(void*, size_t, size_t*, V); int (*unpack)(const void*, size_t, size_t*, V*); };
template <class V> static void c33_value(const PackFn<V>& F, V v, size_t size, size_t pos, size_t misalign) {
  const size_t N = sizeof(V); bool room = size >= N && pos <= size - N; n_eval();
  char raw[64]; memset(raw, 0xa5, sizeof raw); char* buf = raw + 16 + misalign; size_t p = pos;
  int rc = F.pack(buf, size, &p, v); Str want; for (size_t i = 0; i < N; i++) want += (char)(v >> 8 * (N - 1 - i));
  auto show = [&] { return sfmt("%s %zu-bit value %#llx at position %#zx of %zu bytes", F.name, 8 * N, (unsigned long long)v, pos, size); };
  CHECK((rc == KVTREE_SUCCESS) == room, "packing %s %s", show().c_str(), room ? "fails" : "succeeds"); CHECK(p == (room ? pos + N : pos), "packing %s leaves position %zu", show().c_str(), p);
  for (size_t i = 0; i < sizeof raw; i++) { size_t o = i - 16 - misalign; bool in = room && o >= pos && o < pos + N; CHECK(raw[i] == (in ? want[o - pos] : (char)0xa5), "packing %s writes %02x at offset %zd", show().c_str(), raw[i] & 255, (ssize_t)o); }
  // what an independent encoder wrote
  memset(raw, 0x5a, sizeof raw); if (room) memcpy(buf + pos, want.data(), N); Str was(raw, sizeof raw); V o = (V)~v; p = pos;
  rc = F.unpack(buf, size, &p, &o); CHECK((rc == KVTREE_SUCCESS) == room, "unpacking %s %s", show().c_str(), room ? "fails" : "succeeds"); CHECK(p == (room ? pos + N : pos), "unpacking %s leaves position %zu", show().c_str(), p);
  CHECK(o == (room ? v : (V)~v), "unpacking %s gives %#llx", show().c_str(), (unsigned long long)o); CHECK(Str(raw, sizeof raw) == was, "unpacking %s changes the buffer", show().c_str()); n_valid(); if (room) outcome(want);
}
template <class V> static void c33_all(const PackFn<V>& F, uint64_t part) {
  const size_t N = sizeof(V); trace_begin();
  std::vector<V> vals = {0, 1, 0x7f, 0x80, 0xff, 0x100, (V)0x1234, (V)0x7fff, (V)0x8000, (V)0xffff, (V)0x01020304, (V)0x0102030405060708ull, (V)0xfedcba9876543210ull, (V)~(V)0, (V)((V)~(V)0 >> 1), (V)((V)1 << (8 * N - 1))};
  for (size_t b = 0; b < 8 * N; b++) vals.push_back((V)1 << b); for (size_t b = 0; b < N; b++) vals.push_back((V)((V)0xff << 8 * b));
  std::vector<size_t> pos; for (size_t i = 0; i <= 20; i++) pos.push_back(i); for (size_t i = 1; i <= 20; i++) pos.push_back((size_t)0 - i); for (size_t i = 0; i < 3; i++) { pos.push_back(((size_t)1 << 31) - i); pos.push_back(((size_t)1 << 32) + i); pos.push_back(((size_t)1 << 63) - i); }
  for (size_t size = 0; size <= 20; size++) for (size_t p : pos) for (size_t mis = 0; mis < 8; mis++) { if (part < vals.size()) c33_value(F, vals[part], size, p, mis); }
  if (part == vals.size()) {                                   // missing arguments
    char b[16]; memset(b, 7, sizeof b); size_t p = 3; V o = 9;
    CHECK(F.pack(nullptr, 16, &p, 1) != KVTREE_SUCCESS && F.pack(b, 16, nullptr, 1) != KVTREE_SUCCESS && F.unpack(nullptr, 16, &p, &o) != KVTREE_SUCCESS && F.unpack(b, 16, nullptr, &o) != KVTREE_SUCCESS && F.unpack(b, 16, &p, nullptr) != KVTREE_SUCCESS, "%s: a call without buffer, position or value succeeds", F.name);
    CHECK(p == 3 && o == 9 && Str(b, 16) == Str(16, 7), "%s: a call with a missing argument changes something", F.name); n_eval(5);
  }
  if (part == vals.size() + 1 && N == 2) { for (uint32_t v = 0; v < 65536; v++) c33_value(F, (V)v, 8, 3, 1); }
}
static const PackFn<uint16_t> PF16[2] = {{"flock build", kvtree_pack_uint16_t, kvtree_unpack_uint16_t}, {"fcntl build", b_kvtree_pack_uint16_t, b_kvtree_unpack_uint16_t}};
static const PackFn<uint32_t> PF32[2] = {{"flock build", kvtree_pack_uint32_t, kvtree_unpack_uint32_t}, {"fcntl build", b_kvtree_pack_uint32_t, b_kvtree_unpack_uint32_t}};
static const PackFn<uint64_t> PF64[2] = {{"flock build", kvtree_pack_uint64_t, kvtree_unpack_uint64_t}, {"fcntl build", b_kvtree_pack_uint64_t, b_kvtree_unpack_uint64_t}};
CHECK_DEF(C33, "exploration", "a case is one value of one width packed and unpacked at one position of a buffer of one size and alignment, or one sequence of calls on one buffer; distinct_nontrivial counts distinct packed bytes") {
  suite("values", 6 * 90, [&](uint64_t i) { int f = i % 6; uint64_t part = i / 6; if (f < 2) c33_all(PF16[f], part); else if (f < 4) c33_all(PF32[f - 2], part); else c33_all(PF64[f - 4], part); },
    "all three widths in both builds x every single bit, every byte, boundary values (16 bits: all 65536) x buffers of 0 to 20 bytes x positions 0 to 20, around 2^31, 2^32, 2^63 and just below 2^64 x 8 alignments, and every missing argument");
  // sequences on one buffer
  uint64_t n = 1; int D = g_thorough ? 7 : 6; for (int d = 0; d < D; d++) n *= 3;
  suite("sequences", n, [&](uint64_t q0) {
    for (int v = 0; v < 2; v++) for (size_t cap = 0; cap <= 8 * (size_t)D + 1; cap++) {
      trace_begin(); n_eval(); char raw[80]; memset(raw, 0x33, sizeof raw); size_t p = 0, mp = 0; Str model; uint64_t q = q0; std::vector<std::pair<int, uint64_t>> done;
      for (int d = 0; d < D; d++, q /= 3) { int w = q % 3, N = 2 << w; uint64_t val = 0x8192a3b4c5d6e7f8ull * (d + 1); if (w < 2) val &= ((uint64_t)1 << 8 * N) - 1;
        int rc = w == 0 ? PF16[v].pack(raw + 5, cap, &p, val) : w == 1 ? PF32[v].pack(raw + 5, cap, &p, val) : PF64[v].pack(raw + 5, cap, &p, val); bool room = mp + N <= cap;
        CHECK((rc == KVTREE_SUCCESS) == room, "packing value %d of a sequence into %zu bytes %s", d + 1, cap, room ? "fails" : "succeeds"); if (room) { for (int i = N - 1; i >= 0; i--) model += (char)(val >> 8 * i); mp += N; done.push_back({w, val}); } CHECK(p == mp, "the position is %zu instead of %zu", p, mp); n_trans(); }
      CHECK(Str(raw + 5, mp) == model && Str(raw, 5) == Str(5, 0x33) && Str(raw + 5 + mp, 75 - mp) == Str(75 - mp, 0x33), "a sequence of values is not packed one behind the other");
      p = 0; for (auto& x : done) { uint16_t a = 0; uint32_t b = 0; uint64_t c = 0; int u = 1 - v; int rc = x.first == 0 ? PF16[u].unpack(raw + 5, mp, &p, &a) : x.first == 1 ? PF32[u].unpack(raw + 5, mp, &p, &b) : PF64[u].unpack(raw + 5, mp, &p, &c); CHECK(rc == KVTREE_SUCCESS && (x.first == 0 ? a : x.first == 1 ? b : c) == x.second, "unpacking a sequence gives another value"); n_trans(); }
      CHECK(p == mp, "unpacking a sequence ends at %zu of %zu", p, mp); uint16_t z = 1; CHECK(PF16[v].unpack(raw + 5, mp, &p, &z) != KVTREE_SUCCESS && z == 1 && p == mp, "unpacking behind the end succeeds"); n_valid(); outcome(model);
    }
  }, "every sequence of 6 (thorough 7) values of the three widths into a buffer of every capacity, unpacked by the other build");
}
