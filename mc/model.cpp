#include "model.h"
#include <algorithm>
#include <zlib.h>

static Str ck(const Str& s) { return sfmt("%zu:", s.size()) + s; }
Str canon(const T& t, bool nulls) {
  if (t.null && nulls) return "!";
  std::vector<Str> v; for (auto& e : t.k) v.push_back(ck(e.first) + canon(e.second, nulls));
  std::sort(v.begin(), v.end());
  Str o = "("; for (auto& s : v) o += s; return o + ")";
}
Str ordered(const T& t) { if (t.null) return "!"; Str o = "("; for (auto& e : t.k) o += ck(e.first) + ordered(e.second); return o + ")"; }
T nonull(const T& t) { T o; for (auto& e : t.k) o.k.push_back({e.first, nonull(e.second)}); return o; }
T tunion(const T& a, const T& b) {
  T o = a; o.null = false;
  for (auto& e : b.k) { T* x = o.get(e.first); if (x && !x->null) *x = tunion(*x, e.second); else o.set(e.first, tunion(T(), e.second)); }
  return o;
}
Str cdesc(const T& t) {
  if (t.null) return "!";
  Str o; for (auto& e : t.k) { if (!o.empty()) o += " "; o += quote(e.first); if (e.second.null) o += "!"; else if (!e.second.k.empty()) o += "{" + cdesc(e.second) + "}"; if (o.size() > 400) return o + "..."; }
  return o;
}
static T parse1(const char*& s) {
  T t;
  while (*s && *s != ')') {
    if (*s == ' ') { s++; continue; }
    Str k; while (*s && *s != ' ' && *s != '(' && *s != ')' && *s != '!') k += *s++;
    if (k == "''") k = "";
    T c; if (*s == '!') { c.null = true; s++; } else if (*s == '(') { s++; c = parse1(s); if (*s == ')') s++; }
    t.k.push_back({k, c});
  }
  return t;
}
T parse(const char* s) { return parse1(s); }
T exact_tree(size_t n) {
  T t; auto text = [](size_t len) { Str s(len, 0); for (size_t i = 0; i < len; i++) s[i] = 'a' + (i * 7 + i / 26) % 26; return s; };
  if (n < 24) t.put(text(n - 9)); else { t.put(text(n - 24)); t.put("last").put("y"); }
  return t;
}
std::vector<int> big_widths(int lo, int hi) {
  std::set<int> v; for (long b : {2, 10}) for (long n = b; n <= hi + 1; n *= b) for (long d = -1; d <= 1; d++) if (n + d >= lo && n + d <= hi) v.insert(n + d);
  return std::vector<int>(v.begin(), v.end());
}
kvtree* build_packed(const T& t) { Str b = enc_pack(t); kvtree* h = kvtree_new(); kvtree_unpack(b.data(), h); return h; }
std::vector<size_t> exact_sizes(size_t lo, size_t dense, int kmax, int lo2, int hi2) {
  std::vector<size_t> v; for (size_t n = lo; n <= dense; n++) v.push_back(n);
  for (int k = 5; k <= kmax; k++) for (int d = lo2; d <= hi2; d++) { long n = (1l << k) + d; if (n > (long)dense && (v.empty() || n > (long)v.back())) v.push_back(n); }
  return v;
}

T observe(const kvtree* h, int depth) {
  T t; if (!h) { t.null = true; return t; }
  if (depth > 20000) fail("tree is cyclic or absurdly deep");
  kvtree_elem* e = kvtree_elem_first(h); size_t n = 0; int sz = kvtree_size(h);
  for (; e; e = kvtree_elem_next(e)) {
    if (++n > (size_t)sz) fail("iteration visits more than the %d entries kvtree_size reports", sz);
    char* k = kvtree_elem_key(e);
    if (!k) fail("entry with a null key");
    t.k.emplace_back(k, T());
    t.k.back().second = observe(kvtree_elem_hash(e), depth + 1);
  }
  if (n != (size_t)sz) fail("iteration visits %zu entries but kvtree_size reports %d", n, sz);
  return t;
}
kvtree* build(const T& t) {
  if (t.null) return nullptr;
  kvtree* h = kvtree_new();
  for (auto& e : t.k) kvtree_set(h, e.first.c_str(), build(e.second));
  return h;
}
static void verify_lookups(const kvtree* h, const T& want, const char* when, bool nulls) {
  for (auto& e : want.k) {
    kvtree* s = kvtree_get(h, e.first.c_str());
    if (e.second.null) { if (nulls && s) fail("%s: key %s should have no subtree", when, quote(e.first).c_str()); if (!s) continue; }
    if (!s) fail("%s: lookup of key %s found nothing", when, quote(e.first).c_str());
    verify_lookups(s, e.second, when, nulls);
  }
}
void verify(const kvtree* h, const T& want, const char* when, bool nulls) {
  T got = observe(h);
  if (canon(got, nulls) != canon(want, nulls)) {
    for (size_t i = 0; i < got.k.size() && got.k.size() < 2000; i++) for (size_t j = 0; j < i; j++) if (got.k[i].first == got.k[j].first) fail("%s: key %s is present twice", when, quote(got.k[i].first).c_str());
    fail("%s: tree is {%s} but should be {%s}", when, cdesc(got).c_str(), cdesc(want).c_str());
  }
  if (want.k.size() < 400) verify_lookups(h, want, when, nulls);
}

Str be16(uint16_t v) { Str s; s += (char)(v >> 8); s += (char)v; return s; }
Str be32(uint32_t v) { return be16(v >> 16) + be16(v); }
Str be64(uint64_t v) { return be32(v >> 32) + be32((uint32_t)v); }
static void ep(const T& t, Str& o) { o += be32(t.k.size()); for (auto& e : t.k) { o += e.first; o += '\0'; ep(e.second, o); } }
Str enc_pack(const T& t) { Str o; ep(t, o); return o; }
uint32_t crc32_ref(const Str& s) {
  static uint32_t tab[256]; if (!tab[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; tab[i] = c; }
  uint32_t c = ~0u; for (unsigned char x : s) c = tab[(c ^ x) & 255] ^ (c >> 8); return ~c;
}
Str enc_image_raw(uint32_t magic, uint16_t type, uint16_t ver, uint64_t size, uint32_t flags, const Str& body, bool crc) {
  Str s = be32(magic) + be16(type) + be16(ver) + be64(size) + be32(flags) + body;
  if (crc) s += be32(crc32_ref(s));
  return s;
}
Str enc_image(const Str& packed, bool crc, uint32_t fx) { return enc_image_raw(0x951fc3f5u, 1, 1, 20 + packed.size() + (crc ? 4 : 0), (crc ? 1 : 0) | fx, packed, crc); }
static uint64_t ub(const Str& s, size_t at, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)s[at + i]; return v; }
bool dec_pack(const Str& b, size_t& at, T& out, int depth) {
  if (b.size() - at < 4 || at > b.size()) return false;
  uint64_t n = ub(b, at, 4); at += 4;
  for (uint64_t i = 0; i < n; i++) {
    size_t z = b.find('\0', at); if (z == Str::npos) return false;
    Str k = b.substr(at, z - at); at = z + 1;
    T c; if (!dec_pack(b, at, c, depth + 1)) return false;
    out.k.push_back({k, c});
  }
  return true;
}
int dec_image(const Str& f, T& out) {
  if (f.empty()) return 1;
  if (f.size() < 20) return -1;
  if (ub(f, 0, 4) != 0x951fc3f5u || ub(f, 4, 2) != 1 || ub(f, 6, 2) != 1) return -1;
  uint64_t sz = ub(f, 8, 8); uint32_t fl = ub(f, 16, 4); bool crc = fl & 1;
  if (sz > f.size() || sz < 20u + (crc ? 4 : 0)) return -1;
  size_t end = sz - (crc ? 4 : 0);
  if (crc && crc32_ref(f.substr(0, end)) != ub(f, end, 4)) return -1;
  size_t at = 0; Str body = f.substr(20, end - 20);
  return dec_pack(body, at, out) ? 0 : -1;
}

// trees with exactly m entries using keys[from..]; memoised by m
static std::vector<T> exact(int m, const std::vector<Str>& keys, bool nulls, int maxd);
static void combos(size_t ki, int m, const std::vector<Str>& keys, bool nulls, int maxd, T& cur, std::vector<T>& out) {
  if (m == 0) { out.push_back(cur); return; }
  if (ki == keys.size() || maxd <= 0) return;
  combos(ki + 1, m, keys, nulls, maxd, cur, out);
  for (int s = 0; s <= m - 1; s++) {
    std::vector<T> subs = exact(s, keys, nulls, maxd - 1);
    if (s == 0 && nulls) subs.push_back(TNull());
    for (auto& c : subs) { cur.k.push_back({keys[ki], c}); combos(ki + 1, m - 1 - s, keys, nulls, maxd, cur, out); cur.k.pop_back(); }
  }
}
static std::vector<T> exact(int m, const std::vector<Str>& keys, bool nulls, int maxd) { std::vector<T> o; T c; combos(0, m, keys, nulls, maxd, c, o); return o; }
std::vector<T> universe(int n, const std::vector<Str>& keys, bool nulls, int maxd) {
  std::vector<T> o; for (int m = 0; m <= n; m++) { auto e = exact(m, keys, nulls, maxd); o.insert(o.end(), e.begin(), e.end()); } return o;
}
std::vector<std::vector<int>> permutations(int n) {
  std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; std::vector<std::vector<int>> o;
  do o.push_back(p); while (std::next_permutation(p.begin(), p.end())); return o;
}
