// Reference model: a tree is a list of (key, subtree); equality ignores order.
#pragma once
#include "core.h"
#include "env.h"
#include "kvtree.h"
#include "kvtree_util.h"

struct T {
  std::vector<std::pair<Str, T>> k;
  bool null = false;           // "no subtree" (a NULL handle)
  int find(const Str& s) const { for (size_t i = 0; i < k.size(); i++) if (k[i].first == s) return i; return -1; }
  const T* get(const Str& s) const { int i = find(s); return i < 0 ? nullptr : &k[i].second; }
  T* get(const Str& s) { int i = find(s); return i < 0 ? nullptr : &k[i].second; }
  T& set(const Str& s, const T& v) { int i = find(s); if (i >= 0) { k[i].second = v; return k[i].second; } k.push_back({s, v}); return k.back().second; }
  T& put(const Str& s) { int i = find(s); if (i >= 0) return k[i].second; k.push_back({s, T()}); return k.back().second; }
  bool del(const Str& s) { int i = find(s); if (i < 0) return false; k.erase(k.begin() + i); return true; }
  size_t nodes() const { size_t n = 0; for (auto& e : k) n += 1 + e.second.nodes(); return n; }
  size_t depth() const { size_t n = 0; for (auto& e : k) n = std::max(n, 1 + e.second.depth()); return n; }
};
inline T TNull() { T t; t.null = true; return t; }
// canonical text, independent of order; nulls: distinguish "no subtree" from "empty subtree"
Str canon(const T& t, bool nulls = false);
Str ordered(const T& t);            // text that keeps the order
inline bool same(const T& a, const T& b, bool nulls = false) { return canon(a, nulls) == canon(b, nulls); }
T tunion(const T& a, const T& b);   // recursive union (null counts as empty)
T nonull(const T& t);
Str cdesc(const T& t);              // short readable form
T parse(const char* s);             // "a(b c(d)) e" -> tree, '!' after key: null subtree

// real trees
T observe(const kvtree* h, int depth = 0);      // via element iteration, detecting malformed lists; keeps order
kvtree* build(const T& t);                      // by kvtree_set in list order
void verify(const kvtree* h, const T& want, const char* when, bool nulls = false); // iteration + lookups + size
inline void del(kvtree* h) { kvtree_delete(&h); }
// the subtree handles of a tree, by path; kept(): every subtree that was there and still is has its handle,
// except at and below the entry `gone` (replaced by the operation)
struct Handles {
  std::map<Str, const kvtree*> m;
  static Str step(const Str& p, const Str& k) { return p + sfmt("%zu:", k.size()) + k; }
  static void collect(const kvtree* h, const Str& p, std::map<Str, const kvtree*>& m) { m[p] = h; for (kvtree_elem* e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) if (kvtree_elem_hash(e)) collect(kvtree_elem_hash(e), step(p, kvtree_elem_key(e)), m); }
  Handles(const kvtree* h) { if (h) collect(h, "", m); }
  void kept(const kvtree* h, const char* when, const Str& gone = "-") { std::map<Str, const kvtree*> n; if (h) collect(h, "", n); for (auto& e : m) { auto i = n.find(e.first); if (i != n.end() && i->second != e.second && e.first.compare(0, gone.size(), gone)) fail("%s replaced the subtree at /%s, a handle to it would dangle", when, quote(e.first).c_str()); } }
};
struct Leaks { int64_t base; Leaks() : base(heap.live) {} void check(const char* when) { if (heap.live != base) fail("%s: %lld allocations not released (or released too often)", when, (long long)(heap.live - base)); } };

// independent codec of the documented format
Str be16(uint16_t), be32(uint32_t), be64(uint64_t);
Str enc_pack(const T& t);                       // in list order
Str enc_image(const Str& packed, bool crc = true, uint32_t flags_extra = 0);
Str enc_image_raw(uint32_t magic, uint16_t type, uint16_t ver, uint64_t size, uint32_t flags, const Str& body, bool crc);
uint32_t crc32_ref(const Str& s);
// returns false if malformed; `used` bytes consumed
bool dec_pack(const Str& b, size_t& at, T& out, int depth = 0);
// image as a reader must see it: 0 ok, 1 empty file, -1 invalid
int dec_image(const Str& f, T& out);

// a tree that packs into exactly n >= 9 bytes (stored: 24 more), and sizes: lo..dense, then 2^k+lo2 .. 2^k+hi2 up to 2^kmax
T exact_tree(size_t n);
std::vector<int> big_widths(int lo, int hi);            // 2^k and 10^k and their neighbours
kvtree* build_packed(const T& t);                       // built by unpacking, for wide trees
std::vector<size_t> exact_sizes(size_t lo, size_t dense, int kmax, int lo2, int hi2);
// all trees with up to n entries over the given keys (every set of entries once)
std::vector<T> universe(int n, const std::vector<Str>& keys, bool nulls = false, int maxdepth = 99);
// all insertion orders of a key list
std::vector<std::vector<int>> permutations(int n);
