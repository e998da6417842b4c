// C34: the rows a debugger (TotalView) is given for a tree.  The harness plays the debugger: it
// announces a display, calls the display function of the library, reads the buffer, and dives.
#include "printing.h"
#include <algorithm>
extern "C" {
int TV_ttf_display_type(const kvtree*) __attribute__((weak));
int TV_ttf_add_row(const char*, const char*, const void*) __attribute__((weak));
int TV_ttf_is_format_result_ok(int) __attribute__((weak));
void TV_ttf_pre_display_callback(void) __attribute__((weak));
void TV_ttf_post_display_callback(void) __attribute__((weak));
extern volatile int TV_ttf_data_format_control __attribute__((weak));
extern char TV_ttf_data_format_buffer[] __attribute__((weak));
}
enum { SIZE = 16384 };               // size of the buffer the debugger reads
enum { R_OK_ = 0, R_ELIDE = 1 };     // results that say the rows are to be shown
enum { A_OK, A_INACTIVE, A_CHARS, A_FULL };
struct Row { Str field, type; const void* value; size_t len; };
static Str hexs(const void* p) { return sfmt("0x%llx", (unsigned long long)(size_t)p); }
static Row row(const Str& f, const Str& t, const void* v) { return {f, t, v, f.size() + t.size() + hexs(v).size() + 3}; }
static bool bad(const Str& s) { return s.find_first_of("\n\t") != Str::npos; }
static Str rows_str(const std::vector<Row>& r) { Str s; for (auto& x : r) s += quote(x.field) + "|" + x.type + "|" + hexs(x.value) + " "; return s.substr(0, 300); }
static void present() { CHECK(&TV_ttf_display_type && &TV_ttf_add_row && &TV_ttf_pre_display_callback && &TV_ttf_post_display_callback && &TV_ttf_data_format_control && &TV_ttf_data_format_buffer[0], "a library built for the debugger lacks the functions the debugger looks for (TV_ttf_display_type, ...)"); }
// what is in the buffer after a display
static std::vector<Row> read_rows() {
  std::vector<Row> r; if (TV_ttf_data_format_control == 1) return r; // no row was added
  size_t n = strnlen(TV_ttf_data_format_buffer, SIZE); CHECK(n < SIZE, "the text for the debugger is not terminated within its buffer");
  Str s(TV_ttf_data_format_buffer, n); size_t a = 0;
  while (a < s.size()) {
    size_t b = s.find('\n', a); CHECK(b != Str::npos, "the last row is not complete: %s", quote(s.substr(a)).c_str());
    Str l = s.substr(a, b - a); size_t t1 = l.find('\t'), t2 = t1 == Str::npos ? t1 : l.find('\t', t1 + 1); CHECK(t2 != Str::npos && l.find('\t', t2 + 1) == Str::npos, "a row has not three columns: %s", quote(l).c_str());
    Str v = l.substr(t2 + 1); char* e = nullptr; unsigned long long p = strtoull(v.c_str(), &e, 16); CHECK(v.compare(0, 2, "0x") == 0 && v.size() > 2 && e && !*e, "a row has a bad address: %s", quote(l).c_str());
    r.push_back({l.substr(0, t1), l.substr(t1 + 1, t2 - t1 - 1), (const void*)p, b - a + 1}); a = b + 1;
  }
  return r;
}
// the rows one level should have; sub: the entry a row of type kvtree leads to
struct WantRow { Row r; const T* sub; const kvtree* h; Str text; };
static std::vector<WantRow> want_rows(const T& t, const kvtree* h) {
  std::vector<WantRow> w; kvtree_elem* e = kvtree_elem_first(h);
  for (auto& x : t.k) {
    const char* key = kvtree_elem_key(e); const kvtree* s = kvtree_elem_hash(e);
    if (x.second.k.empty()) w.push_back({row("value", "$string", key), nullptr, nullptr, x.first});
    else if (x.second.k.size() == 1 && x.second.k[0].second.k.empty()) w.push_back({row(x.first, "$string", kvtree_elem_key(kvtree_elem_first(s))), nullptr, nullptr, x.second.k[0].first});
    else w.push_back({row(x.first, "kvtree", s), &x.second, s, ""});
    e = kvtree_elem_next(e);
  }
  return w;
}
static uint64_t dive(const T& t, const kvtree* h, int depth = 0) {
  n_trans(); TV_ttf_pre_display_callback(); int rc = TV_ttf_display_type(h); auto got = read_rows(); TV_ttf_post_display_callback();
  CHECK(rc == R_OK_ || rc == R_ELIDE, "the display function returns %d", rc);
  auto want = want_rows(t, h); size_t g = 0, used = 0; std::vector<const WantRow*> shown;
  for (auto& w : want) {
    bool here = g < got.size() && got[g].field == w.r.field && got[g].type == w.r.type && got[g].value == w.r.value;
    if (here) { CHECK(!bad(w.r.field), "a key with a tab or newline garbles the rows"); used += got[g].len; g++; shown.push_back(&w); if (w.r.type == "$string") CHECK(w.text == (const char*)w.r.value, "the row for %s leads to another string", quote(w.r.field).c_str()); continue; }
    if (bad(w.r.field)) continue; // can not be shown
    CHECK(used + w.r.len + 1 > SIZE, "the row %s of a level with %zu entries is missing or wrong: %s", rows_str({w.r}).c_str(), want.size(), g < got.size() ? rows_str({got[g]}).c_str() : "no more rows");
  }
  CHECK(g == got.size(), "%zu rows too many: %s", got.size() - g, rows_str(got).c_str());
  uint64_t hsh = want.size() * 131 + shown.size() + depth; if (depth < 40) for (auto w : shown) if (w->sub) hsh = hsh * 1099511628211ull + dive(*w->sub, w->h, depth + 1);
  return hsh + fnv(sfmt("%zu", used));
}
static void one(const T& t, const char* what = nullptr) {
  trace_begin(); TRACE("showing %s", what ? what : ("{" + canon(t, true) + "}").c_str()); n_eval(); present(); Leaks lk; kvtree* h = build(t); T o = observe(h); Str before = ordered(o); Handles hs(h);
  uint64_t x = dive(o, h); CHECK(ordered(observe(h)) == before, "showing a tree changes it"); hs.kept(h, "showing a tree"); kvtree_delete(&h); lk.check("showing a tree"); n_valid(); outcome(x * 31 + fnv(before));
}
// a tree whose entries at the top come in the order listed
static T in_order(T t) { static int rev = -1; if (rev < 0) { kvtree* h = build(parse("a b c")); rev = observe(h).k[0].first != "a"; kvtree_delete(&h); } if (rev) std::reverse(t.k.begin(), t.k.end()); return t; }
CHECK_DEF(C34, "exploration", "a case is one tree shown level by level, or one sequence of calls; distinct_nontrivial counts distinct trees and sequences") {
  static std::vector<T> S; int N = g_thorough ? 9 : 8; for (int n = 0; n <= N; n++) { std::vector<T> v; shapes(n, v); S.insert(S.end(), v.begin(), v.end()); }
  suite("shapes", S.size(), [&](uint64_t i) { for (int z = 0; z < 2; z++) { T t = S[i]; int c = 0; label(t, [&](int k) { return z == 0 ? sfmt("k%d", k) : Str(k % 3 * 7, 'x') + sfmt("%d", 50 - k); }, c); one(t); } }, "all ordered trees of up to 8 (9) entries x 2 labellings, dived into to the leaves");
  static std::vector<T> U = universe(g_thorough ? 6 : 5, {"a", "b", ""}, true);
  suite("universe", U.size(), [&](uint64_t i) { one(U[i]); }, "all trees of up to 5 (6) entries over 3 keys, one empty, with and without missing subtrees");
  suite("keys", 256, [&](uint64_t b) { if (!b) return; for (int z = 0; z < 5; z++) { Str k = z == 0 ? Str(1, (char)b) : z == 1 ? "x" + Str(1, (char)b) + "y" : z == 2 ? "%" + Str(1, (char)b) : z == 3 ? Str(b, 'q') : "value" + Str(1, (char)b); T t; t.put("first").put("v"); t.put(k); t.put("kv").put(k); t.put("sub").put(k).put("w"); t.put(k + "2").put("v"); T two; two.put(k).put(k); two.put("z"); t.k.push_back({k + "3", two}); t.put(k + "4").put("v").put("w"); t.put("last"); t.put("end").put("x").put("y"); one(t); } }, "every byte as key, inside keys and after a percent sign, keys of every length up to 255, at every kind of row");
  // levels that fill the buffer to about its size, byte by byte
  suite("capacity", 64, [&](uint64_t i) {
    for (int rows = 1; rows <= (g_thorough ? 40 : 12); rows++) for (int kind = 0; kind < 3; kind++) {
      // every row but the last has a key of 16384/rows - 60 or so bytes; the last key brings the total to 16352 + i
      T t; auto sub = [&](T& e) { if (kind == 1) e.put("v"); if (kind == 2) { e.put("v"); e.put("w"); } }; if (kind == 0 && rows > 3) continue;
      if (kind == 0) { for (int r = 0; r < 560 + (int)i * 2; r++) t.k.push_back({sfmt("k%d.%d", rows, r), T()}); one(t, sfmt("%zu entries without content", t.k.size()).c_str()); continue; }
      size_t per = SIZE / rows - 60; for (int r = 0; r + 1 < rows; r++) { T x; sub(x); t.k.push_back({sfmt("%03d", r) + Str(per > 3 ? per - 3 : 0, 'p'), x}); }
      // addresses are 12 digits or so: measure what is there
      kvtree* h = build(t); size_t used = 0; for (auto& w : want_rows(observe(h), h)) used += w.r.len; kvtree_delete(&h);
      long rest = (long)SIZE - 32 + (long)i - (long)used - (kind == 1 ? 7 : 6) - 14 - 3; if (rest < 4) continue; T x; sub(x); t.k.push_back({Str(rest, 'z'), x});
      T y; sub(y); t.k.push_back({"end", y}); one(in_order(t), sfmt("%d rows of type %s that fill the buffer but for %ld bytes, and one more", rows, kind == 1 ? "string" : "kvtree", 32 - (long)i).c_str());
    }
  }, "1 to 12 (40) rows whose text ends 32 bytes before to 32 bytes behind the end of the buffer, byte by byte, followed by a shorter row");
  suite("overlong", 40, [&](uint64_t i) { size_t n = i < 20 ? SIZE - 40 + i * 3 : i < 30 ? SIZE + 1 + (i - 20) * 1000 : (size_t)SIZE << (i - 30); T t; t.put("before").put("v"); t.put(Str(n, 'k')).put("v"); T s; s.put("a"); s.put("b"); t.k.push_back({Str(n, 'j'), s}); t.put("kv").put(Str(n, 'v')); t.put("after").put("v"); t.put("end"); one(in_order(t), sfmt("keys and values of %zu bytes", n).c_str()); }, "keys and values as long as the buffer and longer, between short ones");
  suite("width", 40, [&](uint64_t i) { int w = i < 20 ? (int)i * 10 : 200 << ((i - 20) / 2); if (w > 6000) w = 6000 + (int)i; T t; for (int k = 0; k < w; k++) { T x; if (k % 3) x.put("v"); if (k % 7 == 6) x.put("w").put("deep"); t.k.push_back({sfmt("w%d", k), x}); } one(t, sfmt("%d entries", w).c_str()); }, "levels of up to 6000 entries");
  suite("null", 1, [&](uint64_t) { present(); for (int k = 0; k < 3; k++) { trace_begin(); TRACE("showing a null tree"); n_eval(); TV_ttf_pre_display_callback(); int rc = TV_ttf_display_type(nullptr); CHECK(rc == R_OK_ || rc == R_ELIDE, "showing a null tree returns %d", rc); CHECK(read_rows().empty(), "a null tree has rows"); TV_ttf_post_display_callback(); n_valid(); outcome(k + 1); } }, "a null tree");
  // the protocol between debugger and library: every sequence of calls
  enum { C_PRE, C_POST, C_SHORT, C_STR, C_BADF, C_BADT, C_LONG, C_BIG, C_TREE, C_N }; static int L = g_thorough ? 6 : 5; static uint64_t tot = 1; for (int k = 1; k < L; k++) tot *= C_N;
  suite("calls", tot, [&](uint64_t i) {
    present(); static T t = parse("a(b) c d(e(f) g)");
    for (int last = 0; last < C_N; last++) {
      trace_begin(); n_eval(); TV_ttf_post_display_callback(); std::vector<int> seq; uint64_t x = i; for (int k = 1; k < L; k++) { seq.push_back(x % C_N); x /= C_N; } seq.push_back(last);
      kvtree* h = build(t); T o = observe(h); int st = 0; Str buf; bool known = false;  // inactive, announced, rows added
      auto add = [&](const Str& f, const Str& ty, const void* v) { int want = st == 0 ? A_INACTIVE : bad(f) || bad(ty) ? A_CHARS : A_OK; if (want == A_OK) { if (st == 1) { buf = ""; known = true; st = 2; } Str l = f + "\t" + ty + "\t" + hexs(v) + "\n"; if (buf.size() + l.size() + 1 > SIZE) want = A_FULL; else buf += l; } return want; };
      for (int c : seq) {
        n_trans(); static const Str big(16000, 'B'), mid(5000, 'M');
        auto go = [&](const Str& f, const Str& ty, const void* v, const char* what) { TRACE("TV_ttf_add_row of %s", what); int w = add(f, ty, v), r = TV_ttf_add_row(f.c_str(), ty.c_str(), v); CHECK(r == w, "TV_ttf_add_row of %s returns %d instead of %d", what, r, w); };
        switch (c) {
          case C_PRE: TRACE("TV_ttf_pre_display_callback"); TV_ttf_pre_display_callback(); st = 1; break;
          case C_POST: TRACE("TV_ttf_post_display_callback"); TV_ttf_post_display_callback(); st = 0; break;
          case C_SHORT: go("f", "$int", (void*)16, "a short row"); break;
          case C_STR: go("", "$string", nullptr, "an empty row"); break;
          case C_BADF: go("a\tb", "$int", h, "a field with a tab"); go("\n", "$int", h, "a field with a newline"); break;
          case C_BADT: go("a", "in\nt", h, "a type with a newline"); go("a", "\t", h, "a type with a tab"); break;
          case C_LONG: go(mid, "$string", (void*)~(size_t)0, "a row of 5000 bytes"); break;
          case C_BIG: go(big, "kvtree", h, "a row of 16000 bytes"); break;
          case C_TREE: { TRACE("TV_ttf_display_type"); for (auto& w : want_rows(o, h)) add(w.r.field, w.r.type, w.r.value); int r = TV_ttf_display_type(h); CHECK(r == R_OK_ || r == R_ELIDE, "the display function returns %d", r); break; }
        }
        CHECK((TV_ttf_data_format_control == 0) == (st == 0), "the state of the display is lost");
        if (known) { CHECK(!memcmp(TV_ttf_data_format_buffer, buf.data(), buf.size()), "the text is %s instead of %s", quote(Str(TV_ttf_data_format_buffer, strnlen(TV_ttf_data_format_buffer, SIZE))).c_str(), quote(buf).c_str()); CHECK(!TV_ttf_data_format_buffer[buf.size()], "the text does not end after its %zu bytes", buf.size()); }
      }
      CHECK(same(observe(h), t), "showing a tree changes it"); kvtree_delete(&h); n_valid(); outcome(i * C_N + last + (1ull << 50));
    }
  }, "every sequence of 5 (6) calls of the display's interface: announced or not, rows short, empty, forbidden, long, not fitting, and a tree");
  suite("results", 1, [&](uint64_t) { if (!&TV_ttf_is_format_result_ok) return; for (int r = 0; r < 5; r++) { trace_begin(); TRACE("TV_ttf_is_format_result_ok(%d)", r); n_eval(); CHECK(!!TV_ttf_is_format_result_ok(r) == (r < 2), "TV_ttf_is_format_result_ok(%d) is wrong", r); n_valid(); outcome(r + (1ull << 51)); } }, "every result of a display");
  assumption("the debugger reads the buffer as a string, after rows were added since it announced the display");
}
