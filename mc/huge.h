// Images of more than 4 GiB: a library build (symbols prefixed h_) whose blocks come from mmap and
// whose reads and writes go to a generated image, so that one case needs only a single buffer of that size.
#pragma once
#include "api.h"
#include <cerrno>
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>
#include <zlib.h>
extern "C" { __typeof__(kvtree_new) h_kvtree_new; __typeof__(kvtree_set) h_kvtree_set; __typeof__(kvtree_delete) h_kvtree_delete; __typeof__(kvtree_write_fd) h_kvtree_write_fd; __typeof__(kvtree_read_fd) h_kvtree_read_fd; __typeof__(kvtree_size) h_kvtree_size; __typeof__(kvtree_pack_size) h_kvtree_pack_size; }
#ifdef KVTREE_MPI_HUGE
extern "C" { __typeof__(kvtree_send) h_kvtree_send; __typeof__(kvtree_recv) h_kvtree_recv; __typeof__(kvtree_sendrecv) h_kvtree_sendrecv; __typeof__(kvtree_bcast) h_kvtree_bcast; }
#endif
namespace huge {
enum : size_t { PERIOD = 64u << 20, BIG = 256u << 20 };
static std::map<void*, size_t> maps; static int patfd = -1; static const int FD = 900;
static size_t pages(size_t n) { return (n + 4095) & ~(size_t)4095; }
static void* raw(size_t n) { void* p = mmap(nullptr, pages(n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return nullptr; maps[p] = pages(n); return p; }
// a string of n characters with a period of 64 MB that occupies 64 MB
static char* text(size_t n) {
  if (patfd < 0) {
    patfd = memfd_create("pattern", 0); if (patfd < 0 || ftruncate(patfd, PERIOD)) harness_error("memfd");
    unsigned char* p = (unsigned char*)mmap(nullptr, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED, patfd, 0); if (p == MAP_FAILED) harness_error("mmap");
    uint64_t x = 88172645463325252ull; for (size_t i = 0; i < PERIOD; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = 1 + x % 255; } munmap(p, PERIOD);
  }
  size_t len = (n / PERIOD + 1) * PERIOD; char* b = (char*)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) harness_error("mmap");
  for (size_t o = 0; o < len; o += PERIOD) if (mmap(b + o, PERIOD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, patfd, 0) == MAP_FAILED) harness_error("mmap");
  b[n] = 0; maps[b] = len; heartbeat(); return b;
}
static void drop(void* p) { auto m = maps.find(p); if (m != maps.end()) { munmap(p, m->second); maps.erase(m); } else free(p); }

// the image of the tree {key: {}}
struct Image {
  size_t len, total; const char* key; Str head, tail; std::vector<std::pair<size_t, int>> flips; size_t pos = 0, end; bool bad = false; Str why; bool sink = false;
  Image(size_t n, bool crc = true) {
    len = n; key = text(n); total = 20 + 4 + len + 1 + 4 + 4 * crc; end = total; auto be = [](uint64_t v, int k) { Str s; while (k--) s += (char)(v >> 8 * k); return s; };
    head = be(0x951fc3f5u, 4) + be(1, 2) + be(1, 2) + be(total, 8) + be(crc, 4) + be(1, 4); tail = Str(5, '\0');
    if (crc) { uint32_t c = crc32_z(0, (const Bytef*)head.data(), head.size()); for (size_t o = 0; o < len; o += 1u << 30) { c = crc32_z(c, (const Bytef*)key + o, std::min<size_t>(len - o, 1u << 30)); heartbeat(); } c = crc32_z(c, (const Bytef*)tail.data(), 5); tail += be(c, 4); }
  }
  ~Image() { drop((void*)key); }
  // f(part, offset in the argument, bytes)
  template <class F> void parts(size_t off, size_t n, F f) {
    size_t d = 0; while (d < n) { size_t o = off + d, k; const char* p; if (o < 24) { p = head.data() + o; k = 24 - o; } else if (o < 24 + len) { p = key + (o - 24); k = 24 + len - o; } else { p = tail.data() + (o - 24 - len); k = total - o; } k = std::min(k, n - d); f(p, d, k); d += k; }
  }
  void get(char* b, size_t n) { parts(pos, n, [&](const char* p, size_t d, size_t k) { memcpy(b + d, p, k); }); for (auto& f : flips) if (f.first >= pos && f.first < pos + n) b[f.first - pos] ^= f.second; }
  void put(const char* b, size_t n) { if (bad) return; if (pos + n > total) { bad = true; why = sfmt("more than the %zu bytes announced are written", total); return; } parts(pos, n, [&](const char* p, size_t d, size_t k) { if (bad || !memcmp(b + d, p, k)) return; bad = true; size_t i = 0; while (b[d + i] == p[i]) i++; why = sfmt("byte %zu of %zu is %#x, expected %#x", pos + d + i, total, (unsigned char)b[d + i], (unsigned char)p[i]); }); }
};
static Image* io = nullptr;
}
extern "C" {
ssize_t vf_read(int, void*, size_t); ssize_t vf_write(int, const void*, size_t);
void* hm_malloc(size_t n) { return n < huge::BIG ? malloc(n) : huge::raw(n); }
void* hm_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return n < huge::BIG ? calloc(a, b) : huge::raw(n); }
void hm_free(void* p) { huge::drop(p); }
void* hm_realloc(void* p, size_t n) {
  auto m = huge::maps.find(p); if (m == huge::maps.end() && n < huge::BIG) return realloc(p, n);
  void* q = hm_malloc(n); if (!q) return nullptr;
  if (p) { size_t old = m != huge::maps.end() ? m->second : 0; if (!old) { p = realloc(p, huge::BIG); old = huge::BIG; } memcpy(q, p, std::min(old, n)); huge::drop(p); }
  return q;
}
char* hm_strdup(const char* s) {
  size_t n = strlen(s); if (n < huge::BIG) return strdup(s);
  char* t = huge::text(n); if (!memcmp(t, s, n)) { heartbeat(); return t; }
  huge::drop(t); char* q = (char*)hm_malloc(n + 1); if (q) memcpy(q, s, n + 1); return q;
}
char* hm_strndup(const char* s, size_t k) { size_t n = strnlen(s, k); char* q = (char*)hm_malloc(n + 1); if (q) { memcpy(q, s, n); q[n] = 0; } return q; }
ssize_t hm_read(int fd, void* b, size_t n) { using namespace huge; if (fd != FD || !io) return vf_read(fd, b, n); heartbeat(); if (n > 0x7ffff000) n = 0x7ffff000; n = std::min(n, io->end - io->pos); io->get((char*)b, n); io->pos += n; return n; }
ssize_t hm_write(int fd, const void* b, size_t n) { using namespace huge; if (fd != FD || !io) return vf_write(fd, b, n); heartbeat(); if (n > 0x7ffff000) n = 0x7ffff000; io->put((const char*)b, n); io->pos += n; return n; }
}
namespace huge {
static void store(size_t total) {          // the library writes the image
  Image im(total - 33); io = &im; trace_begin(); TRACE("kvtree_write_fd of a tree with one key of %zu characters: an image of %zu bytes", im.len, im.total); n_eval();
  kvtree* h = h_kvtree_new(); h_kvtree_set(h, im.key, h_kvtree_new()); heartbeat();
  CHECK(h_kvtree_pack_size(h) == total - 24, "kvtree_pack_size is %zu instead of %zu", h_kvtree_pack_size(h), total - 24); heartbeat();
  ssize_t r = h_kvtree_write_fd("huge", FD, h); CHECK(!im.bad, "kvtree_write_fd of a tree of %zu bytes: %s", total, im.why.c_str()); CHECK(r == (ssize_t)total && im.pos == total, "kvtree_write_fd returns %zd and writes %zu of %zu bytes", r, im.pos, total);
  heartbeat(); h_kvtree_delete(&h); CHECK(maps.size() == 1, "storing the tree leaves a block behind"); io = nullptr; outcome(sfmt("store %zu", total)); n_valid();
}
// reads the image, with changes; expects success exactly if it has none
static void load(size_t total, const std::vector<std::pair<size_t, int>>& flips, size_t end, const Str& what) {
  Image im(total - 33); im.flips = flips; im.end = end; io = &im; trace_begin(); TRACE("kvtree_read_fd of an image of %zu bytes, %s", total, what.c_str()); n_eval(); bool whole = flips.empty() && end == total;
  kvtree* h = h_kvtree_new(); ssize_t r = h_kvtree_read_fd("huge", FD, h); heartbeat();
  if (whole) {
    CHECK(r == (ssize_t)total, "kvtree_read_fd returns %zd for an image of %zu bytes", r, total); kvtree_elem* e = kvtree_elem_first(h); CHECK(e && !kvtree_elem_next(e), "kvtree_read_fd of an image of %zu bytes does not give the one key it holds", total);
    const char* k = kvtree_elem_key(e); CHECK(strlen(k) == im.len && !memcmp(k, im.key, im.len), "kvtree_read_fd of an image of %zu bytes gives another key", total); CHECK(kvtree_size(kvtree_elem_hash(e)) == 0, "the key has got a subtree");
  } else if (r >= 0) fail("kvtree_read_fd accepts an image of %zu bytes, %s", total, what.c_str());
  else CHECK(kvtree_elem_first(h) == nullptr, "kvtree_read_fd rejects an image but changed the tree");
  heartbeat(); h_kvtree_delete(&h); CHECK(maps.size() == 1, "reading the image leaves a block behind"); io = nullptr; outcome(sfmt("load %zu ", total) + what); n_valid();
}
#ifdef KVTREE_MPI_HUGE
// transfer of a tree whose packed size is `total`, from process 0 to process 1; it arrives, or the program is ended if it does not fit into one message
static void transfer(int kind, size_t total) {
  static const char* nm[] = {"kvtree_send and kvtree_recv", "kvtree_sendrecv", "kvtree_bcast"}; size_t len = total - 9; char* key = text(len); size_t base = maps.size(); trace_begin(); TRACE("%s of a tree of %zu bytes", nm[kind], total); n_eval();
  vfs.reset(2); mpi_mode = MpiMode(); sched.pick = nullptr; exit_trap = ExitTrap(); exit_trap.armed = true; exit_trap.leave = [] { fibers_abandon(); }; bool got = false;
  mpi_run(2, [&](int r) {
    kvtree* h = h_kvtree_new(); if (r == 0) h_kvtree_set(h, key, h_kvtree_new()); else h_kvtree_set(h, "before", h_kvtree_new()); kvtree* in = h_kvtree_new(); h_kvtree_set(in, "before", h_kvtree_new()); kvtree* x = kind == 1 ? in : h; heartbeat(); int rc;
    if (kind == 0) rc = r == 0 ? h_kvtree_send(h, 1, MPI_COMM_WORLD) : h_kvtree_recv(h, 0, MPI_COMM_WORLD);
    else if (kind == 1) rc = h_kvtree_sendrecv(h, r == 0 ? 1 : MPI_PROC_NULL, in, r == 0 ? MPI_PROC_NULL : 0, MPI_COMM_WORLD);
    else rc = h_kvtree_bcast(h, 0, MPI_COMM_WORLD);
    heartbeat();
    if (r == 1 && rc == KVTREE_SUCCESS) { got = true; kvtree_elem* e = kvtree_elem_first(x); const char* k = e ? kvtree_elem_key(e) : ""; CHECK(e && !kvtree_elem_next(e) && strlen(k) == len && !memcmp(k, key, len), "%s of a tree of %zu bytes reports success, but another tree arrives", nm[kind], total); }
    h_kvtree_delete(&h); h_kvtree_delete(&in);
  });
  bool ended = exit_trap.hit; int st = exit_trap.status; exit_trap = ExitTrap();
  if (ended) { CHECK(total > 0x7fffffff, "%s of a tree of %zu bytes ends the program", nm[kind], total); CHECK(st != 0, "%s of a tree of %zu bytes ends the program with status 0", nm[kind], total); }
  else { CHECK(got || total > 0x7fffffff, "%s of a tree of %zu bytes fails", nm[kind], total); CHECK(maps.size() == base, "%s leaves a block behind", nm[kind]); }
  while (!maps.empty()) drop(maps.begin()->first); outcome(sfmt("transfer %d %zu %d", kind, total, ended)); n_valid();
}
static const size_t transfers[] = {0x7fffffff, 0x80000000ul, 0x80000001ul, 0xffffffffu, 0x100000000ul, 0x100000064ul};
#endif
}
