// C31: two real threads run the real library under a scheduler. The library is
// compiled with the compiler's memory access instrumentation, and every call it
// makes out of itself goes through this file, so the scheduler sees every access
// to memory and every library call. Accesses of the two threads that do not touch
// common memory commute; a switch is tried at every access to memory that both
// touch (one of them writing), at every call whose effects are not known and, in
// the "calls" suites, at every call.
#include "model.h"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <linux/futex.h>
#include <pthread.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_set>
#include <zlib.h>

// ---- scheduler ---------------------------------------------------------------
struct Worker { pthread_t th; std::function<void()> body; bool done; jmp_buf out; int exited; Str printed; uintptr_t lo, hi; };
static Worker W[2]; static int started_pid; static std::atomic<int> turn{-1};   // -1: the main thread
static __thread int me = -1; static Explorer* EX; static bool all_calls; static uint64_t events, points;
static std::unordered_set<uint64_t> conf;      // granules both threads touch, one of them writing
static void give(int t) { turn.store(t, std::memory_order_release); syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 3, 0, 0, 0); }
static void await(int t) { for (int i = 0; i < 200; i++) if (turn.load(std::memory_order_acquire) == t) return; int v; while ((v = turn.load(std::memory_order_acquire)) != t) syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void point(bool forced = false) {
  if (me < 0) return; if (++events > 20000000) fail("thread %d does not finish", me); if (W[!me].done) { if (forced) fail("thread %d waits for a lock nobody holds any more", me); return; }
  points++; if (!forced && !EX->choose(2)) return;
  int m = me, e = errno; TRACE("  switch to thread %d", !me); give(!m); await(m); errno = e;
}
// ---- accesses ------------------------------------------------------------------
struct Shadow { struct E { uint64_t g; uint32_t ep; uint8_t bits; }; std::vector<E> t; uint32_t ep = 0; size_t n = 0; void begin() { if (t.empty()) t.resize(1 << 16); ep++; n = 0; }
  uint8_t& at(uint64_t g) { for (;;) { size_t m = t.size() - 1, i = (g * 0x9E3779B97F4A7C15ull >> 20) & m; for (;;) { E& e = t[i]; if (e.ep != ep) { if (n * 2 > m) break; n++; e = {g, ep, 0}; return e.bits; } if (e.g == g) return e.bits; i = (i + 1) & m; } std::vector<E> o; o.swap(t); t.resize(o.size() * 2); n = 0; uint32_t p = ep; for (auto& e : o) if (e.ep == p) at(e.g) = e.bits; } } };
static Shadow shadow; static std::vector<uint64_t> fresh;   // conflicts seen for the first time
static void access_(const void* p, size_t n, bool wr) {
  if (me < 0 || !n) return; uintptr_t a = (uintptr_t)p; if (a >= W[me].lo && a < W[me].hi) return; if (++events > 20000000) fail("thread %d does not finish", me);
  uint64_t g0 = a >> 3, g1 = (a + n - 1) >> 3;
  if (!conf.empty()) for (uint64_t g = g0; g <= g1; g++) if (conf.count(g)) { int e = errno; TRACE("  thread %d %s shared memory", me, wr ? "writes" : "reads"); point(); errno = e; break; }
  for (uint64_t g = g0; g <= g1; g++) { uint8_t& b = shadow.at(g); uint8_t o = b; b |= (wr ? 2 : 1) << (2 * me); if (b != o && (b & 3) && (b >> 2 & 3) && (b & 10) && !conf.count(g)) fresh.push_back(g); }
}
static inline void rd(const void* p, size_t n) { access_(p, n, false); }
static inline void wr(const void* p, size_t n) { access_(p, n, true); }
static inline void call_() { if (me >= 0 && all_calls) point(); }
static const char* rds(const char* s) { rd(s, strlen(s) + 1); return s; }

// ---- memory: one region per thread, so that addresses are the same in every execution ----
struct Region { char* base = nullptr; size_t at = 0, top = 0; }; static Region R[3]; static const size_t RSIZE = (size_t)64 << 20; static int64_t live_blocks;
static void* take(size_t n) { Region& r = R[me + 1]; if (!r.base) r.base = (char*)mmap(nullptr, RSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); size_t s = (n + 16 + 31) & ~(size_t)15; if (n > RSIZE || r.at + s > RSIZE) return nullptr; char* p = r.base + r.at; r.at += s; if (r.at > r.top) r.top = r.at; *(size_t*)p = n; memset(p + 16, 0xCD, s - 16); live_blocks++; return p + 16; }
static bool ours(const void* p) { for (auto& r : R) if (r.base && p >= r.base && p < r.base + RSIZE) return true; return false; }
extern "C" {
void* vt_malloc(size_t n) { call_(); return take(n); }
void* vt_calloc(size_t a, size_t b) { call_(); if (b && a > RSIZE / b) return nullptr; void* p = take(a * b); if (p) memset(p, 0, a * b); return p; }
void vt_free(void* p) { call_(); if (!p) return; if (!ours(p)) fail("free of a pointer not from malloc"); size_t* h = (size_t*)((char*)p - 16); if (*h == ~(size_t)0) fail("a block is freed twice"); wr(p, *h); memset(p, 0xDD, *h); *h = ~(size_t)0; live_blocks--; }
void* vt_realloc(void* p, size_t n) { call_(); if (!p) return take(n); size_t o = *(size_t*)((char*)p - 16); rd(p, o); void* q = take(n); if (!q) return q; memcpy(q, p, o < n ? o : n); bool c = all_calls; all_calls = false; vt_free(p); all_calls = c; return q; }
void* vt_reallocarray(void* p, size_t a, size_t b) { if (b && a > RSIZE / b) return nullptr; return vt_realloc(p, a * b); }
char* vt_strdup(const char* s) { call_(); rds(s); size_t n = strlen(s) + 1; char* p = (char*)take(n); memcpy(p, s, n); return p; }
char* vt___strdup(const char* s) { return vt_strdup(s); }
char* vt_strndup(const char* s, size_t m) { call_(); size_t n = strnlen(s, m); rd(s, n); char* p = (char*)take(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int vt_vasprintf(char** o, const char* f, va_list a) { call_(); rds(f); char* t; int n = vasprintf(&t, f, a); char* p = (char*)take(n + 1); memcpy(p, t, n + 1); free(t); *o = p; return n; }
int vt_asprintf(char** o, const char* f, ...) { va_list a; va_start(a, f); int n = vt_vasprintf(o, f, a); va_end(a); return n; }
// functions whose accesses are known
void* vt_memcpy(void* d, const void* s, size_t n) { call_(); rd(s, n); wr(d, n); return memcpy(d, s, n); }
void* vt_memmove(void* d, const void* s, size_t n) { call_(); rd(s, n); wr(d, n); return memmove(d, s, n); }
void* vt_memset(void* d, int c, size_t n) { call_(); wr(d, n); return memset(d, c, n); }
int vt_memcmp(const void* a, const void* b, size_t n) { call_(); rd(a, n); rd(b, n); return memcmp(a, b, n); }
void* vt_memchr(const void* a, int c, size_t n) { call_(); const void* p = memchr(a, c, n); rd(a, p ? (const char*)p - (const char*)a + 1 : n); return (void*)p; }
size_t vt_strlen(const char* s) { call_(); rds(s); return strlen(s); }
size_t vt_strnlen(const char* s, size_t n) { call_(); size_t k = strnlen(s, n); rd(s, k); return k; }
int vt_strcmp(const char* a, const char* b) { call_(); rds(a); rds(b); return strcmp(a, b); }
int vt_strncmp(const char* a, const char* b, size_t n) { call_(); rd(a, strnlen(a, n)); rd(b, strnlen(b, n)); return strncmp(a, b, n); }
char* vt_strcpy(char* d, const char* s) { call_(); rds(s); wr(d, strlen(s) + 1); return strcpy(d, s); }
char* vt_strncpy(char* d, const char* s, size_t n) { call_(); rd(s, strnlen(s, n)); wr(d, n); return strncpy(d, s, n); }
char* vt_stpcpy(char* d, const char* s) { call_(); rds(s); wr(d, strlen(s) + 1); return stpcpy(d, s); }
char* vt_strcat(char* d, const char* s) { call_(); rds(s); rds(d); wr(d + strlen(d), strlen(s) + 1); return strcat(d, s); }
char* vt_strchr(const char* s, int c) { call_(); rds(s); return (char*)strchr(s, c); }
char* vt_strrchr(const char* s, int c) { call_(); rds(s); return (char*)strrchr(s, c); }
char* vt_strstr(const char* s, const char* t) { call_(); rds(s); rds(t); return (char*)strstr(s, t); }
size_t vt_strspn(const char* s, const char* t) { call_(); rds(s); rds(t); return strspn(s, t); }
size_t vt_strcspn(const char* s, const char* t) { call_(); rds(s); rds(t); return strcspn(s, t); }
char* vt_strtok_r(char* s, const char* d, char** v) { call_(); rds(d); wr(v, sizeof *v); char* b = s ? s : *v; if (b) wr(b, strlen(b) + 1); return strtok_r(s, d, v); }
char* vt_strsep(char** v, const char* d) { call_(); rds(d); wr(v, sizeof *v); if (*v) wr(*v, strlen(*v) + 1); return strsep(v, d); }
int vt_vsnprintf(char* d, size_t n, const char* f, va_list a) { call_(); rds(f); int k = vsnprintf(d, n, f, a); if (n) wr(d, (size_t)k < n ? k + 1 : n); return k; }
int vt_snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); int k = vt_vsnprintf(d, n, f, a); va_end(a); return k; }
int vt_vsprintf(char* d, const char* f, va_list a) { call_(); rds(f); int k = vsprintf(d, f, a); wr(d, k + 1); return k; }
int vt_sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); int k = vt_vsprintf(d, f, a); va_end(a); return k; }
int vt_atoi(const char* s) { call_(); rds(s); return atoi(s); }
void vt_qsort(void* b, size_t n, size_t s, int (*c)(const void*, const void*)) { call_(); wr(b, n * s); qsort(b, n, s, c); }
#define STRTO(T, f) T vt_##f(const char* s, char** e, int b) { call_(); rds(s); if (e) wr(e, sizeof *e); return f(s, e, b); } T vt___isoc23_##f(const char* s, char** e, int b) { return vt_##f(s, e, b); }
STRTO(long, strtol) STRTO(long long, strtoll) STRTO(unsigned long, strtoul) STRTO(unsigned long long, strtoull)
double vt_strtod(const char* s, char** e) { call_(); rds(s); if (e) wr(e, sizeof *e); return strtod(s, e); }
// output: kept per thread
static int out_(const char* f, va_list a) { call_(); rds(f); char b[8192]; int n = vsnprintf(b, sizeof b, f, a); if (me >= 0) W[me].printed += b; return n; }
int vt_vfprintf(FILE*, const char* f, va_list a) { return out_(f, a); }
int vt_vprintf(const char* f, va_list a) { return out_(f, a); }
int vt_fprintf(FILE*, const char* f, ...) { va_list a; va_start(a, f); int n = out_(f, a); va_end(a); return n; }
int vt_printf(const char* f, ...) { va_list a; va_start(a, f); int n = out_(f, a); va_end(a); return n; }
int vt_puts(const char* s) { if (me >= 0) { call_(); rds(s); W[me].printed += s; W[me].printed += '\n'; } return 1; }
int vt_fputs(const char* s, FILE*) { if (me >= 0) { call_(); rds(s); W[me].printed += s; } return 1; }
int vt_putchar(int c) { if (me >= 0) { call_(); W[me].printed += (char)c; } return c; }
int vt_fputc(int c, FILE*) { return vt_putchar(c); }
int vt_putc(int c, FILE*) { return vt_putchar(c); }
size_t vt_fwrite(const void* p, size_t s, size_t n, FILE*) { if (me >= 0) { call_(); rd(p, s * n); W[me].printed += Str((const char*)p, s * n); } return n; }
int vt_fflush(FILE*) { return 0; }
int vt_gethostname(char* b, size_t n) { call_(); wr(b, n); return gethostname(b, n); }
unsigned long vt_crc32(unsigned long c, const unsigned char* b, unsigned n) { call_(); if (b) rd(b, n); return crc32(c, b, n); }
unsigned vt_usleep(unsigned) { return 0; }
[[noreturn]] void vt_exit(int s) { if (me < 0) harness_error("exit(%d) outside a thread", s); W[me].exited = s; longjmp(W[me].out, 1); }
[[noreturn]] void vt__exit(int s) { vt_exit(s); }
[[noreturn]] void vt_abort() { vt_exit(134); }
// synchronisation: a thread that would wait gives way
#define LOCKING(name, T, try_) int vt_##name(T* m) { if (me < 0) return name(m); point(); while (try_(m)) point(true); return 0; }
LOCKING(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock) LOCKING(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock) LOCKING(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)
int vt_pthread_spin_lock(pthread_spinlock_t* m) { if (me < 0) return pthread_spin_lock(m); point(); while (pthread_spin_trylock(m)) point(true); return 0; }
int vt_pthread_once(pthread_once_t* o, void (*f)()) { if (me >= 0) point(); static pthread_once_t fresh_ = PTHREAD_ONCE_INIT; if (memcmp(o, &fresh_, sizeof *o) == 0) { static const int done = 2; memcpy(o, &done, sizeof done < sizeof *o ? sizeof done : sizeof *o); f(); } return 0; }
// system calls that fill or read memory, and one that may wait
ssize_t vt_read(int fd, void* b, size_t n) { point(); ssize_t k = read(fd, b, n); if (k > 0) wr(b, k); return k; }
ssize_t vt_pread(int fd, void* b, size_t n, off_t o) { point(); ssize_t k = pread(fd, b, n, o); if (k > 0) wr(b, k); return k; }
ssize_t vt_write(int fd, const void* b, size_t n) { point(); rd(b, n); return write(fd, b, n); }
ssize_t vt_pwrite(int fd, const void* b, size_t n, off_t o) { point(); rd(b, n); return pwrite(fd, b, n, o); }
int vt_flock(int fd, int how) { point(); if (me < 0 || (how & (LOCK_NB | LOCK_UN))) return flock(fd, how); int r; while ((r = flock(fd, how | LOCK_NB)) && errno == EWOULDBLOCK) point(true); return r; }
// calls whose effects are not known (generated trampolines)
void vt_unknown_call(const char* name) { if (me >= 0) { int e = errno; TRACE("  thread %d calls %s", me, name); point(); errno = e; } }
// instrumentation
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void* p) { rd(p, n); } void __tsan_write##n(void* p) { wr(p, n); } void __tsan_volatile_read##n(void* p) { rd(p, n); } void __tsan_volatile_write##n(void* p) { wr(p, n); } \
  void __tsan_unaligned_read##n(void* p) { rd(p, n); } void __tsan_unaligned_write##n(void* p) { wr(p, n); } void __tsan_unaligned_volatile_read##n(void* p) { rd(p, n); } void __tsan_unaligned_volatile_write##n(void* p) { wr(p, n); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { rd(p, n); } void __tsan_write_range(void* p, size_t n) { wr(p, n); }
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define ATOM(b, T) T __tsan_atomic##b##_load(const volatile T* p, int) { rd((const void*)p, sizeof(T)); return *p; } void __tsan_atomic##b##_store(volatile T* p, T v, int) { wr((const void*)p, sizeof(T)); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { wr((const void*)p, sizeof(T)); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { wr((const void*)p, sizeof(T)); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { wr((const void*)p, sizeof(T)); T o = *p; *p = o - v; return o; } T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { wr((const void*)p, sizeof(T)); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { wr((const void*)p, sizeof(T)); T o = *p; *p = o | v; return o; } T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { wr((const void*)p, sizeof(T)); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { wr((const void*)p, sizeof(T)); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { wr((const void*)p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { wr((const void*)p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { wr((const void*)p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
static void* worker(void* a) {
  int i = (int)(intptr_t)a; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t n; pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at); W[i].lo = (uintptr_t)lo; W[i].hi = (uintptr_t)lo + n;
  for (;;) { await(i); me = i; if (!setjmp(W[i].out)) W[i].body(); me = -1; W[i].done = true; give(W[!i].done ? -1 : !i); }
}
static void start() { if (started_pid == getpid()) return; started_pid = getpid(); turn = -1; for (intptr_t i = 0; i < 2; i++) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); if (pthread_create(&W[i].th, &at, worker, (void*)i)) harness_error("pthread_create"); } }
// runs the two bodies; first: which starts
static void run2(const std::function<void()>& a, const std::function<void()>& b, int first) {
  start(); W[0].body = a; W[1].body = b; for (auto& w : W) { w.done = !w.body; w.exited = -1; w.printed.clear(); } shadow.begin(); fresh.clear(); events = 0; if (W[first].done) first = !first;
  give(first); await(-1);
}
static void reset_memory() { for (auto& r : R) r.at = 0; live_blocks = 0; }

// ---- operations ------------------------------------------------------------------
typedef std::function<Str()> Fin;               // renders the result when both threads are done
struct Op { const char* name; bool ro; std::function<Fin(kvtree*, int)> f; };
static Str hs(const kvtree* h) { return h ? "{" + ordered(observe(h)) + "}" : Str("NULL"); }
static Str ss(const char* s) { return s ? quote(s) : Str("NULL"); }
#define FIN(...) return Fin([=]() -> Str { return __VA_ARGS__; })
static const char* TREE[2] = {"a(b(c(d)) e(f)) k(v) n(5) 12 7 -3", "a(x(y(z)) e(g)) k(w) n(88) 4 21 -9"};
static const std::vector<Op>& ops() {
  static std::vector<Op> o; if (!o.empty()) return o;
  static Str img[2] = {enc_pack(parse("p(q(r)) a(s)")), enc_pack(parse("u(v(w)) a(t t2)"))};
  auto ro = [&](const char* n, std::function<Fin(kvtree*, int)> f) { o.push_back({n, true, f}); }; auto rw = [&](const char* n, std::function<Fin(kvtree*, int)> f) { o.push_back({n, false, f}); };
  ro("get", [](kvtree* h, int w) -> Fin { kvtree* r = kvtree_get(h, w ? "k" : "a"); FIN(hs(r)); });
  ro("getf", [](kvtree* h, int w) -> Fin { kvtree* r = w ? kvtree_getf(h, "%s %s %s", "a", "x", "y") : kvtree_getf(h, "%s %s %s", "a", "b", "c"); kvtree* q = kvtree_getf(h, "%d", w ? 21 : 7); FIN(hs(r) + hs(q)); });
  ro("get_kv", [](kvtree* h, int w) -> Fin { kvtree* r = kvtree_get_kv(h, "k", w ? "w" : "v"); kvtree* q = kvtree_get_kv_int(h, "n", w ? 88 : 5); FIN(hs(r) + hs(q)); });
  ro("get_val", [](kvtree* h, int w) -> Fin { char* r = kvtree_get_val(h, w ? "k" : "n"); char* q = kvtree_elem_get_first_val(h, w ? "n" : "k"); FIN(ss(r) + ss(q)); });
  ro("size", [](kvtree* h, int w) -> Fin { int r = kvtree_size(w ? kvtree_get(h, "a") : h); FIN(sfmt("%d", r)); });
  ro("list_int", [](kvtree* h, int) -> Fin { int n = -1; int* l = nullptr; int r = kvtree_list_int(h, &n, &l); FIN(([&] { Str s = sfmt("%d %d:", r, n); for (int i = 0; i < n; i++) s += sfmt(" %d", l[i]); return s; })()); });
  ro("iterate", [](kvtree* h, int) -> Fin { std::vector<char*> k; std::vector<kvtree*> v; std::vector<int> n; for (kvtree_elem* e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) { k.push_back(kvtree_elem_key(e)); v.push_back(kvtree_elem_hash(e)); n.push_back(kvtree_elem_key_int(e)); } FIN(([&] { Str s; for (size_t i = 0; i < k.size(); i++) s += ss(k[i]) + hs(v[i]) + sfmt("%d", n[i]); return s; })()); });
  ro("elem_get", [](kvtree* h, int w) -> Fin { kvtree_elem* e = kvtree_elem_get(h, w ? "n" : "k"); kvtree_elem* m = kvtree_elem_get(h, "zz"); FIN(e && !m ? ss(kvtree_elem_key(e)) + hs(kvtree_elem_hash(e)) : Str("?")); });
  ro("pack", [](kvtree* h, int) -> Fin { size_t n = kvtree_pack_size(h); char* b = (char*)vt_malloc(n); size_t r = kvtree_pack(b, h); FIN(sfmt("%zu %zu ", n, r) + sfmt("%llx", (unsigned long long)fnv(b, n))); });
  ro("write_persist", [](kvtree* h, int) -> Fin { void* b = nullptr; size_t n = 0; int r = kvtree_write_persist(&b, &n, h); FIN(sfmt("%d %zu %llx", r, n, b ? (unsigned long long)fnv(b, n) : 0)); });
  ro("merge from", [](kvtree* h, int) -> Fin { kvtree* c = kvtree_new(); int r = kvtree_merge(c, h); FIN(sfmt("%d", r) + hs(c)); });
  ro("util_get", [](kvtree* h, int w) -> Fin { int i = -1; char* s = nullptr; unsigned long u = 0, bc = 0; int64_t l = -1; double d = -1; uLong c = 0; const char* k = "n"; int r = kvtree_util_get_int(h, k, &i) * 1 + kvtree_util_get_str(h, w ? "k" : "n", &s) * 3 + kvtree_util_get_unsigned_long(h, k, &u) * 9 + kvtree_util_get_int64(h, k, &l) * 27 + kvtree_util_get_double(h, k, &d) * 81 + kvtree_util_get_bytecount(h, k, &bc) * 243 + kvtree_util_get_crc32(h, k, &c) * 729; void* p = nullptr; int rp = kvtree_util_get_ptr(h, "no", &p); FIN(sfmt("%d %d %lu %lld %g %lu %lu %d ", r, i, u, (long long)l, d, bc, (unsigned long)c, rp) + ss(s)); });
  ro("print", [](kvtree* h, int w) -> Fin { int r = kvtree_print(h, w * 3); FIN(sfmt("%d", r)); });
  ro("print keyval", [](kvtree* h, int w) -> Fin { int r = kvtree_print_mode(h, w, KVTREE_PRINT_KEYVAL); FIN(sfmt("%d", r)); });
  ro("log", [](kvtree* h, int w) -> Fin { int r = kvtree_log(h, 0, w * 3); FIN(sfmt("%d", r)); });
  ro("missing", [](kvtree* h, int w) -> Fin { kvtree* r = kvtree_getf(h, w ? "a no %d" : "k no %s", w, "x"); int i = 0; int g = kvtree_util_get_int(h, "nokey", &i); int e = kvtree_util_get_int(h, "k", &i); FIN(hs(r) + sfmt(" %d %d %d", g, e, i)); });
  rw("set", [](kvtree* h, int w) -> Fin { kvtree* r = kvtree_set(h, w ? "new1" : "new0", kvtree_new()); kvtree* q = kvtree_set(h, "k", nullptr); FIN(sfmt("%d %d", !!r, !!q)); });
  rw("setf", [](kvtree* h, int w) -> Fin { kvtree* r = w ? kvtree_setf(h, nullptr, "%s %s %d", "one", "deux", 3) : kvtree_setf(h, nullptr, "%s %s %d", "uno", "zwei", 4); FIN(sfmt("%d", !!r)); });
  rw("setf long", [](kvtree* h, int w) -> Fin { Str l(300, w ? 'l' : 'm'); kvtree* r = w ? kvtree_setf(h, nullptr, "%s %lu %#x %lld", l.c_str(), 123456789012ul, 255u, -7ll) : kvtree_setf(h, kvtree_new(), "%s %llu %d %f %#lx", l.c_str(), 998877665544ull, -5, 2.5, 43981ul); FIN(sfmt("%d", !!r)); });
  rw("set_kv", [](kvtree* h, int w) -> Fin { kvtree* r = kvtree_set_kv(h, "k", w ? "w2" : "v2"); kvtree* q = kvtree_set_kv_int(h, "n", w ? 1001 : 2002); FIN(sfmt("%d %d", !!r, !!q)); });
  rw("extract", [](kvtree* h, int w) -> Fin { kvtree* r = kvtree_extract(h, w ? "k" : "a"); FIN(hs(r)); });
  rw("unset", [](kvtree* h, int w) -> Fin { int r = kvtree_unset(h, w ? "k" : "a"); FIN(sfmt("%d", r)); });
  rw("unset_all", [](kvtree* h, int) -> Fin { int r = kvtree_unset_all(h); FIN(sfmt("%d", r)); });
  rw("unset_kv", [](kvtree* h, int w) -> Fin { int r = kvtree_unset_kv(h, "k", w ? "w" : "v"); int q = kvtree_unset_kv_int(h, "n", w ? 88 : 5); FIN(sfmt("%d %d", r, q)); });
  rw("merge into", [](kvtree* h, int w) -> Fin { kvtree* c = kvtree_new(); kvtree_set_kv(c, "a", w ? "m1" : "m0"); kvtree_set_kv_int(c, "fresh", w); int r = kvtree_merge(h, c); kvtree_delete(&c); FIN(sfmt("%d", r)); });
  rw("sort", [](kvtree* h, int w) -> Fin { int r = kvtree_sort(h, w ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING); FIN(sfmt("%d", r)); });
  rw("sort_int", [](kvtree* h, int w) -> Fin { int r = kvtree_sort_int(h, w ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); FIN(sfmt("%d", r)); });
  rw("sort both ways", [](kvtree* h, int w) -> Fin { int d = w ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING; kvtree_sort(h, d); kvtree_sort_int(h, w ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); int r = kvtree_sort(h, d); FIN(sfmt("%d", r)); });
  rw("elem_extract", [](kvtree* h, int w) -> Fin { kvtree_elem* e = kvtree_elem_extract(h, w ? "k" : "a"); kvtree_elem* i = kvtree_elem_extract_int(h, w ? 4 : 12); FIN(e && i ? ss(kvtree_elem_key(e)) + hs(kvtree_elem_hash(e)) + ss(kvtree_elem_key(i)) : Str("?")); });
  rw("extract_by_addr", [](kvtree* h, int w) -> Fin { kvtree_elem* e = kvtree_elem_first(h); if (!e) FIN(Str("empty")); if (w && kvtree_elem_next(e)) e = kvtree_elem_next(e); e = kvtree_elem_extract_by_addr(h, e); FIN(ss(kvtree_elem_key(e))); });
  rw("unpack", [](kvtree* h, int w) -> Fin { size_t n = kvtree_unpack(img[w].data(), h); FIN(sfmt("%zu", n)); });
  rw("pack and unpack", [](kvtree* h, int) -> Fin { size_t n = kvtree_pack_size(h); char* b = (char*)vt_malloc(n); kvtree_pack(b, h); kvtree_unset_all(h); size_t r = kvtree_unpack(b, h); FIN(sfmt("%zu", r)); });
  rw("util_set", [](kvtree* h, int w) -> Fin { int r = kvtree_util_set_int(h, "n", w ? 31 : -31) + kvtree_util_set_str(h, "k", w ? "sw" : "sv") * 3 + kvtree_util_set_unsigned_long(h, "ul", w ? 77ul : 66ul) * 9 + kvtree_util_set_int64(h, "i64", w ? -77ll : -66ll) * 27 + kvtree_util_set_double(h, "dbl", w ? 2.5 : -0.125) * 81 + kvtree_util_set_bytecount(h, "bc", w ? 7000 : 6000) * 243 + kvtree_util_set_crc32(h, "crc", w ? 0xabcdef : 0x123456) * 729 + kvtree_util_set_ptr(h, "ptr", w ? (void*)0x1000 : (void*)0x2000) * 2187; FIN(sfmt("%d", r)); });
  rw("util_set then get", [](kvtree* h, int w) -> Fin { kvtree_util_set_double(h, "dbl", w ? 2.5 : -0.125); double d = 0; int r = kvtree_util_get_double(h, "dbl", &d); kvtree_util_set_ptr(h, "p", (void*)(intptr_t)(w ? 0x77 : 0x66)); void* p = nullptr; int q = kvtree_util_get_ptr(h, "p", &p); FIN(sfmt("%d %g %d %p", r, d, q, p)); });
  rw("new and delete", [](kvtree*, int w) -> Fin { kvtree* c = kvtree_new(); for (int i = 0; i < 3; i++) kvtree_set_kv_int(c, w ? "r" : "s", i); Str s; kvtree* d = kvtree_new(); kvtree_merge(d, c); int r = kvtree_delete(&c); FIN(sfmt("%d", r) + hs(d)); });
  return o;
}
// ---- operations on files (real files, one set per thread) -----------------------------
static Str g_fdir; static bool g_files;          // g_files: files are part of the run
enum { MASK = 027 };
static Str fn(int w, const char* n) { return g_fdir + sfmt("/%d.%d%s", (int)getpid(), w, n); }
static std::vector<Str> my_files(int w) { std::vector<Str> v; Str p = sfmt("%d.%d", (int)getpid(), w); DIR* d = opendir(g_fdir.c_str()); while (dirent* e = readdir(d)) if (!strncmp(e->d_name, p.c_str(), p.size())) v.push_back(e->d_name); closedir(d); std::sort(v.begin(), v.end()); return v; }
static void clear_files() { for (int w = 0; w < 2; w++) for (auto& f : my_files(w)) unlink((g_fdir + "/" + f).c_str()); }
static void put_file(const Str& f, const Str& c) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, c.data(), c.size()) != (ssize_t)c.size()) harness_error("cannot write %s", f.c_str()); close(fd); }
static void setup_files() {
  static Str img[2] = {enc_image(enc_pack(parse("left(l1 l2(l3)) k(v)"))), enc_image(enc_pack(parse("right(r1(r2) r3) n(7) other(x(y(z)))")))};
  umask(MASK); clear_files(); for (int w = 0; w < 2; w++) { put_file(fn(w, ".old"), img[w]); put_file(fn(w, ".bad"), w ? img[w].substr(0, img[w].size() - 3) : "not a tree, but longer than a header"); }
}
static Str file_state(int w) {
  Str o; for (auto& f : my_files(w)) { Str p = g_fdir + "/" + f, c; struct stat st; int fd = open(p.c_str(), O_RDONLY); if (fd < 0 || fstat(fd, &st)) { o += "cannot open;"; continue; } c.resize(st.st_size); if (read(fd, &c[0], c.size()) != (ssize_t)c.size()) harness_error("read"); close(fd); o += f.substr(f.find('.') + 2) + sfmt(" %o %zu %llx; ", (unsigned)st.st_mode & 07777, c.size(), (unsigned long long)fnv(c)); }
  return o;
}
static const size_t FOP = 1000;                  // numbers of file operations start here
static const std::vector<Op>& fops() {
  static std::vector<Op> o; if (!o.empty()) return o;
  auto op = [&](const char* n, std::function<Fin(kvtree*, int)> f) { o.push_back({n, false, f}); };
#define F(n) fn(w, n).c_str()
  op("write_file", [](kvtree* h, int w) -> Fin { int r = kvtree_write_file(F(".old"), h); FIN(sfmt("%d", r)); });
  op("write_file (new)", [](kvtree* h, int w) -> Fin { int r = kvtree_write_file(F(".new"), h); FIN(sfmt("%d", r)); });
  op("read_file", [](kvtree* h, int w) -> Fin { int r = kvtree_read_file(F(".old"), h); FIN(sfmt("%d", r)); });
  op("read_file (damaged)", [](kvtree* h, int w) -> Fin { int r = kvtree_read_file(F(".bad"), h); FIN(sfmt("%d", r)); });
  op("read_file (missing)", [](kvtree* h, int w) -> Fin { int r = kvtree_read_file(F(".none"), h); FIN(sfmt("%d", r)); });
  op("write_with_lock", [](kvtree* h, int w) -> Fin { int r = kvtree_write_with_lock(F(".old"), h); FIN(sfmt("%d", r)); });
  op("write_with_lock (new)", [](kvtree* h, int w) -> Fin { int r = kvtree_write_with_lock(F(".new"), h); FIN(sfmt("%d", r)); });
  op("read_with_lock", [](kvtree* h, int w) -> Fin { int r = kvtree_read_with_lock(F(".old"), h); FIN(sfmt("%d", r)); });
  op("lock_open_read, write_close_unlock", [](kvtree* h, int w) -> Fin { int fd = -1; int r = kvtree_lock_open_read(F(".old"), &fd, h); kvtree_set_kv_int(h, "seen", w); int q = kvtree_write_close_unlock(F(".old"), &fd, h); FIN(sfmt("%d %d %d", r, q, fd)); });
  op("write_fd, read_fd", [](kvtree* h, int w) -> Fin { int fd = open(F(".fd"), O_RDWR | O_CREAT, 0600); ssize_t a = kvtree_write_fd("f", fd, h); lseek(fd, 0, SEEK_SET); kvtree* c = kvtree_new(); ssize_t b = kvtree_read_fd("f", fd, c); close(fd); FIN(sfmt("%zd %zd", a, b) + hs(c)); });
  op("write_to_gather, read_scatter_single", [](kvtree* h, int w) -> Fin { kvtree* d = kvtree_new(); kvtree* c = kvtree_new(); kvtree_merge(c, h); kvtree_set(d, "0", c); c = kvtree_new(); kvtree_set_kv_int(c, "rank", w); kvtree_set(d, "1", c); int a = kvtree_write_to_gather(F(".g"), d, 2); kvtree* e = kvtree_new(); int b = kvtree_read_scatter_single(F(".g"), e); FIN(sfmt("%d %d", a, b) + hs(e)); });
#undef F
  return o;
}
static const Op& opn(int i) { return (size_t)i >= FOP ? fops()[i - FOP] : ops()[i]; }
// how the trees of the two threads came about
enum { U_OWN, U_SAME, U_COPY, U_UNPACKED, U_BOTHCOPY, U_EXTRACTED, U_COMMON, U_N };
static const char* uname_[] = {"built separately", "built separately with equal contents", "one copied from the other", "one unpacked from the other packed", "both copied from a third", "one extracted from the other", "one common tree"};
static void setup(int u, kvtree* h[2]) {
  if (u == U_OWN) { h[0] = build(parse(TREE[0])); h[1] = build(parse(TREE[1])); return; }
  Str both = Str(TREE[0]) + " " + "zz"; T t = tunion(parse(TREE[0]), parse(TREE[1])); h[0] = build(t);
  if (u == U_SAME) h[1] = build(t);
  else if (u == U_COPY) { h[1] = kvtree_new(); kvtree_merge(h[1], h[0]); }
  else if (u == U_UNPACKED) { size_t n = kvtree_pack_size(h[0]); char* b = (char*)vt_malloc(n); kvtree_pack(b, h[0]); h[1] = kvtree_new(); kvtree_unpack(b, h[1]); vt_free(b); }
  else if (u == U_BOTHCOPY) { kvtree* c = h[0]; for (int i = 0; i < 2; i++) { h[i] = kvtree_new(); kvtree_merge(h[i], c); } kvtree_delete(&c); }
  else if (u == U_EXTRACTED) { kvtree* c = kvtree_new(); kvtree_set(c, "in", h[0]); h[0] = build(t); h[1] = kvtree_extract(c, "in"); kvtree_set(h[0], "rest", c); }
  else h[1] = h[0];
}
struct Res { Str r[2], t[2], p[2], f[2]; int x[2]; };
// runs op a on thread 0 and op b on thread 1 (-1: nothing)
static Res go(int u, const std::vector<int>& a, const std::vector<int>& b, int first) {
  reset_memory(); kvtree* h[2]; setup(u, h); std::vector<Fin> f[2]; if (g_files) setup_files();
  auto body = [&](int w, const std::vector<int>& s) -> std::function<void()> { if (s.empty()) return nullptr; return [&, w] { for (size_t k = 0; k < s.size(); k++) { Fin g = opn(s[k]).f(h[w], w); if (k + 1 < s.size()) { Str v = g(); g = [v] { return v; }; } f[w].push_back(g); } }; };
  run2(body(0, a), body(1, b), first); Res r; for (int w = 0; w < 2; w++) { for (auto& g : f[w]) r.r[w] += g() + ";"; r.t[w] = hs(h[w]); r.p[w] = W[w].printed; r.x[w] = W[w].exited; if (g_files) r.f[w] = file_state(w); }
  if (g_files) { mode_t m = umask(MASK); CHECK(m == MASK, "the umask of the process is %03o instead of %03o afterwards", (unsigned)m, MASK); }
  return r;
}
static Str names(const std::vector<int>& s) { Str o; for (int i : s) o += Str(o.empty() ? "" : ", ") + opn(i).name; return o; }
static Res alone(int u, int w, const std::vector<int>& s) { static std::map<std::pair<int, std::vector<int>>, Res> memo; auto k = std::make_pair(u * 2 + w, s); auto it = memo.find(k); if (it != memo.end()) return it->second; Explorer ex; EX = &ex; all_calls = false; Res r = w ? go(u, {}, s, 1) : go(u, s, {}, 0); memo[k] = r; return r; }
static uint64_t explore_pair(int u, const std::vector<int>& a, const std::vector<int>& b, bool calls, int bound, uint64_t cap) {
  conf.clear(); Res want[2] = {alone(u, 0, a), alone(u, 1, b)}; uint64_t runs = 0; bool again = true;
  while (again) {
    again = false; Explorer ex; ex.bound = bound;
    do {
      ex.begin(); EX = &ex; all_calls = calls; int first = ex.choose(2, false); trace_begin(); TRACE("trees %s; thread 0: %s; thread 1: %s; thread %d starts", uname_[u], names(a).c_str(), names(b).c_str(), first);
      Res r = go(u, a, b, first); runs++; n_eval(); n_trans(points); points = 0; if (!(runs & 15)) heartbeat(); if (getenv("KV_DBG") && runs % 1000 == 0) fprintf(stderr, "%s | %s: %llu runs conf %zu pts %zu\n", names(a).c_str(), names(b).c_str(), (unsigned long long)runs, conf.size(), ex.pos);
      for (int w = 0; w < 2; w++) {
        Str n = names(w ? b : a), m = names(w ? a : b);
        CHECK(r.x[w] == want[w].x[w], "%s ends the program while another thread is in %s (trees %s)", n.c_str(), m.c_str(), uname_[u]);
        CHECK(r.r[w] == want[w].r[w], "%s gives %s while another thread is in %s, alone %s (trees %s)", n.c_str(), quote(r.r[w]).c_str(), m.c_str(), quote(want[w].r[w]).c_str(), uname_[u]);
        CHECK(r.t[w] == want[w].t[w], "after %s while another thread is in %s the tree is %s, alone %s (trees %s)", n.c_str(), m.c_str(), quote(r.t[w]).c_str(), quote(want[w].t[w]).c_str(), uname_[u]);
        CHECK(r.f[w] == want[w].f[w], "after %s while another thread is in %s the files are %s, alone %s (trees %s)", n.c_str(), m.c_str(), quote(r.f[w]).c_str(), quote(want[w].f[w]).c_str(), uname_[u]);
        CHECK(r.p[w] == want[w].p[w], "%s prints %s while another thread is in %s, alone %s (trees %s)", n.c_str(), quote(r.p[w]).c_str(), m.c_str(), quote(want[w].p[w]).c_str(), uname_[u]);
      }
      outcome(fnv(ex.str(), u * 1000003ull + fnv(names(a) + "|" + names(b)) + calls)); n_valid();
      if (!fresh.empty()) { for (uint64_t g : fresh) conf.insert(g); again = true; break; }   // more points to try
      if (runs >= (time_left() < 400 ? cap / 1000 : cap)) { note_capped("pairs with more schedules than the cap"); return runs; }
    } while (ex.next());
  }
  return runs;
}
CHECK_DEF(C31, "model_checking", "a case is one execution of two threads under one schedule; distinct_nontrivial counts distinct (trees, operations, schedule)") {
  static size_t n = ops().size(); struct P { int u, a, b; }; static std::vector<P> ps, cs, ss_;
  for (int u = 0; u < U_COMMON; u++) for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) ps.push_back({u, (int)a, (int)b});
  for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) if (ops()[a].ro && ops()[b].ro) cs.push_back({U_COMMON, (int)a, (int)b});
  suite("alone", n * U_N, [](uint64_t i) { int u = i / n, a = i % n; if (u == U_COMMON && !ops()[a].ro) return; trace_begin(); TRACE("trees %s; one thread: %s", uname_[u], ops()[a].name); Res r0 = alone(u, 0, {a}), r1 = alone(u, 1, {a}); n_eval(2); n_valid();
    kvtree* h[2]; reset_memory(); setup(u, h); Str t0 = hs(h[0]), t1 = hs(h[1]);
    if (ops()[a].ro) { CHECK(r0.t[0] == t0 && r1.t[1] == t1, "%s modifies the tree it is given", ops()[a].name); }
    if (u != U_COMMON) { CHECK(r0.t[1] == t1, "%s on one tree changes another (%s)", ops()[a].name, uname_[u]); CHECK(r1.t[0] == t0, "%s on one tree changes another (%s)", ops()[a].name, uname_[u]); } outcome(i + 1); }, "every operation by one thread: the other tree, and for read-only operations its own, stays as it was");
  suite("common memory", ps.size(), [](uint64_t i) { explore_pair(ps[i].u, {ps[i].a}, {ps[i].b}, false, g_thorough ? 4 : 3, 200000); }, "every ordered pair of operations x 6 origins of the trees; switches at every access to common memory and every call of unknown effect");
  suite("one tree", cs.size(), [](uint64_t i) { explore_pair(cs[i].u, {cs[i].a}, {cs[i].b}, false, g_thorough ? 4 : 3, 200000); if (cs[i].a <= cs[i].b) explore_pair(cs[i].u, {cs[i].a}, {cs[i].b}, true, 2, 3000000); }, "every ordered pair of read-only operations on one common tree");
  suite("calls", n * n, [](uint64_t i) { if (i / n <= i % n) explore_pair(U_OWN, {(int)(i / n)}, {(int)(i % n)}, true, 2, 3000000); if (g_thorough) { explore_pair(U_COPY, {(int)(i / n)}, {(int)(i % n)}, true, 2, 3000000); explore_pair(U_EXTRACTED, {(int)(i / n)}, {(int)(i % n)}, true, 2, 3000000); } }, "every pair of operations; switches at every call the library makes, up to 2 preemptions, on trees built separately and (thorough) copied and extracted from one another");
  suite("sequences", n * n, [](uint64_t i) { int a = i / n, b = i % n; for (int u = 0; u < U_COMMON; u++) { explore_pair(u, {a, b}, {b, a}, false, 3, 200000); if (g_thorough || u == U_COPY) for (int c = 0; c < (int)n; c++) explore_pair(u, {a, b}, {c}, false, 3, 200000); if (g_thorough) for (int c = 0; c < (int)n; c++) for (int d = 0; d < (int)n; d++) explore_pair(u, {a, b}, {c, d}, false, 3, 200000); } }, "every sequence of two operations by one thread against its reverse, every single operation and (thorough) every sequence of two, switches at common memory");
  // files
  g_fdir = scratch_dir(true); static size_t m = fops().size();
  struct Files { Files() { g_files = true; } ~Files() { clear_files(); g_files = false; } };
  suite("files", m * m, [](uint64_t i) { Files on; explore_pair(U_OWN, {(int)(FOP + i / m)}, {(int)(FOP + i % m)}, false, g_thorough ? 4 : 3, 2000000); }, "every ordered pair of file operations on different files; switches at every system call, library call of unknown effect and access to common memory");
  suite("files and trees", m * n, [](uint64_t i) { Files on; explore_pair(U_COPY, {(int)(FOP + i / n)}, {(int)(i % n)}, false, g_thorough ? 3 : 2, 2000000); }, "every file operation with every operation on another tree");
}
