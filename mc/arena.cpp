// operator new/delete for the harness: size-class free lists in a private arena.
// The library under test allocates with malloc, which stays with AddressSanitizer; so
// this only takes the harness's own bookkeeping out of the sanitizer (much faster).
// Linked only into groups that hand the library no C++ buffers to read or fill.
#include <cstdlib>
#include <new>
#include <sys/mman.h>
enum { MAXC = 65 };
static void* fl[MAXC]; static char *cur, *lim;
void* operator new(size_t n) {
  size_t c = (n + 16 + 15) / 16; size_t* h;
  if (c >= MAXC) { h = (size_t*)malloc(n + 16); if (!h) abort(); *h = 0; return h + 2; }
  if (fl[c]) { h = (size_t*)fl[c]; fl[c] = *(void**)(h + 2); return h + 2; }
  size_t sz = c * 16;
  if ((size_t)(lim - cur) < sz) { size_t blk = 1 << 22; cur = (char*)mmap(nullptr, blk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (cur == MAP_FAILED) abort(); lim = cur + blk; }
  h = (size_t*)cur; cur += sz; *h = c; return h + 2;
}
void operator delete(void* p) noexcept {
  if (!p) return;
  size_t* h = (size_t*)p - 2; size_t c = *h;
  if (!c) { free(h); return; }
  *(void**)p = fl[c]; fl[c] = h;
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
