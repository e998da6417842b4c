#include "fiber.h"
#include "env.h"
#include <cerrno>
#include <sys/mman.h>

extern "C" {
void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, size_t* size) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile* addr, size_t size) __attribute__((weak));
void kvmc_switch(void** save, void* to);
}
// saves the callee-saved state on the stack and switches stacks
asm(R"(
.text
.globl kvmc_switch
.type kvmc_switch,@function
kvmc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size kvmc_switch,.-kvmc_switch
)");

Sched sched;
enum { STK = 1 << 20, MAXF = 512 };
struct Fiber { char* stk = nullptr; void* sp = nullptr; void* fake = nullptr; bool done = true; int err = 0; std::function<bool()> ready; const char* why = ""; };
static Fiber F[MAXF];
static void* main_sp; static void* main_fake; static const void* main_bottom; static size_t main_size;
static const std::function<void(int)>* g_body;

bool fibers_abandoned;
bool in_fiber() { return sched.cur >= 0; }
bool fiber_done(int i) { return F[i].done; }

static void leave(bool dying) {
  Fiber& f = F[sched.cur]; f.err = errno;
  if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(dying ? nullptr : &f.fake, main_bottom, main_size);
  kvmc_switch(&f.sp, main_sp);
  if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(f.fake, &main_bottom, &main_size);
  errno = F[sched.cur].err;
}
static void entry() {
  if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
  int me = sched.cur; errno = 0;
  (*g_body)(me);
  F[me].done = true;
  leave(true);
  abort();
}
void fibers_abandon() { fibers_abandoned = true; if (sched.cur >= 0) for (;;) leave(false); }
void fiber_die() { F[sched.cur].done = true; leave(true); abort(); }
void fiber_yield() { if (sched.cur >= 0) leave(false); }
void fiber_block(const std::function<bool()>& ready, const char* why) {
  Fiber& f = F[sched.cur];
  while (!ready()) { f.ready = ready; f.why = why; leave(false); f.ready = nullptr; }
}
void fibers_run(int n, const std::function<void(int)>& body) {
  if (n > MAXF) harness_error("too many fibers");
  fibers_abandoned = false; g_body = &body; sched.n = n; sched.steps = 0; int last = -1;
  for (int i = 0; i < n; i++) {
    Fiber& f = F[i];
    if (!f.stk) { f.stk = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (f.stk == MAP_FAILED) harness_error("fiber stack"); }
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(f.stk, STK);
    f.done = false; f.ready = nullptr; f.err = 0; f.fake = nullptr;
    void** top = (void**)(f.stk + STK - 64);
    *--top = nullptr;                 // alignment / fake return address
    *--top = (void*)entry;
    for (int k = 0; k < 6; k++) *--top = nullptr;
    f.sp = top;
  }
  for (;;) {
    std::vector<int> en; bool all = true;
    for (int i = 0; i < n; i++) { if (F[i].done) continue; all = false; if (!F[i].ready || F[i].ready()) en.push_back(i); }
    if (all) break;
    if (en.empty()) {
      Str s; for (int i = 0; i < n; i++) if (!F[i].done) s += sfmt(" [%d: %s%s%s]", i, F[i].why, sched.describe ? " " : "", sched.describe ? sched.describe(i).c_str() : "");
      fail("deadlock: none of the unfinished %s can proceed:%s", sched.what, s.c_str());
    }
    if (++sched.steps > sched.limit) fail("the %s do not finish within %llu steps", sched.what, (unsigned long long)sched.limit);
    if (!(sched.steps & 1023)) heartbeat();
    int t = sched.pick ? sched.pick(en, last) : en[0];
    last = t; sched.cur = t; if (sched.on_switch) sched.on_switch(t);
    Fiber& f = F[t];
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&main_fake, f.stk, STK);
    kvmc_switch(&main_sp, f.sp);
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
    sched.cur = -1;
    if (fibers_abandoned) { for (int i = 0; i < n; i++) { F[i].done = true; F[i].ready = nullptr; } break; }
  }
}
