// Cooperative fibers: virtual processes under a controlled scheduler.
#pragma once
#include "core.h"

struct Sched {
  int n = 0, cur = -1;                       // cur: running fiber, -1: the scheduler
  uint64_t steps = 0, limit = 1000000;
  // picks one of `enabled` (never empty); `last` ran before (may not be enabled)
  std::function<int(const std::vector<int>& enabled, int last)> pick;
  std::function<Str(int)> describe;          // what a blocked fiber waits for
  std::function<void(int)> on_switch;        // the fiber about to run
  const char* what = "processes";
};
extern Sched sched;
// runs body(0..n-1), each in its own fiber, until all have returned.
void fibers_run(int n, const std::function<void(int)>& body);
void fiber_yield();                          // let the scheduler choose again
void fiber_block(const std::function<bool()>& ready, const char* why);
[[noreturn]] void fiber_die();                // the running fiber ends here
bool in_fiber();
bool fiber_done(int i);
void fibers_abandon();                       // end the run at once (the program was terminated)
extern bool fibers_abandoned;
