// The environment of the code under test: heap accounting and an in-memory
// file system with processes, descriptors, locks and a syscall log.
#pragma once
#include "core.h"
#include <fcntl.h>
#include <memory>
#include <sys/types.h>

// ---- heap ------------------------------------------------------------------
struct Heap {
  int64_t live = 0;            // blocks handed out and not released
  uint64_t live_bytes = 0, max_bytes = (uint64_t)3 << 30;
  uint64_t calls = 0;          // allocation requests
  uint64_t fail_at = 0;        // 1-based request that fails (0: none)
  uint64_t fail_from = 0;      // every request from this one fails (0: none)
  uint64_t refused = 0;        // requests refused
  size_t limit = (size_t)1 << 31; // single requests above this fail
};
extern Heap heap;
void harness_free(void* p);    // release a block owned by the caller (not via the library)

// program termination requested by the code under test
struct ExitTrap { bool armed = false; bool hit = false; int status = 0; void (*leave)() = nullptr; };  // leave: instead of unwinding to run_trapping_exit
extern ExitTrap exit_trap;
// runs f(); true if it called exit()/abort path (status in exit_trap.status)
bool run_trapping_exit(const std::function<void()>& f);

// ---- file system -----------------------------------------------------------
enum SysOp { S_OPEN, S_CLOSE, S_READ, S_WRITE, S_LSEEK, S_FSYNC, S_FTRUNC, S_FLOCK, S_FCNTL, S_ACCESS, S_STAT, S_UNLINK, S_RENAME, S_OPENDIR, S_READDIR, S_CLOSEDIR, S_UMASK, S_CHMOD, S_USLEEP, S_MKDIR, S_NOPS };
extern const char* sysop_name[];
struct Inode { int id; Str data; unsigned mode = 0; int nlink = 1; bool dir = false; };
typedef std::shared_ptr<Inode> InodeP;
struct Ofd { int id; InodeP ino; off_t pos = 0; int flags = 0; Str path; int refs = 1; bool foreign = false; uint64_t ops = 0; };
typedef std::shared_ptr<Ofd> OfdP;
struct Proc { std::map<int, OfdP> fds; unsigned umask_ = 022; };
struct Lock { int kind; /*0 flock 1 fcntl*/ int owner; /*ofd id or proc*/ int proc; bool excl; off_t s, e; };

struct Sys {                   // one system call, before / after it happens
  SysOp op; int proc; int fd = -1; Str path; size_t n = 0; off_t off = 0; int arg = 0; // flags, whence, lock type
  const char* data = nullptr; // bytes of a write
  int ofd = -1; int ino = -1;
  long ret = 0; int err = 0;
};
struct Ans { enum K { DO, FAIL, PART } k = DO; int err = 0; size_t n = 0; };

// persistent effects, for crash exploration
struct Eff { enum K { CREATE, WRITE, TRUNC, SYNC, UNLINK, RENAME } k; int ino; off_t off; Str data; Str path, path2; unsigned mode; uint64_t sysno; };

struct Vfs {
  std::map<Str, InodeP> names;      // absolute path -> inode
  std::map<int, std::vector<Lock>> locks; // inode id -> locks
  std::vector<Proc> procs; int cur = 0;
  int next_ino = 1, next_ofd = 1;
  std::vector<Eff> effects; bool log_effects = false;
  std::vector<Sys> log; bool log_sys = false;
  uint64_t nsys = 0, sys_limit = 2000000;
  uint64_t foreign_ops = 0;         // operations on descriptors the library does not own
  uint64_t bad_fd_ops = 0;          // EBADF
  size_t readdir_perm = 0;          // directory order selector
  bool getpid_check = false;
  int free_low = 0;                 // which of the descriptors 0-2 reset() leaves free (bits), on every process
  std::function<Ans(Sys&)> before;  // choice of the environment's answer
  std::function<void(const Sys&)> after;
  std::function<bool(Sys&, const std::function<bool()>& available)> wait_lock;  // called when a lock is not available; false: cannot wait (deadlock)

  void reset(int nprocs = 1);
  InodeP lookup(const Str& p);
  InodeP put(const Str& path, const Str& data, unsigned mode = 0644);
  bool exists(const Str& p) { return names.count(p); }
  Str content(const Str& p);
  int open_fds(int proc);           // descriptors opened by the code under test
  int nlocks();
  int add_foreign(int proc, const Str& path, int flags); // a descriptor owned by the program
};
extern Vfs vfs;
extern bool g_real_fs;              // pass file operations through to the kernel (below g_root)
// all virtual paths live below this prefix
#define VROOT "/kvmc"
