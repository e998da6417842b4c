#include "env.h"
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <malloc.h>
#include <regex.h>
#include <setjmp.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>

Heap heap; Vfs vfs; ExitTrap exit_trap; bool g_real_fs = false;
static sigjmp_buf g_exitjmp;
const char* sysop_name[] = {"open", "close", "read", "write", "lseek", "fsync", "ftruncate", "flock", "fcntl", "access", "stat", "unlink", "rename", "opendir", "readdir", "closedir", "umask", "chmod", "usleep", "mkdir"};
void (*sched_point)(int kind) = nullptr;       // thread explorer: libc call about to happen

void env_worker_init() { heap = Heap(); vfs.reset(1); }

// ---- heap --------------------------------------------------------------------
static bool refuse(size_t n) {
  heap.calls++;
  if ((heap.fail_at && heap.calls == heap.fail_at) || (heap.fail_from && heap.calls >= heap.fail_from) || n > heap.limit) { heap.refused++; errno = ENOMEM; return true; }
  if (heap.live_bytes + n > heap.max_bytes) fail("runaway allocation: more than %llu bytes live", (unsigned long long)heap.max_bytes);
  return false;
}
static void* got(void* p) { if (p) { heap.live++; heap.live_bytes += malloc_usable_size(p); } return p; }
static void gone(void* p) { if (p) { heap.live--; heap.live_bytes -= malloc_usable_size(p); } }
#define SP(k) do { if (sched_point) sched_point(k); } while (0)
extern "C" {
void* vf_malloc(size_t n) { SP(1); if (refuse(n)) return nullptr; return got(malloc(n)); }
void* vf_calloc(size_t a, size_t b) { SP(1); if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } if (refuse(a * b)) return nullptr; return got(calloc(a, b)); }
void* vf_realloc(void* p, size_t n) {
  SP(1);
  if (refuse(n)) return nullptr;
  // always move, so that stale pointers are caught
  if (!p) return got(malloc(n));
  size_t o = malloc_usable_size(p); void* q = malloc(n ? n : 1); if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n); gone(p); free(p); return got(q);
}
void* vf_reallocarray(void* p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return vf_realloc(p, a * b); }
void vf_free(void* p) { SP(1); gone(p); free(p); }
char* vf_strdup(const char* s) { SP(1); if (refuse(strlen(s) + 1)) return nullptr; return (char*)got(strdup(s)); }
char* vf_strndup(const char* s, size_t n) { SP(1); if (refuse(n + 1)) return nullptr; return (char*)got(strndup(s, n)); }
int vf_vasprintf(char** o, const char* f, va_list a) { if (refuse(1)) { *o = nullptr; return -1; } int r = vasprintf(o, f, a); if (r >= 0) got(*o); return r; }
int vf_asprintf(char** o, const char* f, ...) { va_list a; va_start(a, f); int r = vf_vasprintf(o, f, a); va_end(a); return r; }
int vf_posix_memalign(void** o, size_t al, size_t n) { if (refuse(n)) return ENOMEM; int r = posix_memalign(o, al, n); if (!r) got(*o); return r; }
void* vf_aligned_alloc(size_t al, size_t n) { if (refuse(n)) return nullptr; return got(aligned_alloc(al, n)); }
void vf_exit(int st) {
  if (exit_trap.armed) { exit_trap.hit = true; exit_trap.status = st & 0xff; if (exit_trap.leave) exit_trap.leave(); siglongjmp(g_exitjmp, 1); }
  fail("the library ended the program: exit(%d)", st);
}
void vf_abort() { fail("the library called abort()"); }
int vf_regcomp(regex_t* r, const char* p, int f) { int e = regcomp(r, p, f); if (!e) heap.live++; return e; }
void vf_regfree(regex_t* r) { regfree(r); heap.live--; }
static char* g_strtok;
char* vf_strtok(char* s, const char* d) { SP(2); return strtok_r(s, d, &g_strtok); }
}
void harness_free(void* p) { gone(p); free(p); }
bool run_trapping_exit(const std::function<void()>& f) {
  exit_trap.armed = true; exit_trap.hit = false; exit_trap.status = 0;
  if (sigsetjmp(g_exitjmp, 0) == 0) f();
  exit_trap.armed = false;
  return exit_trap.hit;
}

// ---- virtual file system --------------------------------------------------------
static Str g_realroot;
static Str norm(const char* p) {
  Str s = p[0] == '/' ? Str(p) : Str(VROOT "/") + p;
  std::vector<Str> c; size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i); if (j == Str::npos) j = s.size();
    Str x = s.substr(i, j - i); i = j + 1;
    if (x.empty() || x == ".") continue;
    if (x == "..") { if (!c.empty()) c.pop_back(); continue; }
    c.push_back(x);
  }
  Str o; for (auto& x : c) o += "/" + x;
  return o.empty() ? "/" : o;
}
static Str parent(const Str& p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
static Str realpath_of(const char* p) {
  Str n = norm(p);
  if (n.compare(0, strlen(VROOT), VROOT)) return g_realroot + "/outside" + n;  // never touch anything else
  return g_realroot + n.substr(strlen(VROOT));
}
void vfs_real_root(const Str& r) { g_realroot = r; }

void Vfs::reset(int n) {
  names.clear(); locks.clear(); procs.clear(); procs.resize(n); cur = 0; next_ino = 1; next_ofd = 1;
  effects.clear(); log.clear(); log_effects = log_sys = false; nsys = 0; sys_limit = 2000000; foreign_ops = bad_fd_ops = 0; readdir_perm = 0;
  before = nullptr; after = nullptr; wait_lock = nullptr;
  auto d = std::make_shared<Inode>(); d->id = next_ino++; d->dir = true; d->mode = 0755; names["/"] = d;
  d = std::make_shared<Inode>(); d->id = next_ino++; d->dir = true; d->mode = 0755; names[VROOT] = d;
  for (int p = 0; p < n; p++) for (int fd = 0; fd < 3; fd++) { if (free_low >> fd & 1) continue;
    auto i = std::make_shared<Inode>(); i->id = next_ino++; i->mode = 0600;
    auto o = std::make_shared<Ofd>(); o->id = next_ofd++; o->ino = i; o->flags = O_RDWR; o->foreign = true; o->path = sfmt("<fd %d>", fd);
    procs[p].fds[fd] = o;
  }
}
InodeP Vfs::lookup(const Str& p) { auto it = names.find(p); return it == names.end() ? nullptr : it->second; }
InodeP Vfs::put(const Str& path, const Str& data, unsigned mode) {
  Str p = norm(path.c_str()), q = parent(p);
  if (q.size() > 1 && !names.count(q)) put(q, "", 0755)->dir = true;
  auto i = std::make_shared<Inode>(); i->id = next_ino++; i->data = data; i->mode = mode; names[p] = i; return i;
}
Str Vfs::content(const Str& p) { auto i = lookup(norm(p.c_str())); return i ? i->data : Str("<missing>"); }
int Vfs::open_fds(int p) { int n = 0; for (auto& f : procs[p].fds) if (!f.second->foreign) n++; return n; }
int Vfs::nlocks() { int n = 0; for (auto& l : locks) n += l.second.size(); return n; }
static int lowest_fd(Proc& p) { int fd = 0; while (p.fds.count(fd)) fd++; return fd; }
int Vfs::add_foreign(int proc, const Str& path, int flags) {
  InodeP i = lookup(norm(path.c_str())); if (!i) i = put(path, "");
  auto o = std::make_shared<Ofd>(); o->id = next_ofd++; o->ino = i; o->flags = flags; o->foreign = true; o->path = path;
  int fd = lowest_fd(procs[proc]); procs[proc].fds[fd] = o; return fd;
}

static Ans pre(Sys& s) {
  s.proc = vfs.cur;
  if (++vfs.nsys > vfs.sys_limit) fail("more than %llu system calls: the operation does not terminate", (unsigned long long)vfs.sys_limit);
  Ans a; if (vfs.before) a = vfs.before(s);
  return a;
}
static long post(Sys& s, long ret, int err = 0) {
  s.ret = ret; s.err = ret < 0 ? err : 0;
  if (g_verbose) TRACE("    sys[%d] %s fd=%d %s n=%zu off=%lld arg=%#x -> %ld%s%s", s.proc, sysop_name[s.op], s.fd, s.path.c_str(), s.n, (long long)s.off, s.arg, ret, ret < 0 ? " " : "", ret < 0 ? strerrorname_np(err) : "");
  if (vfs.log_sys) { vfs.log.push_back(s); vfs.log.back().data = nullptr; }
  if (vfs.after) vfs.after(s);
  if (ret < 0) errno = err;
  return ret;
}
static OfdP fdget(int fd, Sys& s) {
  Proc& p = vfs.procs[vfs.cur]; auto it = p.fds.find(fd);
  if (it == p.fds.end()) { vfs.bad_fd_ops++; return nullptr; }
  if (it->second->foreign) { vfs.foreign_ops++; it->second->ops++; }
  s.ofd = it->second->id; s.ino = it->second->ino->id; s.path = it->second->path;
  return it->second;
}
static void eff(Eff::K k, int ino, off_t off = 0, const Str& data = "", const Str& path = "", unsigned mode = 0, const Str& path2 = "") {
  if (vfs.log_effects) vfs.effects.push_back({k, ino, off, data, path, path2, mode, vfs.nsys});
}

// real-kernel backend bookkeeping
static std::map<int, Str> g_realfd;

static int do_open(const char* path, int flags, unsigned mode) {
  Sys s{S_OPEN, 0}; s.path = path; s.arg = flags; s.n = mode;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) {
    int r = open(realpath_of(path).c_str(), flags, mode); int e = errno; if (r >= 0) g_realfd[r] = path; s.fd = r; return post(s, r, e);
  }
  Str p = norm(path);
  if (strlen(path) == 0) return post(s, -1, ENOENT);
  if (strlen(path) >= 4096) return post(s, -1, ENAMETOOLONG);
  { size_t i = 0; while (i <= p.size()) { size_t j = p.find('/', i); if (j == Str::npos) j = p.size(); if (j - i > 255) return post(s, -1, ENAMETOOLONG); i = j + 1; } }
  InodeP ino = vfs.lookup(p); Proc& pr = vfs.procs[vfs.cur]; int acc = flags & O_ACCMODE;
  if (!ino) {
    if (!(flags & O_CREAT)) return post(s, -1, ENOENT);
    InodeP d = vfs.lookup(parent(p)); if (!d) return post(s, -1, ENOENT); if (!d->dir) return post(s, -1, ENOTDIR);
    if (path[strlen(path) - 1] == '/') return post(s, -1, EISDIR);
    ino = vfs.put(p, "", mode & 07777 & ~pr.umask_);
    eff(Eff::CREATE, ino->id, 0, "", p, ino->mode);
  } else {
    if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) return post(s, -1, EEXIST);
    if (ino->dir && acc != O_RDONLY) return post(s, -1, EISDIR);
    if (ino->dir && (flags & O_CREAT)) return post(s, -1, EISDIR);
    if (acc != O_WRONLY && !(ino->mode & 0400)) return post(s, -1, EACCES);
    if (acc != O_RDONLY && !(ino->mode & 0200)) return post(s, -1, EACCES);
    if ((flags & O_TRUNC) && acc != O_RDONLY && !ino->data.empty()) { ino->data.clear(); eff(Eff::TRUNC, ino->id, 0); }
  }
  auto o = std::make_shared<Ofd>(); o->id = vfs.next_ofd++; o->ino = ino; o->flags = flags; o->path = p;
  int fd = lowest_fd(pr); pr.fds[fd] = o; s.fd = fd; s.ofd = o->id; s.ino = ino->id;
  return post(s, fd);
}
static void drop_locks_on_close(const OfdP& o, bool last) {
  auto it = vfs.locks.find(o->ino->id); if (it == vfs.locks.end()) return;
  auto& v = it->second;
  v.erase(std::remove_if(v.begin(), v.end(), [&](const Lock& l) { return (l.kind == 0 && last && l.owner == o->id) || (l.kind == 1 && l.owner == vfs.cur); }), v.end());
  if (v.empty()) vfs.locks.erase(it);
}
static int do_close(int fd) {
  Sys s{S_CLOSE, 0}; s.fd = fd;
  Ans a = pre(s);
  if (g_real_fs) { int r = close(fd), e = errno; g_realfd.erase(fd); return post(s, r, e); }
  OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF);
  drop_locks_on_close(o, --o->refs == 0);
  vfs.procs[vfs.cur].fds.erase(fd);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  return post(s, 0);
}
static ssize_t do_read(int fd, void* buf, size_t n, off_t at) {
  Sys s{S_READ, 0}; s.fd = fd; s.n = n; s.off = at;
  { Proc& p = vfs.procs[vfs.cur]; auto it = p.fds.find(fd); if (it != p.fds.end()) { s.path = it->second->path; s.ino = it->second->ino->id; } }
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (a.k == Ans::PART && n > a.n) n = a.n;
  if (g_real_fs) { ssize_t r = at >= 0 ? pread(fd, buf, n, at) : read(fd, buf, n); int e = errno; return post(s, r, e); }
  OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF);
  if ((o->flags & O_ACCMODE) == O_WRONLY) return post(s, -1, EBADF);
  if (o->ino->dir) return post(s, -1, EISDIR);
  off_t pos = at >= 0 ? at : o->pos; const Str& d = o->ino->data;
  size_t k = pos >= (off_t)d.size() ? 0 : std::min(n, d.size() - (size_t)pos);
  memcpy(buf, d.data() + pos, k);
  if (at < 0) o->pos += k;
  return post(s, k);
}
static ssize_t do_write(int fd, const void* buf, size_t n, off_t at) {
  Sys s{S_WRITE, 0}; s.fd = fd; s.n = n; s.off = at; s.data = (const char*)buf;
  { Proc& p = vfs.procs[vfs.cur]; auto it = p.fds.find(fd); if (it != p.fds.end()) { s.path = it->second->path; s.ino = it->second->ino->id; } }
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (a.k == Ans::PART && n > a.n) n = a.n;
  if (g_real_fs) { ssize_t r = at >= 0 ? pwrite(fd, buf, n, at) : write(fd, buf, n); int e = errno; return post(s, r, e); }
  OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF);
  if ((o->flags & O_ACCMODE) == O_RDONLY) return post(s, -1, EBADF);
  Str& d = o->ino->data; off_t pos = at >= 0 ? at : (o->flags & O_APPEND) ? (off_t)d.size() : o->pos;
  if ((size_t)pos + n > heap.max_bytes) return post(s, -1, EFBIG);
  Str chunk((const char*)buf, n);
  if (n) { if (d.size() < pos + n) d.resize(pos + n); memcpy(&d[pos], chunk.data(), n); eff(Eff::WRITE, o->ino->id, pos, chunk); }
  if (at < 0) o->pos = pos + n;
  s.off = pos;
  return post(s, n);
}
static off_t do_lseek(int fd, off_t off, int wh) {
  Sys s{S_LSEEK, 0}; s.fd = fd; s.off = off; s.arg = wh;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { off_t r = lseek(fd, off, wh); int e = errno; return post(s, r, e); }
  OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF);
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (off_t)o->ino->data.size();
  if (b + off < 0) return post(s, -1, EINVAL);
  o->pos = b + off; return post(s, o->pos);
}
static int do_fsync(int fd) {
  Sys s{S_FSYNC, 0}; s.fd = fd;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { int r = fsync(fd), e = errno; return post(s, r, e); }
  OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF);
  eff(Eff::SYNC, o->ino->id); return post(s, 0);
}
static int do_trunc(int fd, const char* path, off_t len) {
  Sys s{S_FTRUNC, 0}; s.fd = fd; s.off = len; if (path) s.path = path;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { int r = path ? truncate(realpath_of(path).c_str(), len) : ftruncate(fd, len), e = errno; return post(s, r, e); }
  InodeP ino;
  if (path) { ino = vfs.lookup(norm(path)); if (!ino) return post(s, -1, ENOENT); }
  else { OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF); if ((o->flags & O_ACCMODE) == O_RDONLY) return post(s, -1, EINVAL); ino = o->ino; }
  if (len < 0) return post(s, -1, EINVAL);
  ino->data.resize(len); eff(Eff::TRUNC, ino->id, len); return post(s, 0);
}
static bool conflicts(const std::vector<Lock>& v, const Lock& w) {
  for (auto& l : v) if (l.kind == w.kind && l.owner != w.owner && (l.excl || w.excl) && l.s < w.e && w.s < l.e) return true;
  return false;
}
static void unlock_range(int ino, const Lock& w) {
  auto it = vfs.locks.find(ino); if (it == vfs.locks.end()) return;
  std::vector<Lock> n;
  for (auto l : it->second) {
    if (l.kind != w.kind || l.owner != w.owner || !(l.s < w.e && w.s < l.e)) { n.push_back(l); continue; }
    if (l.s < w.s) { Lock x = l; x.e = w.s; n.push_back(x); }
    if (l.e > w.e) { Lock x = l; x.s = w.e; n.push_back(x); }
  }
  if (n.empty()) vfs.locks.erase(it); else it->second = n;
}
// returns 0 or errno
static int take(int ino, const Lock& w, bool block, Sys& s) {
  if (w.kind == 0) unlock_range(ino, w);   // conversions are not atomic
  while (vfs.locks.count(ino) && conflicts(vfs.locks[ino], w)) {
    if (!block) return EAGAIN;
    if (!vfs.wait_lock || !vfs.wait_lock(s, [ino, w] { return !(vfs.locks.count(ino) && conflicts(vfs.locks[ino], w)); })) fail("the operation waits for a lock that is never released (%s)", s.path.c_str());
  }
  unlock_range(ino, w); vfs.locks[ino].push_back(w); return 0;
}
static int do_flock(int fd, int op) {
  Sys s{S_FLOCK, 0}; s.fd = fd; s.arg = op;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) {
    if (vfs.wait_lock && !(op & LOCK_NB)) { int r, e; while ((r = flock(fd, op | LOCK_NB)) < 0 && (e = errno) == EWOULDBLOCK) vfs.wait_lock(s, nullptr); return post(s, r, e); }
    int r = flock(fd, op), e = errno; return post(s, r, e);
  }
  OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF);
  Lock w{0, o->id, vfs.cur, (op & ~LOCK_NB) == LOCK_EX, 0, (off_t)1 << 62};
  if ((op & ~LOCK_NB) == LOCK_UN) { unlock_range(o->ino->id, w); return post(s, 0); }
  int e = take(o->ino->id, w, !(op & LOCK_NB), s);
  return e ? post(s, -1, e) : post(s, 0);
}
static int do_fcntl(int fd, int cmd, void* argp, long arg) {
  Sys s{S_FCNTL, 0}; s.fd = fd; s.arg = cmd;
  bool lk = cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK;
  if (lk) s.n = ((struct flock*)argp)->l_type;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) {
    if (vfs.wait_lock && cmd == F_SETLKW) { int r, e; while ((r = fcntl(fd, F_SETLK, argp)) < 0 && ((e = errno) == EAGAIN || e == EACCES)) vfs.wait_lock(s, nullptr); return post(s, r, e); }
    int r = lk ? fcntl(fd, cmd, argp) : fcntl(fd, cmd, arg), e = errno; return post(s, r, e);
  }
  OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF);
  if (lk) {
    struct flock* f = (struct flock*)argp; int acc = o->flags & O_ACCMODE;
    if (f->l_type != F_RDLCK && f->l_type != F_WRLCK && f->l_type != F_UNLCK) return post(s, -1, EINVAL);
    off_t b = f->l_whence == SEEK_SET ? 0 : f->l_whence == SEEK_CUR ? o->pos : f->l_whence == SEEK_END ? (off_t)o->ino->data.size() : -1;
    if (b < 0) return post(s, -1, EINVAL);
    off_t st = b + f->l_start, en = f->l_len == 0 ? (off_t)1 << 62 : st + f->l_len; if (en < st) std::swap(st, en);
    if (st < 0) return post(s, -1, EINVAL);
    Lock w{1, vfs.cur, vfs.cur, f->l_type == F_WRLCK, st, en};
    if (cmd == F_GETLK) { if (!conflicts(vfs.locks[o->ino->id], w)) f->l_type = F_UNLCK; if (vfs.locks[o->ino->id].empty()) vfs.locks.erase(o->ino->id); return post(s, 0); }
    if (f->l_type == F_UNLCK) { unlock_range(o->ino->id, w); return post(s, 0); }
    if (f->l_type == F_RDLCK && acc == O_WRONLY) return post(s, -1, EBADF);
    if (f->l_type == F_WRLCK && acc == O_RDONLY) return post(s, -1, EBADF);
    int e = take(o->ino->id, w, cmd == F_SETLKW, s);
    return e ? post(s, -1, e) : post(s, 0);
  }
  if (cmd == F_GETFL) return post(s, (o->flags & ~(O_CREAT | O_TRUNC | O_EXCL | O_CLOEXEC | O_NOCTTY)) | 0100000);   // the kernel adds O_LARGEFILE
  if (cmd == F_SETFL) { o->flags = (o->flags & (O_ACCMODE)) | (arg & ~O_ACCMODE); return post(s, 0); }
  if (cmd == F_GETFD || cmd == F_SETFD) return post(s, 0);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int n = arg; while (vfs.procs[vfs.cur].fds.count(n)) n++; vfs.procs[vfs.cur].fds[n] = o; o->refs++; return post(s, n); }
  return post(s, -1, EINVAL);
}
static int do_access(const char* path, int mode) {
  Sys s{S_ACCESS, 0}; s.path = path; s.arg = mode;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { int r = access(realpath_of(path).c_str(), mode), e = errno; return post(s, r, e); }
  InodeP i = vfs.lookup(norm(path)); if (!i || !*path) return post(s, -1, ENOENT);
  if ((mode & R_OK) && !(i->mode & 0400)) return post(s, -1, EACCES);
  if ((mode & W_OK) && !(i->mode & 0200)) return post(s, -1, EACCES);
  if ((mode & X_OK) && !(i->mode & 0100)) return post(s, -1, EACCES);
  return post(s, 0);
}
static int do_stat(const char* path, int fd, struct stat* st) {
  Sys s{S_STAT, 0}; if (path) s.path = path; s.fd = fd;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { int r = path ? stat(realpath_of(path).c_str(), st) : fstat(fd, st), e = errno; return post(s, r, e); }
  InodeP i;
  if (path) { i = vfs.lookup(norm(path)); if (!i || !*path) return post(s, -1, ENOENT); }
  else { OfdP o = fdget(fd, s); if (!o) return post(s, -1, EBADF); i = o->ino; }
  memset(st, 0, sizeof *st);
  st->st_dev = 1; st->st_ino = i->id; st->st_mode = (i->dir ? S_IFDIR : S_IFREG) | i->mode; st->st_nlink = i->nlink; st->st_size = i->data.size(); st->st_blksize = 4096; st->st_blocks = (i->data.size() + 511) / 512;
  return post(s, 0);
}
static int do_unlink(const char* path) {
  Sys s{S_UNLINK, 0}; s.path = path;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { int r = unlink(realpath_of(path).c_str()), e = errno; return post(s, r, e); }
  Str p = norm(path); InodeP i = vfs.lookup(p); if (!i) return post(s, -1, ENOENT); if (i->dir) return post(s, -1, EISDIR);
  vfs.names.erase(p); eff(Eff::UNLINK, i->id, 0, "", p); return post(s, 0);
}
static int do_rename(const char* x, const char* y) {
  Sys s{S_RENAME, 0}; s.path = x;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { int r = rename(realpath_of(x).c_str(), realpath_of(y).c_str()), e = errno; return post(s, r, e); }
  Str p = norm(x), q = norm(y); InodeP i = vfs.lookup(p); if (!i) return post(s, -1, ENOENT);
  if (!vfs.lookup(parent(q))) return post(s, -1, ENOENT);
  vfs.names.erase(p); vfs.names[q] = i; eff(Eff::RENAME, i->id, 0, "", p, 0, q); return post(s, 0);
}
struct VDir { std::vector<Str> n; size_t pos = 0; struct dirent de; DIR* real = nullptr; };
static VDir* do_opendir(const char* path) {
  Sys s{S_OPENDIR, 0}; s.path = path;
  Ans a = pre(s);
  if (a.k == Ans::FAIL) { post(s, -1, a.err); return nullptr; }
  VDir* d = new VDir;
  if (g_real_fs) { d->real = opendir(realpath_of(path).c_str()); int e = errno; if (!d->real) { delete d; post(s, -1, e); return nullptr; } heap.live++; post(s, 0); return d; }
  Str p = norm(path); InodeP i = vfs.lookup(p);
  if (!i || !i->dir) { delete d; post(s, -1, i ? ENOTDIR : ENOENT); return nullptr; }
  d->n = {".", ".."};
  Str pp = p == "/" ? "/" : p + "/";
  for (auto& e : vfs.names) if (e.first.size() > pp.size() && !e.first.compare(0, pp.size(), pp) && e.first.find('/', pp.size()) == Str::npos) d->n.push_back(e.first.substr(pp.size()));
  // directory order is arbitrary: apply the selected permutation
  size_t k = vfs.readdir_perm, m = d->n.size();
  for (size_t j = 0; j + 1 < m; j++) { size_t r = k % (m - j); k /= (m - j); std::swap(d->n[j], d->n[j + r]); }
  heap.live++; post(s, 0); return d;
}
static struct dirent* do_readdir(VDir* d) {
  Sys s{S_READDIR, 0};
  Ans a = pre(s);
  if (a.k == Ans::FAIL) { post(s, -1, a.err); return nullptr; }
  if (d->real) { struct dirent* r = readdir(d->real); post(s, r ? 1 : 0); return r; }
  if (d->pos >= d->n.size()) { post(s, 0); return nullptr; }
  memset(&d->de, 0, sizeof d->de); snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->n[d->pos].c_str()); d->de.d_ino = d->pos + 1; d->de.d_type = DT_REG; if (d->pos == 0 || d->n[d->pos] == "." || d->n[d->pos] == "..") d->de.d_type = DT_UNKNOWN; d->pos++;
  post(s, 1); return &d->de;
}
static int do_closedir(VDir* d) {
  Sys s{S_CLOSEDIR, 0}; pre(s); if (d->real) closedir(d->real); delete d; heap.live--; return post(s, 0);
}
static mode_t do_umask(mode_t m) {
  Sys s{S_UMASK, 0}; s.arg = m; pre(s);
  if (g_real_fs) return post(s, umask(m));
  unsigned o = vfs.procs[vfs.cur].umask_; vfs.procs[vfs.cur].umask_ = m & 0777; return post(s, o);
}
static int do_chmod(const char* path, int fd, unsigned mode) {
  Sys s{S_CHMOD, 0}; if (path) s.path = path; s.fd = fd; s.arg = mode;
  Ans a = pre(s); if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { int r = path ? chmod(realpath_of(path).c_str(), mode) : fchmod(fd, mode), e = errno; return post(s, r, e); }
  InodeP i; if (path) i = vfs.lookup(norm(path)); else { OfdP o = fdget(fd, s); if (o) i = o->ino; }
  if (!i) return post(s, -1, path ? ENOENT : EBADF);
  i->mode = mode & 07777; return post(s, 0);
}
static int do_mkdir(const char* path, unsigned mode) {
  Sys s{S_MKDIR, 0}; s.path = path; s.arg = mode;
  Ans a = pre(s); if (a.k == Ans::FAIL) return post(s, -1, a.err);
  if (g_real_fs) { int r = mkdir(realpath_of(path).c_str(), mode), e = errno; return post(s, r, e); }
  Str p = norm(path); if (vfs.lookup(p)) return post(s, -1, EEXIST); if (!vfs.lookup(parent(p))) return post(s, -1, ENOENT);
  auto i = vfs.put(p, "", mode & 0777 & ~vfs.procs[vfs.cur].umask_); i->dir = true; return post(s, 0);
}
void vfs_mkdir(const Str& p) { auto i = vfs.put(p, "", 0755); i->dir = true; }

extern "C" {
int vf_open(const char* p, int f, ...) { unsigned m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, unsigned); va_end(a); } return do_open(p, f, m); }
int vf_openat(int, const char* p, int f, ...) { unsigned m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, unsigned); va_end(a); } return do_open(p, f, m); }
int vf_creat(const char* p, unsigned m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int vf_close(int fd) { return do_close(fd); }
ssize_t vf_read(int fd, void* b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t vf_write(int fd, const void* b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t vf_pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t vf_pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t vf_writev(int fd, const struct iovec* v, int c) { Str s; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); return do_write(fd, s.data(), s.size(), -1); }
ssize_t vf_readv(int fd, const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; Str s(n, 0); ssize_t r = do_read(fd, &s[0], n, -1); size_t at = 0; for (int i = 0; i < c && r > 0 && at < (size_t)r; i++) { size_t k = std::min(v[i].iov_len, (size_t)r - at); memcpy(v[i].iov_base, s.data() + at, k); at += k; } return r; }
off_t vf_lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
int vf_fsync(int fd) { return do_fsync(fd); }
int vf_fdatasync(int fd) { return do_fsync(fd); }
int vf_ftruncate(int fd, off_t l) { return do_trunc(fd, nullptr, l); }
int vf_truncate(const char* p, off_t l) { return do_trunc(-1, p, l); }
int vf_flock(int fd, int op) { return do_flock(fd, op); }
int vf_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void* p = va_arg(a, void*); va_end(a); return do_fcntl(fd, cmd, p, (long)p); }
int vf_access(const char* p, int m) { return do_access(p, m); }
int vf_faccessat(int, const char* p, int m, int) { return do_access(p, m); }
int vf_stat(const char* p, struct stat* s) { return do_stat(p, -1, s); }
int vf_fstatat(int, const char* p, struct stat* s, int) { return do_stat(p, -1, s); }
int vf_fstat(int fd, struct stat* s) { return do_stat(nullptr, fd, s); }
int vf_unlink(const char* p) { return do_unlink(p); }
int vf_rename(const char* a, const char* b) { return do_rename(a, b); }
void* vf_opendir(const char* p) { return do_opendir(p); }
struct dirent* vf_readdir(void* d) { return do_readdir((VDir*)d); }
int vf_closedir(void* d) { return do_closedir((VDir*)d); }
mode_t vf_umask(mode_t m) { return do_umask(m); }
int vf_chmod(const char* p, mode_t m) { return do_chmod(p, -1, m); }
int vf_fchmod(int fd, mode_t m) { return do_chmod(nullptr, fd, m); }
int vf_mkdir(const char* p, mode_t m) { return do_mkdir(p, m); }
int vf_lockf(int fd, int op, off_t len) { struct flock fl = {}; fl.l_type = op == F_ULOCK ? F_UNLCK : F_WRLCK; fl.l_whence = SEEK_CUR; fl.l_len = len; if (op == F_TEST) { if (vf_fcntl(fd, F_GETLK, &fl)) return -1; if (fl.l_type != F_UNLCK) { errno = EACCES; return -1; } return 0; } return vf_fcntl(fd, op == F_TLOCK ? F_SETLK : F_SETLKW, &fl); }
int vf_eaccess(const char* p, int m) { return do_access(p, m); }
int vf_euidaccess(const char* p, int m) { return do_access(p, m); }
int vf_usleep(unsigned us) { Sys s{S_USLEEP, 0}; s.n = us; pre(s); return post(s, 0); }
unsigned vf_sleep(unsigned us) { vf_usleep(us); return 0; }
int vf_nanosleep(const struct timespec*, struct timespec*) { return vf_usleep(1); }
}
extern "C" {
void vf__exit(int s) { vf_exit(s); }
void vf__Exit(int s) { vf_exit(s); }
char* vf___strdup(const char* s) { return vf_strdup(s); }
__typeof__(vf_open) vf_open64 __attribute__((alias("vf_open")));
__typeof__(vf_openat) vf_openat64 __attribute__((alias("vf_openat")));
__typeof__(vf_creat) vf_creat64 __attribute__((alias("vf_creat")));
__typeof__(vf_pread) vf_pread64 __attribute__((alias("vf_pread")));
__typeof__(vf_pwrite) vf_pwrite64 __attribute__((alias("vf_pwrite")));
__typeof__(vf_lseek) vf_lseek64 __attribute__((alias("vf_lseek")));
__typeof__(vf_ftruncate) vf_ftruncate64 __attribute__((alias("vf_ftruncate")));
__typeof__(vf_truncate) vf_truncate64 __attribute__((alias("vf_truncate")));
__typeof__(vf_fcntl) vf_fcntl64 __attribute__((alias("vf_fcntl")));
__typeof__(vf_stat) vf_stat64 __attribute__((alias("vf_stat")));
__typeof__(vf_stat) vf_lstat __attribute__((alias("vf_stat")));
__typeof__(vf_stat) vf_lstat64 __attribute__((alias("vf_stat")));
__typeof__(vf_fstat) vf_fstat64 __attribute__((alias("vf_fstat")));
__typeof__(vf_unlink) vf_remove __attribute__((alias("vf_unlink")));
__typeof__(vf_readdir) vf_readdir64 __attribute__((alias("vf_readdir")));
}
