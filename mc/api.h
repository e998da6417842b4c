// The two builds of the library: a (flock, byteswap.h) and b (fcntl, own byte swapping).
#pragma once
#include "model.h"
extern "C" {
#include "kvtree_mpi.h"
#define KV_FUNCS(X) X(kvtree_pack_size) X(kvtree_pack) X(kvtree_unpack) X(kvtree_write_persist) X(kvtree_write_fd) X(kvtree_read_fd) X(kvtree_write_file) X(kvtree_read_file) X(kvtree_read_with_lock) X(kvtree_write_with_lock) X(kvtree_lock_open_read) X(kvtree_write_close_unlock) X(kvtree_write_to_gather) X(kvtree_read_scatter_single) X(kvtree_write_gather) X(kvtree_read_scatter)
#define X(f) __typeof__(f) b_##f;
KV_FUNCS(X)
#undef X
}
struct Api {
  const char* name;
#define X(f) __typeof__(&::f) f;
  KV_FUNCS(X)
#undef X
};
static const Api API[2] = {
  {"flock build",
#define X(f) ::f,
  KV_FUNCS(X)
#undef X
  }, {"fcntl build",
#define X(f) b_##f,
  KV_FUNCS(X)
#undef X
  }};
// the ways a whole tree is stored in and read from one file
enum { W_FILE, W_LOCK, W_RMW, W_N };
static const char* wname[] = {"kvtree_write_file", "kvtree_write_with_lock", "kvtree_lock_open_read+kvtree_write_close_unlock"};
static inline bool put_tree(const Api& a, int how, const char* f, kvtree* h) {
  if (how == W_FILE) return a.kvtree_write_file(f, h) == KVTREE_SUCCESS;
  if (how == W_LOCK) return a.kvtree_write_with_lock(f, h) == KVTREE_SUCCESS;
  int fd = -1; kvtree* old = kvtree_new(); int r = a.kvtree_lock_open_read(f, &fd, old); kvtree_delete(&old);
  if (r != KVTREE_SUCCESS) return false;
  return a.kvtree_write_close_unlock(f, &fd, h) == KVTREE_SUCCESS;
}
enum { R_FILE, R_LOCK, R_OPEN, R_N };
static const char* rname[] = {"kvtree_read_file", "kvtree_read_with_lock", "kvtree_lock_open_read"};
// lock_open_read: gives the descriptor back without writing (closing it is the program's business)
extern "C" int vf_close(int);
static inline bool get_tree(const Api& a, int how, const char* f, kvtree* h) {
  if (how == R_FILE) return a.kvtree_read_file(f, h) == KVTREE_SUCCESS;
  if (how == R_LOCK) return a.kvtree_read_with_lock(f, h) == KVTREE_SUCCESS;
  int fd = -2; int r = a.kvtree_lock_open_read(f, &fd, h);
  if (r == KVTREE_SUCCESS) { if (fd < 0) fail("kvtree_lock_open_read succeeds without a descriptor"); vf_close(fd); }
  else if (fd >= 0) fail("kvtree_lock_open_read fails but hands out descriptor %d", fd);
  return r == KVTREE_SUCCESS;
}
