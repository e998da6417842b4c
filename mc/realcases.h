// Operations run both on the in-process MPI and, unchanged, on Open MPI: what each process observes
// (results, trees in iteration order, files byte for byte) must be the same.
#pragma once
#include <string>
#include <vector>
extern "C" {
#include "kvtree_mpi.h"
extern unsigned long kvtree_verif_segsize __attribute__((weak));
}
namespace real {
typedef std::string S;
static inline S num(long x) { return std::to_string(x); }
static S dump(const kvtree* h) { S s = "{"; for (kvtree_elem* e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) { s += kvtree_elem_key(e); s += dump(kvtree_elem_hash(e)); } return s + "}"; }
static kvtree* tree(int i, int kind) { kvtree* h = kvtree_new(); if (kind == 0) return h; kvtree_setf(h, kvtree_new(), "%s %d", "from", i); if (kind == 2) for (int j = 0; j < 40 + i; j++) kvtree_setf(h, kvtree_new(), "%s %d %d", "key", j, i * 100 + j); if (kind == 3) { S big(40000 + i, 'a' + i % 26); kvtree_set(h, big.c_str(), kvtree_new()); } return h; }
static kvtree* old(int k) { kvtree* h = kvtree_new(); if (k % 3) kvtree_setf(h, kvtree_new(), "%s %s", "from", "before"); if (k % 3 == 2) kvtree_set(h, "junk", tree(7, 2)); return h; }
struct Case { int n; bool rev; int op, a, b; };   // processes, reversed ranks, operation and its parameters
enum { SENDRECV, CHAIN, BCAST, EXCHANGE, DIRECTION, FILES, NOPS };
static std::vector<Case> cases(int op) {
  std::vector<Case> v; for (int n = 1; n <= 6; n++) for (int rev = 0; rev < 2; rev++) { int na = op == SENDRECV ? n + 1 : op == BCAST ? n : op == CHAIN ? 1 : op == EXCHANGE ? 5 : op == DIRECTION ? 10 : 4; for (int a = 0; a < na; a++) for (int b = 0; b < 4; b++) v.push_back({n, (bool)rev, op, a, b}); }
  return v;
}
static S name(const Case& c) { static const char* o[] = {"send/receive", "chain", "broadcast", "exchange", "exchange in one direction", "gathered files"}; return S(o[c.op]) + " " + num(c.a) + " kind " + num(c.b) + " on " + num(c.n) + " processes" + (c.rev ? ", reversed" : ""); }
static void seg(unsigned long n) { if (&kvtree_verif_segsize) kvtree_verif_segsize = n; }
static kvtree* outgoing(int r, int n, int a, int b) {   // a: 0 nothing, 1 all to all, 2 all to 0, 3 neighbours, 4 sparse
  kvtree* h = kvtree_new(); for (int d = n - 1; d >= 0; d--) { bool y = a == 1 || (a == 2 && d == 0) || (a == 3 && (d == (r + 1) % n || d == (r + n - 1) % n)) || (a == 4 && (r * 5 + d * 3) % 4 == 0); if (y) { kvtree* t = tree(r * 10 + d, b); kvtree_exchange_sendq(h, d, t); kvtree_delete(&t); } } return h;
}
static S run(const Case& c, int r, MPI_Comm m, const S& prefix) {
  S o; int n = c.n;
  if (c.op == SENDRECV) {            // a < n: shift by a; a == n: nobody to send to or receive from except 0 -> n-1
    int to = c.a < n ? (r + c.a) % n : r == 0 ? n - 1 : MPI_PROC_NULL, from = c.a < n ? (r - c.a + n) % n : r == n - 1 ? 0 : MPI_PROC_NULL;
    for (int k = 0; k < 2; k++) { kvtree *s = tree(r, (c.b + k) % 4), *h = old(r + k); o += num(kvtree_sendrecv(s, to, h, from, m)) + dump(s) + dump(h); kvtree_delete(&s); kvtree_delete(&h); }
  } else if (c.op == CHAIN) {
    kvtree* h = old(r); if (r > 0) for (int k = 0; k < 3; k++) { o += num(kvtree_recv(h, r - 1, m)) + dump(h); }
    if (r + 1 < n) for (int k = 0; k < 3; k++) { kvtree* s = tree(10 * r + k, (c.b + k) % 4); o += num(kvtree_send(s, r + 1, m)) + dump(s); kvtree_delete(&s); }
    kvtree_delete(&h);
  } else if (c.op == BCAST) {
    for (int k = 0; k < 2; k++) { kvtree* h = r == c.a ? tree(r, (c.b + k) % 4) : old(r); o += num(kvtree_bcast(h, c.a, m)) + dump(h); kvtree_delete(&h); }
  } else if (c.op == EXCHANGE || c.op == DIRECTION) {
    kvtree *s = outgoing(r, n, c.a % 5, c.b), *h = kvtree_new(); o += num(c.op == EXCHANGE ? kvtree_exchange(s, h, m) : kvtree_exchange_direction(s, h, m, c.a < 5 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT)) + dump(s) + dump(h); kvtree_delete(&s); kvtree_delete(&h);
  } else {
    static const unsigned long segs[] = {1 << 20, 200, 400, 3000}; seg(segs[c.a]); kvtree* s = tree(r, c.b == 3 ? r % 4 : c.b); o += num(kvtree_write_gather(prefix.c_str(), s, m)) + dump(s); kvtree* h = old(r); o += num(kvtree_read_scatter(prefix.c_str(), h, m)) + dump(h); kvtree_delete(&h);
    MPI_Barrier(m); if (r == 0) { h = old(1); o += num(kvtree_read_scatter_single(prefix.c_str(), h)) + dump(h); kvtree_delete(&h); }
    MPI_Barrier(m); kvtree_delete(&s); seg(0);
  }
  return o;
}
}
