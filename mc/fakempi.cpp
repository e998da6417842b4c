#include "fakempi.h"
#include "env.h"
#include <algorithm>
#include <deque>
#include <memory>

extern "C" void vf_exit(int);
MpiMode mpi_mode; MpiStats mpi_stats;
static std::deque<std::unique_ptr<kvmc_comm>> g_comms;
static kvmc_comm *g_world, *g_self[512];
static bool g_init;

struct kvmc_req { bool recv = false, done = false, waited = false; char* buf = nullptr; size_t n = 0, got = 0; int src = 0, dst = 0, tag = 0, comm = 0; std::shared_ptr<struct Msg> m; int proc = 0; std::function<bool()> cready; std::function<void()> cdone; };
struct Msg { Str data; const char* late = nullptr; size_t n = 0; int src, dst, tag, comm; bool matched = false; bool taken = false; };
typedef std::shared_ptr<Msg> MsgP;
static std::deque<MsgP> g_msgs;               // sent, not matched
static std::deque<kvmc_req*> g_recvs;         // posted, not matched
static std::vector<std::unique_ptr<kvmc_req>> g_reqs;
struct Coll { Str sig; std::map<int, Str> in; std::map<int, Str> sigs; int left = 0; int members = 0; };
static std::map<std::pair<int, uint64_t>, Coll> g_colls;

MPI_Comm kvmc_world() { return g_world; }
MPI_Comm kvmc_self() { return g_self[vfs.cur]; }
static int me(MPI_Comm c) { for (size_t i = 0; i < c->mem.size(); i++) if (c->mem[i] == vfs.cur) return i; fail("process %d used a communicator it does not belong to", vfs.cur); }
static size_t tsize(MPI_Datatype t) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_PACKED: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    default: return 8;
  }
}
static void point() { if (mpi_mode.yield_calls) fiber_yield(); }
static void check_peer(int r, MPI_Comm c, const char* f) { if (r < 0 || r >= (int)c->mem.size()) fail("%s: rank %d does not exist in a communicator of %zu", f, r, c->mem.size()); }

static void deliver(kvmc_req* r, const MsgP& m) {
  m->matched = true; r->m = m; r->src = m->src; r->tag = m->tag;
  if (m->n > r->n) fail("message truncated: %zu bytes sent from rank %d to %d, receiver posted %zu", m->n, m->src, m->dst, r->n);
  if (!mpi_mode.late_recv) { const char* d = m->late ? m->late : m->data.data(); if (m->n) memcpy(r->buf, d, m->n); r->got = m->n; m->taken = true; }
  r->done = true;
}
static void finish_recv(kvmc_req* r) {
  if (r->m && !r->m->taken) { const char* d = r->m->late ? r->m->late : r->m->data.data(); if (r->m->n) memcpy(r->buf, d, r->m->n); r->got = r->m->n; r->m->taken = true; }
}
static bool match(kvmc_req* r, const MsgP& m) { return r->comm == m->comm && r->dst == m->dst && (r->src == m->src || r->src == MPI_ANY_SOURCE) && (r->tag == m->tag || r->tag == MPI_ANY_TAG); }
static MsgP post_send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool late) {
  check_peer(dst, c, "send");
  if (n < 0) fail("send with a negative count %d", n);
  auto m = std::make_shared<Msg>(); m->n = n * tsize(t); m->src = me(c); m->dst = dst; m->tag = tag; m->comm = c->id;
  if (late) m->late = (const char*)b; else m->data.assign((const char*)b, m->n);
  mpi_stats.sends++; mpi_stats.bytes += m->n;
  if (g_verbose) TRACE("  mpi[%d] send %zu bytes to %d", vfs.cur, m->n, dst);
  for (size_t i = 0; i < g_recvs.size(); i++) if (match(g_recvs[i], m)) { kvmc_req* r = g_recvs[i]; g_recvs.erase(g_recvs.begin() + i); deliver(r, m); return m; }
  g_msgs.push_back(m); return m;
}
static kvmc_req* post_recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c) {
  if (src != MPI_ANY_SOURCE) check_peer(src, c, "receive");
  if (n < 0) fail("receive with a negative count %d", n);
  g_reqs.emplace_back(new kvmc_req); kvmc_req* r = g_reqs.back().get();
  r->recv = true; r->buf = (char*)b; r->n = n * tsize(t); r->src = src; r->dst = me(c); r->tag = tag; r->comm = c->id; r->proc = vfs.cur;
  if (mpi_mode.late_recv && r->n) memset(b, 0x5a, r->n);
  if (g_verbose) TRACE("  mpi[%d] receive up to %zu bytes from %d", vfs.cur, r->n, src);
  for (size_t i = 0; i < g_msgs.size(); i++) if (match(r, g_msgs[i])) { MsgP m = g_msgs[i]; g_msgs.erase(g_msgs.begin() + i); deliver(r, m); return r; }
  g_recvs.push_back(r); return r;
}
static void setst(MPI_Status* s, kvmc_req* r) { if (!s) return; if (r && r->recv) { s->MPI_SOURCE = r->src; s->MPI_TAG = r->tag; s->count_ = r->got; } else { s->MPI_SOURCE = MPI_PROC_NULL; s->MPI_TAG = MPI_ANY_TAG; s->count_ = 0; } s->MPI_ERROR = 0; }
static bool req_ready(kvmc_req* r) { if (!r) return true; if (r->cready) return r->cready(); if (r->recv) return r->done; return !mpi_mode.sync_send || r->m->matched; }
static void complete(MPI_Request* q, MPI_Status* st) {
  kvmc_req* r = *q; if (r && r->cdone) { r->cdone(); r->waited = true; setst(st, nullptr); *q = MPI_REQUEST_NULL; return; }
  if (r && r->recv) finish_recv(r);
  if (r && !r->recv && r->m->late && !r->m->taken) { r->m->data.assign(r->m->late, r->m->n); r->m->late = nullptr; }
  if (r) r->waited = true;
  setst(st, r); *q = MPI_REQUEST_NULL;
}

extern "C" {
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = me(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = c->mem.size(); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
  point(); if (dst == MPI_PROC_NULL) return 0;
  MsgP m = post_send(b, n, t, dst, tag, c, false);
  if (mpi_mode.sync_send) fiber_block([m] { return m->matched; }, "MPI_Send");
  return 0;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { point(); if (dst == MPI_PROC_NULL) return 0; MsgP m = post_send(b, n, t, dst, tag, c, false); fiber_block([m] { return m->matched; }, "MPI_Ssend"); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) {
  point(); if (src == MPI_PROC_NULL) { setst(st, nullptr); return 0; }
  kvmc_req* r = post_recv(b, n, t, src, tag, c); fiber_block([r] { return r->done; }, "MPI_Recv"); finish_recv(r); r->waited = true; setst(st, r); return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) {
  point(); if (dst == MPI_PROC_NULL) { *q = MPI_REQUEST_NULL; return 0; }
  g_reqs.emplace_back(new kvmc_req); kvmc_req* r = g_reqs.back().get(); *q = r; r->proc = vfs.cur;
  r->m = post_send(b, n, t, dst, tag, c, mpi_mode.late_copy); return 0;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) { return MPI_Isend(b, n, t, dst, tag, c, q); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) { point(); if (src == MPI_PROC_NULL) { *q = MPI_REQUEST_NULL; return 0; } *q = post_recv(b, n, t, src, tag, c); return 0; }
int MPI_Wait(MPI_Request* q, MPI_Status* st) { point(); kvmc_req* r = *q; fiber_block([r] { return req_ready(r); }, "MPI_Wait"); complete(q, st); return 0; }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) {
  point(); std::vector<kvmc_req*> v(q, q + n);
  fiber_block([v] { for (auto r : v) if (!req_ready(r)) return false; return true; }, "MPI_Waitall");
  for (int i = 0; i < n; i++) complete(&q[i], st ? &st[i] : nullptr); return 0;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st) {
  point(); std::vector<kvmc_req*> v(q, q + n); bool any = false; for (auto r : v) if (r) any = true;
  if (!any) { *idx = MPI_UNDEFINED; setst(st, nullptr); return 0; }
  fiber_block([v] { for (auto r : v) if (r && req_ready(r)) return true; return false; }, "MPI_Waitany");
  for (int i = 0; i < n; i++) if (q[i] && req_ready(q[i])) { complete(&q[i], st); *idx = i; return 0; }
  return 0;
}
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st) { fiber_yield(); if (req_ready(*q)) { complete(q, st); *f = 1; } else *f = 0; return 0; }
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st) { fiber_yield(); *f = 0; for (int i = 0; i < n; i++) if (!req_ready(q[i])) return 0; *f = 1; for (int i = 0; i < n; i++) complete(&q[i], st ? &st[i] : nullptr); return 0; }
static MsgP find_msg(int src, int tag, MPI_Comm c) { int r = me(c); for (auto& m : g_msgs) if (m->comm == c->id && m->dst == r && (m->src == src || src == MPI_ANY_SOURCE) && (m->tag == tag || tag == MPI_ANY_TAG)) return m; return nullptr; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
  point(); fiber_block([=] { return find_msg(src, tag, c) != nullptr; }, "MPI_Probe");
  MsgP m = find_msg(src, tag, c); if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->count_ = m->n; st->MPI_ERROR = 0; } return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* f, MPI_Status* st) { fiber_yield(); MsgP m = find_msg(src, tag, c); *f = !!m; if (m && st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->count_ = m->n; } return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->count_ / tsize(t); return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* stat) {
  MPI_Request q[2]; MPI_Irecv(rb, rn, rt, src, rtag, c, &q[0]); MPI_Isend(sb, sn, st, dst, stag, c, &q[1]); MPI_Status s[2]; MPI_Waitall(2, q, s); if (stat) *stat = s[0]; return 0;
}
}
// collectives -------------------------------------------------------------
static Coll& enter(MPI_Comm c, const Str& sig, const Str& data, std::pair<int, uint64_t>& key) {
  point(); int r = me(c); key = {c->id, c->seq[r]++}; Coll& k = g_colls[key];
  mpi_stats.colls++;
  if (g_verbose) TRACE("  mpi[%d] %s", vfs.cur, sig.c_str());
  if (k.sig.empty()) { k.sig = sig; k.members = c->mem.size(); }
  else if (k.sig != sig) fail("processes disagree about a collective operation: rank %d calls %s while others call %s", r, sig.c_str(), k.sig.c_str());
  k.in[r] = data; return k;
}
static void leave_coll(const std::pair<int, uint64_t>& key) { Coll& k = g_colls[key]; if (++k.left == k.members) g_colls.erase(key); }
static void wait_for(const std::pair<int, uint64_t>& key, const std::function<bool(const Coll&)>& need, const char* why) {
  Coll* k = &g_colls[key]; bool sync = mpi_mode.sync_coll;
  fiber_block([=] { if (sync && (int)k->in.size() < k->members) return false; return need(*k); }, why);
}
template <class X> static void red1(X* a, const X* b, int n, MPI_Op op) {
  for (int i = 0; i < n; i++) switch (op) {
    case MPI_MAX: a[i] = std::max(a[i], b[i]); break; case MPI_MIN: a[i] = std::min(a[i], b[i]); break; case MPI_SUM: a[i] = a[i] + b[i]; break; case MPI_PROD: a[i] = a[i] * b[i]; break;
    case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break;
    case MPI_BAND: a[i] = (X)((unsigned long long)a[i] & (unsigned long long)b[i]); break; case MPI_BOR: a[i] = (X)((unsigned long long)a[i] | (unsigned long long)b[i]); break;
    default: harness_error("reduction op %d not modelled", op);
  }
}
static void reduce(char* a, const char* b, int n, MPI_Datatype t, MPI_Op op) {
  switch (t) {
    case MPI_INT: case MPI_INT32_T: red1((int*)a, (const int*)b, n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: red1((unsigned*)a, (const unsigned*)b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red1((unsigned long*)a, (const unsigned long*)b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: red1((long*)a, (const long*)b, n, op); break;
    case MPI_DOUBLE: red1((double*)a, (const double*)b, n, op); break;
    case MPI_FLOAT: red1((float*)a, (const float*)b, n, op); break;
    case MPI_SHORT: red1((short*)a, (const short*)b, n, op); break;
    case MPI_CHAR: case MPI_SIGNED_CHAR: red1((signed char*)a, (const signed char*)b, n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_UINT8_T: red1((unsigned char*)a, (const unsigned char*)b, n, op); break;
    default: harness_error("reduction type %d not modelled", t);
  }
}
extern "C" {
int MPI_Barrier(MPI_Comm c) { std::pair<int, uint64_t> k; enter(c, "MPI_Barrier", "", k); wait_for(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, "MPI_Barrier"); leave_coll(k); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  check_peer(root, c, "MPI_Bcast"); int r = me(c); size_t sz = n * tsize(t); std::pair<int, uint64_t> k;
  enter(c, sfmt("MPI_Bcast of %zu bytes from %d", sz, root), r == root ? Str((char*)b, sz) : Str(), k);
  if (r != root && mpi_mode.late_recv && sz) memset(b, 0x5a, sz);
  wait_for(k, [root](const Coll& x) { return x.in.count(root) > 0; }, "MPI_Bcast");
  if (r != root && sz) memcpy(b, g_colls[k].in[root].data(), sz);
  leave_coll(k); return 0;
}
static int allred(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, const char* nm) {
  size_t sz = n * tsize(t); int r = me(c); std::pair<int, uint64_t> k;
  enter(c, sfmt("%s n=%d type=%d op=%d root=%d", nm, n, t, op, root), Str((const char*)(s == MPI_IN_PLACE ? d : s), sz), k);
  if (root < 0 || r == root) {
    wait_for(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, nm);
    Coll& x = g_colls[k]; Str a = x.in[0]; for (int i = 1; i < x.members; i++) reduce(&a[0], x.in[i].data(), n, t, op); memcpy(d, a.data(), sz);
  } else wait_for(k, [](const Coll&) { return true; }, nm);
  leave_coll(k); return 0;
}
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return allred(s, d, n, t, op, -1, c, "MPI_Allreduce"); }
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return allred(s, d, n, t, op, root, c, "MPI_Reduce"); }
static int scan(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool ex) {
  size_t sz = n * tsize(t); int r = me(c); std::pair<int, uint64_t> k;
  enter(c, sfmt("MPI_%s n=%d type=%d op=%d", ex ? "Exscan" : "Scan", n, t, op), Str((const char*)(s == MPI_IN_PLACE ? d : s), sz), k);
  wait_for(k, [r](const Coll& x) { for (int i = 0; i <= r; i++) if (!x.in.count(i)) return false; return true; }, "MPI_Scan");
  Coll& x = g_colls[k]; int last = ex ? r - 1 : r;
  if (last >= 0) { Str a = x.in[0]; for (int i = 1; i <= last; i++) reduce(&a[0], x.in[i].data(), n, t, op); memcpy(d, a.data(), sz); }
  leave_coll(k); return 0;
}
int MPI_Scan(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan(s, d, n, t, op, c, false); }
int MPI_Exscan(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan(s, d, n, t, op, c, true); }
static int gath(const void* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  int r = me(c); size_t sz = sn * tsize(st), rz = rn * tsize(rt); std::pair<int, uint64_t> k;
  const void* src = s == MPI_IN_PLACE ? (char*)d + r * rz : s; if (s == MPI_IN_PLACE) sz = rz;
  enter(c, sfmt("MPI_%s of %zu bytes root=%d", root < 0 ? "Allgather" : "Gather", sz, root), Str((const char*)src, sz), k);
  if (root < 0 || r == root) { wait_for(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, "MPI_Gather"); Coll& x = g_colls[k]; for (int i = 0; i < x.members; i++) if (rz) memcpy((char*)d + i * rz, x.in[i].data(), rz); }
  else wait_for(k, [](const Coll&) { return true; }, "MPI_Gather");
  leave_coll(k); return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gath(s, sn, st, d, rn, rt, root, c); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, MPI_Comm c) { return gath(s, sn, st, d, rn, rt, -1, c); }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, MPI_Comm c) {
  int r = me(c); size_t sz = sn * tsize(st); std::pair<int, uint64_t> k;
  enter(c, sfmt("MPI_Alltoall of %zu bytes", sz), Str((const char*)s, sz * c->mem.size()), k);
  wait_for(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, "MPI_Alltoall"); Coll& x = g_colls[k];
  for (int i = 0; i < x.members; i++) if (sz) memcpy((char*)d + i * sz, x.in[i].data() + r * sz, sz);
  leave_coll(k); return 0;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  int r = me(c); size_t rz = rn * tsize(rt); std::pair<int, uint64_t> k;
  enter(c, sfmt("MPI_Scatter of %zu bytes root=%d", rz, root), r == root ? Str((const char*)s, sn * tsize(st) * c->mem.size()) : Str(), k);
  wait_for(k, [root](const Coll& x) { return x.in.count(root) > 0; }, "MPI_Scatter"); Coll& x = g_colls[k];
  if (rz && d != MPI_IN_PLACE) memcpy(d, x.in[root].data() + r * rz, rz);
  leave_coll(k); return 0;
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* d, const int* rn, const int* disp, MPI_Datatype rt, int root, MPI_Comm c) {
  int r = me(c); size_t e = tsize(rt); std::pair<int, uint64_t> k;
  enter(c, sfmt("MPI_%s root=%d", root < 0 ? "Allgatherv" : "Gatherv", root), s == MPI_IN_PLACE ? Str((char*)d + disp[r] * e, rn[r] * e) : Str((const char*)s, sn * tsize(st)), k);
  if (root < 0 || r == root) { wait_for(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, "MPI_Gatherv"); Coll& x = g_colls[k]; for (int i = 0; i < x.members; i++) { if (x.in[i].size() > rn[i] * e) fail("message truncated in MPI_Gatherv"); if (!x.in[i].empty()) memcpy((char*)d + disp[i] * e, x.in[i].data(), x.in[i].size()); } }
  else wait_for(k, [](const Coll&) { return true; }, "MPI_Gatherv");
  leave_coll(k); return 0;
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* d, const int* rn, const int* disp, MPI_Datatype rt, MPI_Comm c) { return MPI_Gatherv(s, sn, st, d, rn, disp, rt, -1, c); }
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype st, void* d, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c) {
  int r = me(c), n = c->mem.size(); size_t e = tsize(st), f = tsize(rt); std::pair<int, uint64_t> k;
  if (s == MPI_IN_PLACE) harness_error("MPI_Alltoallv in place is not modelled");
  Str in; for (int i = 0; i < n; i++) { uint64_t z = sn[i] * e; in.append((char*)&z, 8); in.append((const char*)s + sd[i] * e, z); }
  enter(c, "MPI_Alltoallv", in, k); wait_for(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, "MPI_Alltoallv"); Coll& x = g_colls[k];
  for (int i = 0; i < n; i++) { const char* p = x.in[i].data(); uint64_t z; for (int j = 0;; j++) { memcpy(&z, p, 8); p += 8; if (j == r) break; p += z; } if (z > rn[i] * f) fail("message truncated in MPI_Alltoallv"); if (z) memcpy((char*)d + rd[i] * f, p, z); }
  leave_coll(k); return 0;
}
int MPI_Scatterv(const void* s, const int* sn, const int* disp, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  int r = me(c), n = c->mem.size(); size_t e = tsize(st); std::pair<int, uint64_t> k; Str in;
  if (r == root) for (int i = 0; i < n; i++) { uint64_t z = sn[i] * e; in.append((char*)&z, 8); in.append((const char*)s + disp[i] * e, z); }
  enter(c, sfmt("MPI_Scatterv root=%d", root), in, k); wait_for(k, [root](const Coll& x) { return x.in.count(root) > 0; }, "MPI_Scatterv");
  const char* p = g_colls[k].in[root].data(); uint64_t z; for (int j = 0;; j++) { memcpy(&z, p, 8); p += 8; if (j == r) break; p += z; }
  if (d != MPI_IN_PLACE) { if (z > rn * tsize(rt)) fail("message truncated in MPI_Scatterv"); if (z) memcpy(d, p, z); }
  leave_coll(k); return 0;
}
int MPI_Reduce_scatter_block(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { size_t e = n * tsize(t); Str b(e * c->mem.size(), 0); int r = me(c); allred(s == MPI_IN_PLACE ? d : s, &b[0], n * c->mem.size(), t, op, -1, c, "MPI_Reduce_scatter_block"); memcpy(d, b.data() + r * e, e); return 0; }
static kvmc_req* coll_req(std::pair<int, uint64_t> k, std::function<bool(const Coll&)> need, std::function<void(Coll&)> out) {
  g_reqs.emplace_back(new kvmc_req); kvmc_req* q = g_reqs.back().get(); q->proc = vfs.cur; bool sync = mpi_mode.sync_coll;
  q->cready = [=] { Coll& x = g_colls[k]; return (!sync || (int)x.in.size() == x.members) && need(x); }; q->cdone = [=] { out(g_colls[k]); leave_coll(k); }; return q;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request* q) { std::pair<int, uint64_t> k; enter(c, "MPI_Ibarrier", "", k); *q = coll_req(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, [](Coll&) {}); return 0; }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* q) {
  check_peer(root, c, "MPI_Ibcast"); int r = me(c); size_t sz = n * tsize(t); std::pair<int, uint64_t> k; enter(c, sfmt("MPI_Ibcast of %zu bytes from %d", sz, root), r == root ? Str((char*)b, sz) : Str(), k);
  *q = coll_req(k, [root](const Coll& x) { return x.in.count(root) > 0; }, [=](Coll& x) { if (r != root && sz) memcpy(b, x.in[root].data(), sz); }); return 0;
}
int MPI_Iallreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q) {
  size_t sz = n * tsize(t); std::pair<int, uint64_t> k; enter(c, sfmt("MPI_Iallreduce n=%d type=%d op=%d", n, t, op), Str((const char*)(s == MPI_IN_PLACE ? d : s), sz), k);
  *q = coll_req(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, [=](Coll& x) { Str a = x.in[0]; for (int i = 1; i < x.members; i++) reduce(&a[0], x.in[i].data(), n, t, op); memcpy(d, a.data(), sz); }); return 0;
}
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status* st) { Str o((char*)b, n * tsize(t)); return MPI_Sendrecv(o.data(), n, t, dst, stag, b, n, t, src, rtag, c, st); }
int MPI_Testany(int n, MPI_Request* q, int* idx, int* f, MPI_Status* st) { fiber_yield(); bool any = false; *f = 0; *idx = MPI_UNDEFINED; for (int i = 0; i < n; i++) if (q[i]) { any = true; if (req_ready(q[i])) { complete(&q[i], st); *f = 1; *idx = i; return 0; } } if (!any) { *f = 1; setst(st, nullptr); } return 0; }
int MPI_Waitsome(int n, MPI_Request* q, int* cnt, int* idx, MPI_Status* st) { int i; MPI_Status s; MPI_Waitany(n, q, &i, &s); if (i == MPI_UNDEFINED) { *cnt = MPI_UNDEFINED; return 0; } *cnt = 1; idx[0] = i; if (st) st[0] = s; return 0; }
int MPI_Mprobe(int src, int tag, MPI_Comm c, MPI_Message* mm, MPI_Status* st) {
  MPI_Probe(src, tag, c, st); MsgP m = find_msg(src, tag, c); g_msgs.erase(std::find(g_msgs.begin(), g_msgs.end(), m)); *mm = (MPI_Message)new MsgP(m); return 0;
}
int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* mm, MPI_Status* st) {
  point(); MsgP m = *(MsgP*)*mm; delete (MsgP*)*mm; *mm = MPI_MESSAGE_NULL; if (m->n > n * tsize(t)) fail("message truncated in MPI_Mrecv");
  m->matched = m->taken = true; const char* d = m->late ? m->late : m->data.data(); if (m->n) memcpy(b, d, m->n); if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->count_ = m->n; st->MPI_ERROR = 0; } return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* o) { *o = a == b ? MPI_IDENT : a->mem == b->mem ? MPI_CONGRUENT : MPI_UNEQUAL; return 0; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "node"); *n = 4; return 0; }
int MPI_Error_string(int e, char* s, int* n) { *n = sprintf(s, "MPI error %d", e); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) {
  std::pair<int, uint64_t> k; int r = me(c); enter(c, "MPI_Comm_dup", "", k);
  wait_for(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, "MPI_Comm_dup");
  // the first to leave creates the communicator
  Coll& x = g_colls[k]; if (x.left == 0) { MPI_Comm n = mpi_make_comm(c->mem); x.in[0] = Str((char*)&n, sizeof n); } memcpy(o, x.in[0].data(), sizeof *o); (void)r; leave_coll(k); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) {
  int v[2] = {color, key}; std::pair<int, uint64_t> k; int r = me(c); enter(c, "MPI_Comm_split", Str((char*)v, sizeof v), k);
  wait_for(k, [](const Coll& x) { return (int)x.in.size() == x.members; }, "MPI_Comm_split"); Coll& x = g_colls[k];
  static std::map<Str, MPI_Comm> made; Str id = sfmt("%d/%llu/%d", k.first, (unsigned long long)k.second, color);
  if (x.left == 0) made.clear();
  if (color == MPI_UNDEFINED) *o = MPI_COMM_NULL;
  else if (made.count(id)) *o = made[id];
  else { std::vector<std::pair<int, int>> m; for (auto& e : x.in) { int w[2]; memcpy(w, e.second.data(), sizeof w); if (w[0] == color) m.push_back({w[1], e.first}); } std::stable_sort(m.begin(), m.end()); std::vector<int> mem; for (auto& e : m) mem.push_back(c->mem[e.second]); *o = made[id] = mpi_make_comm(mem); }
  (void)r; leave_coll(k); return 0;
}
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = tsize(t); return 0; }
int MPI_Abort(MPI_Comm, int st) { vf_exit(st); return 0; }
int MPI_Initialized(int* f) { *f = g_init; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
double MPI_Wtime(void) { return 0; }
}

MPI_Comm mpi_make_comm(const std::vector<int>& members) { g_comms.emplace_back(new kvmc_comm); kvmc_comm* c = g_comms.back().get(); c->id = g_comms.size(); c->mem = members; return c; }
void mpi_run(int n, const std::function<void(int)>& body) {
  g_comms.clear(); g_msgs.clear(); g_recvs.clear(); g_reqs.clear(); g_colls.clear(); g_init = true; mpi_stats = MpiStats();
  std::vector<int> w; for (int i = 0; i < n; i++) { w.push_back(i); } g_world = mpi_make_comm(w);
  for (int i = 0; i < n; i++) g_self[i] = mpi_make_comm({i});
  if ((int)vfs.procs.size() < n) harness_error("mpi_run: the file system has %zu processes", vfs.procs.size());
  sched.what = "ranks"; sched.on_switch = [](int t) { vfs.cur = t; };
  int order = mpi_mode.order;
  if (!sched.pick || order >= 0) sched.pick = [order](const std::vector<int>& en, int last) {
    if (order == 0) return en.front();
    if (order == 1) return en.back();
    if (order == 2) { for (int e : en) if (e > last) return e; return en.front(); }
    for (size_t i = en.size(); i-- > 0;) if (en[i] < last) return en[i];
    return en.back();
  };
  fibers_run(n, body);
  vfs.cur = 0;
  if (fibers_abandoned) return;
  if (!g_msgs.empty()) fail("a message of %zu bytes from rank %d to rank %d was never received", g_msgs[0]->n, g_msgs[0]->src, g_msgs[0]->dst);
  if (!g_recvs.empty()) fail("rank %d posted a receive that was never matched", g_recvs[0]->dst);
  for (auto& r : g_reqs) if (!r->waited) fail("a message request of rank %d was never completed", r->proc);
  if (!g_colls.empty()) fail("a collective operation was not entered by every process: %s", g_colls.begin()->second.sig.c_str());
}
Str mpi_mode_str(const MpiMode& m) { return sfmt("%s sends, %s copy, %s delivery, %s collectives, order %d%s", m.sync_send ? "synchronous" : "eager", m.late_copy ? "late" : "early", m.late_recv ? "late" : "early", m.sync_coll ? "synchronising" : "eager", m.order, m.yield_calls ? ", preemptive" : ""); }
std::vector<MpiMode> mpi_modes() {
  std::vector<MpiMode> v;
  for (int s = 0; s < 2; s++) for (int l = 0; l < 2; l++) for (int c = 0; c < 2; c++) for (int o = 0; o < 4; o++) { MpiMode m; m.sync_send = s; m.late_copy = l; m.late_recv = l; m.sync_coll = c; m.order = o; m.yield_calls = o >= 2; v.push_back(m); }
  return v;
}
