// Communicators of the in-process MPI and exploration of schedules.
#pragma once
#include "env.h"
#include "fakempi.h"
#include <algorithm>
#include <numeric>

struct Grp { int world; std::vector<int> mem; int n() const { return mem.size(); } };   // a communicator: its members in the world
static inline Grp whole(int n) { Grp g; g.world = n; g.mem.resize(n); std::iota(g.mem.begin(), g.mem.end(), 0); return g; }
// communicators of size n that differ from the world: reordered, and with processes left out
static inline std::vector<Grp> groups(int n, bool all) {
  std::vector<Grp> v = {whole(n)}; Grp r = whole(n); std::reverse(r.mem.begin(), r.mem.end()); if (n > 1) v.push_back(r);
  Grp s; s.world = 2 * n; for (int i = 0; i < n; i++) s.mem.push_back(2 * ((i + 1) % n) + 1); v.push_back(s);
  if (all && n <= 4) { Grp g = whole(n); g.world = n + 1; for (auto& x : g.mem) x++; do v.push_back(g); while (std::next_permutation(g.mem.begin(), g.mem.end())); }
  return v;
}
// messages of the application itself that are under way during the operation: 1 sent on the same communicator with
// a tag of its own, 2 sent on another communicator, 4/8 with the receives for them posted before instead of after
static int g_bystand = 0;
static inline void with_bystanders(int r, MPI_Comm c, const std::function<void(int, MPI_Comm)>& body) {
  if (!g_bystand) { body(r, c); return; }
  int n = 0; MPI_Comm_size(c, &n); MPI_Comm c2; MPI_Comm_dup(c, &c2); struct M { int v[2]; }; std::vector<M> out(2 * n), in(2 * n); std::vector<MPI_Request> q; const int TAG = 31877;
  auto send = [&](int k, MPI_Comm cc, int tag) { for (int j = 0; j < n; j++) { out[k * n + j] = {{1000 * k + r, j}}; q.push_back(MPI_REQUEST_NULL); MPI_Isend(&out[k * n + j], sizeof(M), MPI_BYTE, j, tag, cc, &q.back()); } };
  auto recv = [&](int k, MPI_Comm cc, int tag) { for (int j = 0; j < n; j++) { in[k * n + j] = {{-1, -1}}; q.push_back(MPI_REQUEST_NULL); MPI_Irecv(&in[k * n + j], sizeof(M), MPI_BYTE, j, tag, cc, &q.back()); } };
  q.reserve(4 * n);
  if (g_bystand & 4) recv(0, c, TAG);
  if (g_bystand & 8) recv(1, c2, MPI_ANY_TAG);
  if (g_bystand & 1) send(0, c, TAG);
  if (g_bystand & 2) send(1, c2, 0);
  body(r, c);
  if (!(g_bystand & 1)) send(0, c, TAG);
  if (!(g_bystand & 2)) send(1, c2, 0);
  if (!(g_bystand & 4)) recv(0, c, TAG);
  if (!(g_bystand & 8)) recv(1, c2, MPI_ANY_TAG);
  MPI_Waitall(q.size(), q.data(), MPI_STATUSES_IGNORE);
  for (int k = 0; k < 2; k++) for (int j = 0; j < n; j++) if (in[k * n + j].v[0] != 1000 * k + j || in[k * n + j].v[1] != r) fail("a message of the application%s from %d to %d did not arrive unchanged", k ? " on another communicator" : " with its own tag", j, r);
  MPI_Comm_free(&c2);
}
static inline void run_on(const Grp& g, const std::function<void(int, MPI_Comm)>& body) {
  MPI_Comm c = nullptr; bool ident = g.world == g.n(); for (int i = 0; i < g.n(); i++) if (g.mem[i] != i) ident = false;
  mpi_run(g.world, [&](int w) { if (!c) c = ident ? MPI_COMM_WORLD : mpi_make_comm(g.mem); for (int r = 0; r < g.n(); r++) if (g.mem[r] == w) with_bystanders(r, c, body); });
}
static inline Str grp_str(const Grp& g) { Str s = sfmt("%d of %d processes:", g.n(), g.world); for (int x : g.mem) s += sfmt(" %d", x); return s; }
template <class F> static inline uint64_t schedules(int bound, F f) {
  return explore(bound, [&](Explorer& ex) {
    f([&](const std::vector<int>& en, int last) -> int {
      // default: stay with the same process, else the lowest runnable one; every other choice costs one of `bound`
      int k = -1; for (size_t i = 0; i < en.size(); i++) if (en[i] == last) k = i;
      std::vector<int> o; if (k >= 0) o.push_back(en[k]); for (size_t i = 0; i < en.size(); i++) if ((int)i != k) o.push_back(en[i]);
      return o[ex.choose(o.size())];
    }); n_state();
  });
}
static inline std::vector<MpiMode> completion_modes() { std::vector<MpiMode> v; for (auto& m : mpi_modes()) if (m.order == 0) { MpiMode x = m; x.order = -1; x.yield_calls = true; v.push_back(x); } return v; }

