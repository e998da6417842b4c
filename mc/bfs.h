// Breadth-first search over real library states.  A state is represented by the
// operation history that reaches it; the real object is rebuilt by replaying it.
// World: World(); ~World() releases everything; static int nops();
//        bool apply(int op, bool check)  -> false if disabled;  Str key() ; Str opname(int)
#pragma once
#include "core.h"
#include <unordered_set>

template <class W> uint64_t bfs(const char* name, const char* rule, int maxdepth, uint64_t maxstates, int chunk = 16) {
  std::vector<std::string> frontier = {""};     // histories, 2 bytes per op
  std::unordered_set<uint64_t> seen; uint64_t states = 1; bool capped = false;
  { W w; seen.insert(fnv(w.key())); }
  for (int d = 0; d < maxdepth && !frontier.empty(); d++) {
    uint64_t nc = (frontier.size() + chunk - 1) / chunk;
    Str sn = sfmt("%s-%02d", name, d);
    auto res = suite_map(sn.c_str(), nc, [&](uint64_t c) {
      Str out; std::unordered_set<uint64_t> local;
      for (uint64_t i = c * chunk; i < (c + 1) * chunk && i < frontier.size(); i++) {
        const Str& h = frontier[i];
        for (int op = 0; op < W::nops(); op++) {
          trace_begin(); uint64_t k; bool ok;
          {
            W w;
            for (size_t j = 0; j + 1 < h.size(); j += 2) { int o = (unsigned char)h[j] | (unsigned char)h[j + 1] << 8; if (g_verbose) TRACE("%s", W::opname(o).c_str()); if (!w.apply(o, false)) harness_error("bfs: history op disabled on replay"); }
            if (g_verbose) TRACE("%s   <- step under test", W::opname(op).c_str());
            ok = w.apply(op, true);
            if (ok) k = fnv(w.key());
            w.finish(ok);
          }
          if (!ok) continue;
          n_trans(); n_valid(); n_eval();
          if (op % 7 == 3) sample(Str("history ") + [&] { Str t; for (size_t j = 0; j + 1 < h.size(); j += 2) t += W::opname((unsigned char)h[j] | (unsigned char)h[j + 1] << 8) + "; "; return t; }() + "then " + W::opname(op));
          if (!seen.count(k) && local.insert(k).second) { out.append((char*)&k, 8); uint16_t o = op; out.append((char*)&o, 2); uint32_t ii = i; out.append((char*)&ii, 4); }
        }
      }
      return out;
    }, rule);
    std::vector<Str> next;
    for (auto& r : res) for (size_t at = 0; at + 14 <= r.size(); at += 14) {
      uint64_t k; uint16_t o; uint32_t i; memcpy(&k, &r[at], 8); memcpy(&o, &r[at + 8], 2); memcpy(&i, &r[at + 10], 4);
      if (!seen.insert(k).second) continue;
      if (states >= maxstates) { capped = true; continue; }
      states++; outcome(k);
      Str h = frontier[i]; h += (char)(o & 255); h += (char)(o >> 8); next.push_back(h);
    }
    frontier.swap(next);
  }
  n_state(states);
  if (capped) note_capped(sfmt("%s: state cap %llu reached", name, (unsigned long long)maxstates).c_str());
  else if (!frontier.empty()) note_bound(sfmt("%s: depth bound %d reached with %zu unexpanded states (all states within %d operations were explored)", name, maxdepth, frontier.size(), maxdepth).c_str());
  if (getenv("KV_PROGRESS")) fprintf(stderr, "  bfs %s: %llu states\n", name, (unsigned long long)states);
  return states;
}
