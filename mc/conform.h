// The in-process MPI against Open MPI: the same operations, the same observations.
#pragma once
#include "groups.h"
#include "model.h"
#include "realcases.h"
#include <dirent.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
static bool real_get(FILE* f, Str& s) { size_t n; if (fscanf(f, "%zu", &n) != 1 || fgetc(f) != '\n') return false; s.resize(n); return fread(&s[0], 1, n, f) == n && fgetc(f) == '\n'; }
// runs the cases of one operation under mpirun; empty if it cannot be run here
static std::vector<std::vector<Str>> real_run(int op) {
  std::vector<std::vector<Str>> out; const char* exe = getenv("KV_REALMPI"); if (!exe || !*exe) return out;
  char dir[] = "/tmp/kvmcrealXXXXXX"; if (!mkdtemp(dir)) return out;
  pid_t p = fork(); if (p == 0) {
    setpgid(0, 0); static const char* ev[][2] = {{"OMPI_ALLOW_RUN_AS_ROOT", "1"}, {"OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1"}, {"OMPI_MCA_rmaps_base_oversubscribe", "1"}, {"OMPI_MCA_hwloc_base_binding_policy", "none"}, {"OMPI_MCA_plm", "isolated"}, {"OMPI_MCA_btl", "self,vader"}, {"OMPI_MCA_pml", "ob1"}, {"OMPI_MCA_btl_vader_single_copy_mechanism", "none"}, {"OMPI_MCA_mpi_yield_when_idle", "1"}, {"TMPDIR", dir}};
    for (auto& e : ev) setenv(e[0], e[1], 1); freopen("/dev/null", "r", stdin); freopen((Str(dir) + "/log").c_str(), "w", stdout); dup2(1, 2); unsetenv("ASAN_OPTIONS");
    execlp("mpirun", "mpirun", "-n", "6", exe, sfmt("%d", op).c_str(), dir, (char*)nullptr); _exit(127);
  }
  int st = -1; bool done = false; for (int k = 0; k < 400 && p > 0; k++) { heartbeat(); if (waitpid(p, &st, WNOHANG) == p) { done = true; break; } usleep(100000); } if (p > 0 && !done) { kill(-p, SIGKILL); waitpid(p, &st, 0); }
  if (done && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    auto cs = real::cases(op); out.assign(cs.size(), std::vector<Str>(7)); bool ok = true;
    for (int w = 0; w < 6 && ok; w++) { FILE* f = fopen((Str(dir) + "/out." + sfmt("%d", w)).c_str(), "r"); for (size_t i = 0; f && i < cs.size() && ok; i++) { ok = real_get(f, out[i][w]); if (ok && w == 0 && op == real::FILES) ok = real_get(f, out[i][6]); } if (f) fclose(f); else ok = false; }
    if (!ok) out.clear();
  }
  std::function<void(const Str&)> rm = [&](const Str& d) { if (DIR* x = opendir(d.c_str())) { while (dirent* e = readdir(x)) { Str n = e->d_name; if (n == "." || n == "..") continue; Str q = d + "/" + n; if (unlink(q.c_str())) rm(q); } closedir(x); } rmdir(d.c_str()); }; rm(dir);
  return out;
}
static void real_suite(int op) {
  auto cs = real::cases(op); auto R = real_run(op); if (R.empty()) { note_bound("Open MPI could not be run here: the comparison with it was skipped"); return; }
  suite(sfmt("open-mpi-%d", op).c_str(), 1, [&](uint64_t) {
    for (size_t i = 0; i < cs.size(); i++) {
      auto& c = cs[i]; trace_begin(); TRACE("%s", real::name(c).c_str()); Grp g = whole(c.n); if (c.rev) std::reverse(g.mem.begin(), g.mem.end()); vfs.reset(g.world); mpi_mode = MpiMode(); sched.pick = nullptr;
      std::vector<Str> o(7); run_on(g, [&](int r, MPI_Comm m) { o[g.mem[r]] = sfmt("%d:", r) + real::run(c, r, m, "set"); }); n_eval();
      if (op == real::FILES) for (auto& f : vfs.names) if (!f.second->dir) { Str n = f.first.substr(strlen(VROOT) + 1); o[6] += n + "=" + f.second->data + ";"; }
      for (int w = 0; w < 7; w++) CHECK(o[w] == R[i][w], "%s: %s %s on Open MPI, %s on the in-process MPI", real::name(c).c_str(), w < 6 ? sfmt("process %d observes", w).c_str() : "the files are", quote(R[i][w]).c_str(), quote(o[w]).c_str());
      n_valid(); outcome(real::name(c));
    }
  }, "the same operations on Open MPI, on communicators of 1 to 6 processes in both orders: every process observes the same results, trees and files");
}
