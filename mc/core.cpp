#include <sys/resource.h>
#include <ftw.h>
#include "core.h"
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

bool g_verbose = false, g_thorough = false;
int g_nworkers = 8;
unsigned g_seed = 1;
static int g_out = 1;            // the real stdout
static Str g_id, g_outdir, g_evdir, g_kf;
static const CheckDef* g_def;
static double g_t0;
static bool g_capped = false;
static std::vector<Str> g_caps, g_bounds, g_assume;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

Str sfmt(const char* f, ...) {
  va_list a; va_start(a, f); char* p = nullptr; int n = vasprintf(&p, f, a); va_end(a);
  Str s(p, n); free(p); return s;
}
Str quote(const Str& s) {
  Str o = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    if (i >= 48 && s.size() > 64) { o += sfmt("\"...(%zu bytes)", s.size()); return o; }
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) o += sfmt("\\x%02x", c);
    else o += c;
  }
  return o + "\"";
}

// ---- shared memory -------------------------------------------------------
enum { MAXW = 64, OUTN = 1 << 22, SAMPLEN = 1 << 16 };
struct Slot { std::atomic<uint64_t> beat; std::atomic<int64_t> idx; char msg[8192]; std::atomic<int> failed; };
struct Shm {
  std::atomic<uint64_t> next, evals, states, trans, valid, outcomes;
  std::atomic<int> nsamples, stop, hits;
  std::atomic<uint32_t> samplelen;
  char samples[SAMPLEN];
  char hit[64][64]; char hitmsg[64][512];
  std::atomic<int> ncap; char cap[16][256];
  Slot slot[MAXW];
  std::atomic<uint64_t> out[OUTN];
};
static Shm* S;
static int g_w = 0;              // my slot
static int g_tracefd = -1;
static off_t g_tracelen = 0;

// worker 0 of each suite writes out one early execution as a sample
static int g_autosample = 0; static Str g_autobuf;
static void autosample_done() { if (!g_autosample) return; g_autosample = 0; g_verbose = false; if (!g_autobuf.empty()) { while (!g_autobuf.empty() && g_autobuf.back() == '\n') g_autobuf.pop_back(); sample(g_autobuf); } }
void trace_begin() { heartbeat(); if (g_autosample) { if (++g_autosample > 4 && !g_autobuf.empty()) autosample_done(); else g_autobuf.clear(); } if (g_verbose && g_tracefd >= 0) { if (ftruncate(g_tracefd, 0)) {} g_tracelen = 0; } }
void trace_put(const Str& s) {
  if (g_autosample) { if (g_autobuf.size() < 1200) g_autobuf += s + "\n"; return; }
  if (g_tracefd < 0) return;
  Str l = s + "\n";
  if (g_tracelen > (1 << 20)) return;
  ssize_t r = pwrite(g_tracefd, l.data(), l.size(), g_tracelen); if (r > 0) g_tracelen += r;
}
void heartbeat() { S->slot[g_w].beat.fetch_add(1, std::memory_order_relaxed); }
void n_eval(uint64_t n) { S->evals.fetch_add(n, std::memory_order_relaxed); heartbeat(); }
void n_state(uint64_t n) { S->states.fetch_add(n, std::memory_order_relaxed); }
void n_trans(uint64_t n) { S->trans.fetch_add(n, std::memory_order_relaxed); heartbeat(); }
void n_valid(uint64_t n) { S->valid.fetch_add(n, std::memory_order_relaxed); }
void outcome(uint64_t h) {
  if (!h) h = 1;
  uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 42;
  for (int k = 0; k < 64; k++, i = (i + 1) & (OUTN - 1)) {
    uint64_t v = S->out[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      uint64_t z = 0;
      if (S->out[i].compare_exchange_strong(z, h)) { S->outcomes.fetch_add(1); return; }
      if (z == h) return;
    }
  }
}
static char g_suitename[64];
static int g_suitesamples;
void sample(const Str& s) {
  if (g_suitesamples >= 2 || g_w != 0) return;
  g_suitesamples++;
  Str t = Str(g_suitename) + ": " + s; if (t.size() > 1500) t = t.substr(0, 1500) + "...";
  uint32_t at = S->samplelen.fetch_add(t.size() + 1);
  if (at + t.size() + 1 < SAMPLEN) { memcpy(S->samples + at, t.c_str(), t.size() + 1); S->nsamples++; }
}

void fail(const char* f, ...) {
  Slot& s = S->slot[g_w];
  va_list a; va_start(a, f); vsnprintf(s.msg, sizeof s.msg, f, a); va_end(a);
  s.failed = 1;
  _exit(77);
}
void harness_error(const char* f, ...) {
  Slot& s = S->slot[g_w];
  va_list a; va_start(a, f); vsnprintf(s.msg, sizeof s.msg, f, a); va_end(a);
  s.failed = 2;
  _exit(78);
}

static std::map<Str, Str> g_known;   // id -> text
bool finding_listed(const char* id) { return g_known.count(id); }
void finding(const char* id, const char* f, ...) {
  char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  if (!g_known.count(id)) fail("%s", b);
  static std::set<Str> seen; if (!seen.insert(id).second) return;
  for (int i = 0; i < S->hits; i++) if (!strcmp(S->hit[i], id)) return;
  int k = S->hits.fetch_add(1); if (k >= 64) { S->hits = 64; return; }
  snprintf(S->hit[k], 64, "%s", id); snprintf(S->hitmsg[k], 512, "%s", b);
}
static void load_known() {
  FILE* f = fopen(g_kf.c_str(), "r"); if (!f) return;
  char l[4096];
  while (fgets(l, sizeof l, f)) {
    // "known: property=<id> key=<key> <text>"
    Str s(l); while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
    Str pre = "known: property=" + g_id + " key=";
    if (s.compare(0, pre.size(), pre)) continue;
    Str r = s.substr(pre.size()); size_t p = r.find(' ');
    g_known[r.substr(0, p)] = p == Str::npos ? "" : r.substr(p + 1);
  }
  fclose(f);
}

// ---- suites ----------------------------------------------------------------
struct SuiteRec { Str name, rule; uint64_t cases, evals; double wall; };
static std::vector<SuiteRec> g_suites;
static Str g_rsuite; static std::vector<uint64_t> g_rhist; static int64_t g_ridx = -1;   // replay request
static int g_viol = 0;

static std::vector<CheckDef>& defs() { static std::vector<CheckDef> d; return d; }
void register_check(const CheckDef& d) { defs().push_back(d); }
// may be called by a worker: the parent writes the evidence
void note_capped(const char* why) {
  int n = std::min(S->ncap.load(), 16); for (int i = 0; i < n; i++) if (!strncmp(S->cap[i], why, 255)) return;
  int i = S->ncap.fetch_add(1); if (i < 16) snprintf(S->cap[i], sizeof S->cap[i], "%s", why);
}
static double g_budget = 0; static bool g_whole = false;   // seconds for the whole check (0: any); a suite others build on
double time_left() { return g_budget ? g_t0 + g_budget - now() : 1e9; }
static void take_caps() { g_caps.clear(); for (int i = 0; i < std::min(S->ncap.load(), 16); i++) g_caps.push_back(S->cap[i]); if (!g_caps.empty()) g_capped = true; }
void note_bound(const char* why) { g_bounds.push_back(why); }
void assumption(const char* s) { g_assume.push_back(s); }

void env_worker_init();   // env.cpp

static Str jesc(const Str& s) {
  Str o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) o += sfmt("\\u%04x", c); else o += c; } return o;
}
static void write_evidence(int viol) {
  mkdir(g_evdir.c_str(), 0777);
  Str path = g_evdir + "/" + g_id + ".json";
  FILE* f = fopen(path.c_str(), "w"); if (!f) { dprintf(g_out, "cannot write %s\n", path.c_str()); exit(3); }
  fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %u,\n \"level\": \"%s\",\n", g_id.c_str(), g_thorough ? "thorough" : "quick", g_seed, g_def->level);
  fprintf(f, " \"coverage\": {\n");
  fprintf(f, "  \"evaluations\": %llu,\n", (unsigned long long)S->evals);
  fprintf(f, "  \"distinct_nontrivial\": %llu,\n", (unsigned long long)S->outcomes);
  fprintf(f, "  \"rule\": \"%s\",\n", jesc(g_def->rule).c_str());
  if (S->states || !strcmp(g_def->level, "model_checking")) {
    fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long)S->states, (unsigned long long)S->trans, (unsigned long long)S->valid);
  }
  fprintf(f, "  \"exhaustive\": %s,\n", (g_capped || viol) ? "false" : "true");
  if (!g_caps.empty()) { fprintf(f, "  \"caps\": ["); for (size_t i = 0; i < g_caps.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(g_caps[i]).c_str()); fprintf(f, "],\n"); }
  if (!g_bounds.empty()) { fprintf(f, "  \"bounds\": ["); for (size_t i = 0; i < g_bounds.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(g_bounds[i]).c_str()); fprintf(f, "],\n"); }
  fprintf(f, "  \"suites\": [\n");
  for (size_t i = 0; i < g_suites.size(); i++) fprintf(f, "   {\"name\": \"%s\", \"space\": \"%s\", \"cases\": %llu, \"evaluations\": %llu, \"wall_s\": %.2f}%s\n", jesc(g_suites[i].name).c_str(), jesc(g_suites[i].rule).c_str(), (unsigned long long)g_suites[i].cases, (unsigned long long)g_suites[i].evals, g_suites[i].wall, i + 1 < g_suites.size() ? "," : "");
  fprintf(f, "  ],\n  \"samples\": [");
  uint32_t at = 0; bool first = true; uint32_t len = std::min<uint32_t>(S->samplelen, SAMPLEN - 1);
  while (at < len) { Str s(S->samples + at); if (!s.empty()) { fprintf(f, "%s\n   \"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; } at += s.size() + 1; }
  fprintf(f, "\n  ]\n },\n \"assumptions\": [");
  for (size_t i = 0; i < g_assume.size(); i++) fprintf(f, "%s\n  \"%s\"", i ? "," : "", jesc(g_assume[i]).c_str());
  fprintf(f, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - g_t0, viol);
  fclose(f);
}

// directories for real files, removed when the main process ends, however it ends
static std::vector<Str> g_dirs; static pid_t g_dirs_pid;
static void rm_dirs() { if (getpid() == g_dirs_pid) for (auto& d : g_dirs) nftw(d.c_str(), [](const char* p, const struct stat*, int, struct FTW*) { return remove(p); }, 16, FTW_DEPTH | FTW_PHYS | FTW_MOUNT); }
Str scratch_dir(bool memory) {
  for (int k = memory ? 0 : 1; k < 2; k++) { char d[64]; strcpy(d, k ? "/tmp/kvmcXXXXXX" : "/dev/shm/kvmcXXXXXX"); if (!mkdtemp(d)) continue; if (g_dirs.empty()) { g_dirs_pid = getpid(); atexit(rm_dirs); } g_dirs.push_back(d); return d; }
  harness_error("mkdtemp");
}
static void child_setup(int w, bool verbose, const Str& errpath) {
  g_w = w;
  int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); close(nul);
  int e = open(errpath.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0666); if (e >= 0) { dup2(e, 2); close(e); }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  g_verbose = verbose; g_suitesamples = 0;
  rlimit fl{1ul << 30, 1ul << 30}; setrlimit(RLIMIT_FSIZE, &fl);   // code that writes for ever must not fill the disk
  env_worker_init();
}
static Str slurp(const Str& p, size_t max) {
  Str s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n); fclose(f); return s;
}

// processor time a worker has used: a loaded machine is no reason to take a slow case for an endless one
static double cpu_of(pid_t p) {
  Str t = slurp(sfmt("/proc/%d/stat", (int)p), 4096); size_t q = t.rfind(')'); if (q == Str::npos) return 0;
  unsigned long long u = 0, k = 0; if (sscanf(t.c_str() + q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &u, &k) != 2) return 0;
  return double(u + k) / sysconf(_SC_CLK_TCK);
}
// why a worker ended
static Str verdict(int st, int w, const Str& errpath, bool hang, int& kind) {
  Slot& s = S->slot[w];
  kind = 1;
  if (hang) return "no progress: the operation does not terminate";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { kind = 2; return Str("harness error: ") + s.msg; }
  if (s.failed == 1) return s.msg;
  Str err = slurp(errpath, 1 << 20);
  size_t p = err.find("ERROR: AddressSanitizer"); Str head;
  if (p != Str::npos) { head = err.substr(p, 160); size_t q = head.find('\n'); if (q != Str::npos) head.resize(q); }
  if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) kind = 3; return sfmt("killed by signal %d (%s) %s", WTERMSIG(st), strsignal(WTERMSIG(st)), head.c_str()); }
  return sfmt("process ended with status %d: %s", WEXITSTATUS(st), head.empty() ? "unexpected exit" : head.c_str());
}

static void report(const char* name, uint64_t idx, const std::function<void(uint64_t)>& fn, Str first, const std::vector<uint64_t>& hist = {}, bool withhist = false) {
  // replay alone before reporting; failing that, after the same cases as before
  Str tr = g_outdir + "/" + g_id + ".trace", er = g_outdir + "/" + g_id + ".stderr";
  Slot& s = S->slot[MAXW - 1]; s.failed = 0; s.msg[0] = 0; s.beat = 0;
  pid_t c = fork();
  if (c == 0) {
    child_setup(MAXW - 1, true, er);
    g_tracefd = open(tr.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
    if (withhist) for (uint64_t h : hist) { heartbeat(); fn(h); }
    fn(idx);
    _exit(0);
  }
  int st; bool hang = false; double t = now(), t0cpu = 0; uint64_t last = 0;
  while (waitpid(c, &st, WNOHANG) == 0) {
    usleep(2000);
    if (s.beat != last) { last = s.beat; t = now(); t0cpu = cpu_of(c); }
    if (now() - t > 120 && (now() - t > 300 || cpu_of(c) - t0cpu > 90)) { kill(c, SIGKILL); waitpid(c, &st, 0); hang = true; break; }
  }
  if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    if (!g_rsuite.empty()) { dprintf(g_out, "replay: no failure\n"); exit(0); }
    if (!withhist && !hist.empty()) { report(name, idx, fn, first, hist, true); return; }
    dprintf(g_out, "ERROR: property=%s suite=%s case=%llu: failure not reproduced when replayed alone: %s\n", g_id.c_str(), name, (unsigned long long)idx, first.c_str());
    exit(4);
  }
  int kind; Str v = verdict(st, MAXW - 1, er, hang, kind);
  if (kind == 2) { dprintf(g_out, "ERROR: property=%s suite=%s case=%llu: %s\n", g_id.c_str(), name, (unsigned long long)idx, v.c_str()); exit(5); }
  Str nm = name; for (auto& ch : nm) if (ch == ' ' || ch == '/') ch = '_';
  Str rp = g_outdir + "/" + g_id + sfmt("-%s-%llu.replay", nm.c_str(), (unsigned long long)idx);
  FILE* f = fopen(rp.c_str(), "w");
  if (f) {
    Str hs; if (withhist) for (uint64_t h : hist) hs += sfmt("%llu ", (unsigned long long)h);
    if (withhist) fprintf(f, "history=%s\n", hs.c_str());
    fprintf(f, "property=%s\nsuite=%s\ncase=%llu\nwhat: %s\n\nreplay: ./run.py %s --replay %s\n\n-- trace of the failing execution --\n%s\n", g_id.c_str(), name, (unsigned long long)idx, v.c_str(), g_id.c_str(), rp.c_str(), slurp(tr, 1 << 20).c_str());
    Str e = slurp(er, 1 << 16); size_t p = e.find("=================="); if (p != Str::npos) fprintf(f, "-- sanitizer --\n%s\n", e.substr(p).c_str());
    fclose(f);
  }
  unlink(tr.c_str()); unlink(er.c_str());
  g_viol++;
  dprintf(g_out, "property=%s suite=%s case=%llu: %s\n", g_id.c_str(), name, (unsigned long long)idx, v.c_str());
  dprintf(g_out, "VIOLATION property=%s replay=%s\n", g_id.c_str(), rp.c_str());
  take_caps(); write_evidence(g_viol);
  exit(1);
}

void suite(const char* name, uint64_t n, const std::function<void(uint64_t)>& fn, const char* rule) {
  if (!g_rsuite.empty()) {
    if (g_rsuite != name) return;
    report(name, g_ridx, fn, "replay", g_rhist, !g_rhist.empty());
    return;
  }
  const char* only = getenv("KV_SUITE"); if (only && strcmp(only, name)) { g_capped = true; return; }
  double t0 = now(); uint64_t e0 = S->evals;
  snprintf(g_suitename, sizeof g_suitename, "%s", name);
  S->next = 0; S->stop = 0;
  int nw = std::min<uint64_t>(g_nworkers, std::max<uint64_t>(n, 1));
  std::vector<pid_t> pid(nw); std::vector<double> tl(nw, now()); std::vector<uint64_t> lb(nw, 0); std::vector<double> tc(nw, -1); double longest = 0;
  Str base = g_outdir + "/" + g_id + ".w";
  std::vector<int> hfd(nw); for (int w = 0; w < nw; w++) hfd[w] = memfd_create("hist", 0);
  fflush(nullptr);
  for (int w = 0; w < nw; w++) {
    Slot& s = S->slot[w]; s.failed = 0; s.idx = -1; s.beat = 0; s.msg[0] = 0;
    pid[w] = fork();
    if (pid[w] == 0) {
      child_setup(w, false, base + sfmt("%d", w)); int done = 0;
      if (w == 0) { g_autosample = 1; g_verbose = true; }
      for (;;) {
        if (S->stop) break;
        if (!g_whole && S->next < n && time_left() < 0) { note_capped("time budget used up"); break; }
        uint64_t i = S->next.fetch_add(1); if (i >= n) break;
        S->slot[w].idx = i; heartbeat();
        if (write(hfd[w], &i, sizeof i) != sizeof i) harness_error("history write");
        fn(i);
        if (++done == 2) autosample_done();
      }
      autosample_done();
      _exit(0);
    }
  }
  int live = nw, badw = 0; bool bad = false; uint64_t badidx = ~0ull; Str badmsg;
  double hang_s = 60;
  while (live) {
    bool any = false;
    for (int w = 0; w < nw; w++) {
      if (pid[w] <= 0) continue;
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG); bool hang = false;
      if (r == 0) {
        uint64_t b = S->slot[w].beat; if (b != lb[w]) { longest = std::max(longest, now() - tl[w]); lb[w] = b; tl[w] = now(); tc[w] = -1; }
        else if (tc[w] < 0 && now() - tl[w] > 1) tc[w] = cpu_of(pid[w]);
        if (now() - tl[w] > hang_s && (bad || now() - tl[w] > 240 || cpu_of(pid[w]) - tc[w] > hang_s * 0.75)) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hang = true; } else continue;
      }
      any = true; live--; pid[w] = 0;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      int kind; Str v = verdict(st, w, base + sfmt("%d", w), hang, kind);
      if (kind == 2) { for (pid_t p : pid) if (p > 0) kill(p, SIGKILL); dprintf(g_out, "ERROR: property=%s suite=%s case=%lld: %s\n", g_id.c_str(), name, (long long)S->slot[w].idx, v.c_str()); exit(5); }
      uint64_t idx = S->slot[w].idx;
      if (!bad || idx < badidx) { badidx = idx; badmsg = v; badw = w; }
      bad = true; S->stop = 1;
      hang_s = 10;   // others: finish their case or be abandoned
    }
    if (!bad && live && !g_whole && time_left() < -60) {
      note_capped("time budget used up"); for (int w = 0; w < nw; w++) if (pid[w] > 0) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); pid[w] = 0; live--; }
    }
    if (bad && live) {
      // let smaller-numbered cases finish briefly, abandon the rest
      static double tb = 0; if (!tb) tb = now();
      if (now() - tb > 3) { for (int w = 0; w < nw; w++) if (pid[w] > 0) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); pid[w] = 0; live--; } }
    }
    if (!any) usleep(500);
  }
  if (!getenv("KV_JOBSTAT")) for (int w = 0; w < nw; w++) unlink((base + sfmt("%d", w)).c_str());
  g_suites.push_back({name, rule, n, S->evals - e0, now() - t0});
  if (getenv("KV_PROGRESS")) dprintf(g_out, "  %-28s cases=%llu evals=%llu %.2fs longest step %.1fs\n", name, (unsigned long long)n, (unsigned long long)(S->evals - e0), now() - t0, longest);
  std::vector<uint64_t> hist;
  if (bad) { uint64_t v; off_t at = 0; while (pread(hfd[badw], &v, sizeof v, at) == sizeof v) { at += sizeof v; if (v != badidx) hist.push_back(v); } }
  for (int fd : hfd) close(fd);
  if (bad) report(name, badidx, fn, badmsg, hist);
}

std::vector<Str> suite_map(const char* name, uint64_t n, const std::function<Str(uint64_t)>& fn, const char* rule) {
  std::vector<Str> res(n);
  if (!g_rsuite.empty() && g_rsuite != name) {
    // dependent suites need the results: compute them quietly
    Str save = g_rsuite; g_rsuite = ""; auto keep = g_suites;
    res = suite_map(name, n, fn, rule); g_rsuite = save; g_suites = keep; return res;
  }
  std::vector<int> fds(MAXW);
  for (int w = 0; w < MAXW; w++) fds[w] = memfd_create("map", 0);
  g_whole = true;
  suite(name, n, [&](uint64_t i) {
    Str r = fn(i); uint64_t h[2] = {i, r.size()};
    if (write(fds[g_w], h, sizeof h) != sizeof h) harness_error("suite_map write");
    size_t at = 0; while (at < r.size()) { ssize_t k = write(fds[g_w], r.data() + at, r.size() - at); if (k <= 0) harness_error("suite_map write"); at += k; }
  }, rule);
  g_whole = false;
  for (int w = 0; w < MAXW; w++) {
    off_t at = 0; uint64_t h[2];
    while (pread(fds[w], h, sizeof h, at) == sizeof h) {
      at += sizeof h; Str r(h[1], 0); size_t k = 0;
      while (k < r.size()) { ssize_t x = pread(fds[w], &r[k], r.size() - k, at + k); if (x <= 0) { dprintf(g_out, "suite_map read\n"); exit(5); } k += x; }
      at += r.size(); if (h[0] < n) res[h[0]] = r;
    }
    close(fds[w]);
  }
  return res;
}

int main(int argc, char** argv) {
  g_t0 = now();
  g_out = dup(1); fcntl(g_out, F_SETFD, FD_CLOEXEC);
  if (argc < 2) { fprintf(stderr, "usage: %s ID [--replay FILE]\n", argv[0]); return 2; }
  g_id = argv[1];
  auto env = [](const char* n, const char* d) { const char* v = getenv(n); return Str(v && *v ? v : d); };
  g_thorough = env("VERIF_TIER", "quick") == "thorough";
  g_seed = atoi(env("VERIF_SEED", "1").c_str());
  g_budget = atof(env("KV_BUDGET", g_thorough ? "0" : "720").c_str());
  g_nworkers = atoi(env("KV_JOBS", sfmt("%ld", std::min(8l, std::max(1l, sysconf(_SC_NPROCESSORS_ONLN)))).c_str()).c_str());
  g_evdir = env("KV_EVIDENCE", "evidence"); g_outdir = env("KV_OUT", "out"); g_kf = env("KV_KNOWN", "known_findings.txt");
  mkdir(g_outdir.c_str(), 0777);
  { char* r = realpath(g_outdir.c_str(), nullptr); if (r) { g_outdir = r; free(r); } }
  for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], "--replay")) {
    FILE* f = fopen(argv[i + 1], "r"); if (!f) { perror(argv[i + 1]); return 2; }
    static char l[1 << 20]; while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0;
      if (!strncmp(l, "history=", 8)) { char* p = l + 8; char* e; for (;;) { unsigned long long v = strtoull(p, &e, 10); if (e == p) break; g_rhist.push_back(v); p = e; } } if (!strncmp(l, "suite=", 6)) g_rsuite = l + 6; if (!strncmp(l, "case=", 5)) { g_ridx = atoll(l + 5); break; } }
    fclose(f);
  }
  for (auto& d : defs()) if (g_id == d.id) g_def = &d;
  if (!g_def) { fprintf(stderr, "unknown check %s\n", g_id.c_str()); return 2; }
  S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 2; }
  load_known();
  g_def->run();
  if (!g_rsuite.empty()) { dprintf(g_out, "replay: no failure\n"); return 0; }
  take_caps(); write_evidence(0);
  for (auto& k : g_known) {
    bool hit = false; Str m;
    for (int i = 0; i < S->hits && i < 64; i++) if (k.first == S->hit[i]) { hit = true; m = S->hitmsg[i]; }
    if (hit) dprintf(g_out, "KNOWN-FINDING: property=%s %s\n", g_id.c_str(), k.second.c_str());
    else dprintf(g_out, "note: known finding %s of property %s was not observed in this run\n", k.first.c_str(), g_id.c_str());
  }
  dprintf(g_out, "OK property=%s tier=%s evaluations=%llu distinct=%llu states=%llu transitions=%llu validated=%llu wall=%.1fs%s\n", g_id.c_str(), g_thorough ? "thorough" : "quick", (unsigned long long)S->evals, (unsigned long long)S->outcomes, (unsigned long long)S->states, (unsigned long long)S->trans, (unsigned long long)S->valid, now() - g_t0, g_capped ? " (capped)" : "");
  return 0;
}
