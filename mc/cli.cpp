// C28: the kvtree_print program, as built from the sources, run as a process.
#include "printing.h"
#include <fcntl.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static Str D, EXE;
struct Out { Str out, err; int status = 0; bool sig = false; };
enum { O_PIPE, O_FULL, O_CLOSED };
static Out run(const std::vector<Str>& args, const Str& dir, int where = O_PIPE, bool posix = false, const char* argv0 = "kvtree_print") {
  Out o; Str fo = dir + sfmt("/.out%d", (int)getpid()), fe = dir + sfmt("/.err%d", (int)getpid());
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  if (where == O_CLOSED) posix_spawn_file_actions_addclose(&fa, 1); else posix_spawn_file_actions_addopen(&fa, 1, where == O_FULL ? "/dev/full" : fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen(&fa, 2, fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addchdir_np(&fa, dir.c_str());
  std::vector<char*> av; av.push_back((char*)argv0); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
  std::vector<char*> ev; for (char** e = environ; *e; e++) if (strncmp(*e, "KV", 2)) ev.push_back(*e); if (posix) ev.push_back((char*)"POSIXLY_CORRECT=1"); ev.push_back(nullptr);
  pid_t p; int e = posix_spawn(&p, EXE.c_str(), &fa, nullptr, av.data(), ev.data()); posix_spawn_file_actions_destroy(&fa); if (e) harness_error("cannot run %s: %s", EXE.c_str(), strerror(e));
  rlimit lf{64ul << 20, 64ul << 20}, lc{40, 40}; prlimit(p, RLIMIT_FSIZE, &lf, nullptr); prlimit(p, RLIMIT_CPU, &lc, nullptr);   // printing for ever ends here
  int st; while (waitpid(p, &st, 0) < 0) {} o.sig = WIFSIGNALED(st); o.status = o.sig ? WTERMSIG(st) : WEXITSTATUS(st);
  auto rd = [](const Str& f) { Str s; FILE* h = fopen(f.c_str(), "r"); if (h) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); } unlink(f.c_str()); return s; };
  if (where == O_PIPE) o.out = rd(fo); o.err = rd(fe); n_eval(); heartbeat();
  CHECK(!o.sig, "kvtree_print is killed by signal %d", o.status); CHECK(o.err.find("ERROR: AddressSanitizer") == Str::npos, "kvtree_print: %s", quote(o.err.substr(0, 200)).c_str());
  return o;
}
static Str scratch() { static int c; Str d = D + sfmt("/%d.%d", (int)getpid(), c++); mkdir(d.c_str(), 0755); return d; }
static void put(const Str& d, const Str& n, const Str& data, int mode = 0644) { int fd = open((d + "/" + n).c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode); if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size()) harness_error("scratch file"); close(fd); }
static void clean(const Str& d) { Str c = "rm -rf -- '" + d + "'"; if (d.find("/tmp/kvmc") == 0 && system(c.c_str())) {} }
static const T& good() { static const T t = parse("MARK1(MARK2(MARK3)) MARK4(MARK5 MARK6) MARK7"); return t; }
struct Want { bool err = false, help = false; Str mode = "tree"; bool have_mode = false; std::vector<Str> files; };
// an independent reading of the command line
static Want parse_args(const std::vector<Str>& a, bool posix) {
  Want w; bool only = false;
  for (size_t i = 0; i < a.size(); i++) {
    const Str& x = a[i];
    if (only || x.size() < 2 || x[0] != '-') { w.files.push_back(x); if (posix) only = true; continue; }
    if (x == "--") { only = true; continue; }
    if (x[1] == '-') {
      size_t q = x.find('='); Str n = x.substr(2, q == Str::npos ? Str::npos : q - 2);
      bool m = Str("mode").compare(0, n.size(), n) == 0, h = Str("help").compare(0, n.size(), n) == 0;
      if (n.empty() || m == h) { w.err = true; continue; }
      if (h) { if (q != Str::npos) w.err = true; else w.help = true; continue; }
      if (q != Str::npos) w.mode = x.substr(q + 1), w.have_mode = true; else if (i + 1 < a.size()) w.mode = a[++i], w.have_mode = true; else w.err = true;
      continue;
    }
    for (size_t k = 1; k < x.size(); k++) { if (x[k] == 'h') w.help = true; else if (x[k] == 'm') { if (k + 1 < x.size()) w.mode = x.substr(k + 1); else if (i + 1 < a.size()) w.mode = a[++i]; else { w.err = true; break; } w.have_mode = true; break; } else w.err = true; }
  }
  if (w.mode != "tree" && w.mode != "keyval") w.err = true;
  return w;
}
static Str args_str(const std::vector<Str>& a) { Str s = "kvtree_print"; for (auto& x : a) s += " " + (x.empty() ? Str("''") : quote(x)); return s; }
static void judge(const std::vector<Str>& a, const Out& o, const std::map<Str, const T*>& files, bool posix = false) {
  Want w = parse_args(a, posix); bool tree = o.out.find("MARK") != Str::npos && o.out.find("  MARK") != Str::npos;
  if (w.help) { CHECK(!tree, "%s prints a tree", args_str(a).c_str()); if (!w.err) { CHECK(o.status == 0, "%s asks for help and exits with status %d", args_str(a).c_str(), o.status); CHECK(o.out.find("sage") != Str::npos, "%s prints no usage", args_str(a).c_str()); } return; }
  const T* t = nullptr; bool bad = w.err || w.files.size() != 1; if (!bad) { auto it = files.find(w.files[0]); if (it == files.end() || !it->second) bad = true; else t = it->second; }
  if (bad) { CHECK(o.status != 0, "%s exits with status 0", args_str(a).c_str()); CHECK(!tree, "%s fails but prints a tree", args_str(a).c_str()); }
  else { CHECK(o.status == 0, "%s exits with status %d", args_str(a).c_str(), o.status); Str want = want_print(*t, 0, w.mode == "keyval"); CHECK(o.out == want, "%s prints %s instead of %s", args_str(a).c_str(), quote(o.out).c_str(), quote(want).c_str()); }
}
CHECK_DEF(C28, "exploration", "a case is one run of the kvtree_print program; distinct_nontrivial counts distinct (arguments, files)") {
  D = scratch_dir(); const char* e = getenv("KV_PRINT_EXE"); if (!e) harness_error("no kvtree_print"); EXE = e;
  // the order entries get in a tree read from a file is that of the real reader
  static T G, E0; { Str s = enc_image(enc_pack(good())); vfs.reset(1); vfs.put("f", s); kvtree* h = kvtree_new(); if (kvtree_read_file("f", h) != KVTREE_SUCCESS) harness_error("reading"); G = observe(h); kvtree_delete(&h); }
  auto fill = [](const Str& d) { Str s = enc_image(enc_pack(good())); put(d, "good", s); put(d, "empty", ""); put(d, "other name", s); Str b = s; b[b.size() / 2] ^= 1; put(d, "damaged", b); put(d, "short", s.substr(0, s.size() - 1)); put(d, "text", "MARK1\n  MARK2\n"); mkdir((d + "/dir").c_str(), 0755); put(d, "keyval", s); put(d, "-x", s); put(d, "-", s); put(d, "loop", ""); unlink((d + "/loop").c_str()); if (symlink("loop", (d + "/loop").c_str())) {} };
  static const std::map<Str, const T*> F = {{"good", &G}, {"empty", &E0}, {"other name", &G}, {"keyval", &G}, {"-x", &G}, {"-", &G}, {"./good", &G}};
  static const std::vector<Str> A = {"good", "missing", "damaged", "-m", "--mode", "tree", "keyval", "-h", "--help", "--", "--mode=keyval", "-mtree", "--bogus", "-x", "", "other name"};
  static const std::vector<Str> B = {"empty", "short", "text", "dir", "loop", "-", "-hm", "-mh", "-m=tree", "--mode=", "--mo", "--help=x", "-zh", "--m=tree", "-mbad", "KEYVAL", "./good", "/nonexistent/x", "-mkeyval"};
  struct W { std::vector<Str> a; }; static std::vector<W> ws; size_t n = A.size(); int L = g_thorough ? 4 : 3;
  for (int l = 0; l <= L; l++) { uint64_t tot = 1; for (int k = 0; k < l; k++) tot *= n; for (uint64_t x = 0; x < tot; x++) { W w; uint64_t y = x; for (int k = 0; k < l; k++) { w.a.push_back(A[y % n]); y /= n; } ws.push_back(w); } }
  for (auto& b : B) { ws.push_back({{b}}); for (auto& a : A) { ws.push_back({{a, b}}); ws.push_back({{b, a}}); if (g_thorough) for (auto& c : A) { ws.push_back({{a, b, c}}); } } for (auto& c : B) ws.push_back({{b, c}}); ws.push_back({{"-m", "keyval", b}}); ws.push_back({{"-m", "tree", b}}); ws.push_back({{"-m", b, "good"}}); ws.push_back({{"--", b}}); }
  for (auto& m : std::vector<Str>{"keyvalx", "keyval ", " keyval", "keyva", "key", "k", "keyval=", "keyval\n", "treex", "trees", "tre", "t", "tree ", " tree", "TREE", "Tree", "KeyVal", "keytree", "treekeyval", "tree,keyval", "", "0", "1", "default", "none", Str(300, 'k')}) for (auto& f : std::vector<Str>{"good", "empty"}) { ws.push_back({{"-m", m, f}}); ws.push_back({{"--mode", m, f}}); ws.push_back({{"--mode=" + m, f}}); if (!m.empty()) ws.push_back({{"-m" + m, f}}); ws.push_back({{f, "-m", m}}); ws.push_back({{"-m", m, "-m", "keyval", f}}); ws.push_back({{"-m", "tree", "-m", m, f}}); }
  suite("arguments", (ws.size() + 63) / 64, [&](uint64_t c) { Str d = scratch(); fill(d); for (size_t i = c * 64; i < ws.size() && i < (c + 1) * 64; i++) for (int posix = 0; posix < (g_thorough ? 2 : 1); posix++) { trace_begin(); TRACE("%s", args_str(ws[i].a).c_str()); Out o = run(ws[i].a, d, O_PIPE, posix); TRACE("status %d, output %s", o.status, quote(o.out).c_str()); judge(ws[i].a, o, F, posix); outcome(fnv(args_str(ws[i].a)) + posix); n_valid(); } clean(d); }, "every combination of up to 3 (4) of 16 argument words, and of 19 more words with each other, 26 more modes in 7 places");
  // every tree, both modes
  static std::vector<T> U = universe(g_thorough ? 5 : 4, {"MARKa", "MARKb"}); { T big; for (int i = 0; i < 2000; i++) big.put(sfmt("  MARK%d", i)).put("v"); U.push_back(big); T deep; T* p = &deep; for (int i = 0; i < 500; i++) p = &p->put("MARK"); U.push_back(deep); T odd; odd.put("MARK%s%n").put("%d"); odd.put("MARK\n").put(Str(70000, 'x')); odd.put("").put(""); U.push_back(odd); }
  suite("trees", U.size(), [&](uint64_t i) { Str d = scratch(); put(d, "f", enc_image(enc_pack(U[i]))); vfs.reset(1); vfs.put("f", enc_image(enc_pack(U[i]))); kvtree* h = kvtree_new(); kvtree_read_file("f", h); T o = observe(h); kvtree_delete(&h); std::map<Str, const T*> fs = {{"f", &o}}; for (auto a : std::vector<std::vector<Str>>{{"f"}, {"-m", "tree", "f"}, {"--mode", "keyval", "f"}, {"f", "-mkeyval"}}) { trace_begin(); TRACE("%s of {%s}", args_str(a).c_str(), cdesc(U[i]).c_str()); judge(a, run(a, d), fs); n_valid(); outcome(fnv(args_str(a)) + i * 31 + 1); } clean(d); }, "every tree of up to 4 (5) entries over 2 keys and some large ones, 4 ways of asking");
  // every truncation and bit of a file
  static Str img = enc_image(enc_pack(parse("MARK(x) y")));
  suite("damage", img.size(), [&](uint64_t at) {
    Str d = scratch(); T t = parse("MARK(x) y"); kvtree* h = kvtree_new(); vfs.reset(1); vfs.put("f", img); kvtree_read_file("f", h); T o = observe(h); kvtree_delete(&h);
    for (int b = -1; b < 8; b++) { Str x = b < 0 ? img.substr(0, at) : img; if (b >= 0) x[at] ^= 1 << b; put(d, "f", x); bool empty = x.empty(); bool flags = b >= 0 && at == 19; T e; std::map<Str, const T*> fs = {{"f", empty ? &e : flags ? &o : nullptr}};
      for (const char* m : {"tree", "keyval"}) { std::vector<Str> a = {"-m", m, "f"}; trace_begin(); TRACE("%s, file %s", args_str(a).c_str(), b < 0 ? sfmt("cut to %zu", (size_t)at).c_str() : sfmt("with bit %d of byte %zu changed", b, (size_t)at).c_str()); Out r = run(a, d); TRACE("status %d, output %s", r.status, quote(r.out).c_str());
        if (b >= 0 && at >= 16 && at < 20) { if (r.status == 0) CHECK(r.out == want_print(o, 0, !strcmp(m, "keyval")), "%s prints %s", args_str(a).c_str(), quote(r.out).c_str()); else CHECK(r.out.find("  MARK") == Str::npos, "%s fails but prints a tree", args_str(a).c_str()); }
        else judge(a, r, fs); n_valid(); outcome(at * 64 + (b + 1) * 2 + (m[0] == 't') + (1ull << 40)); } }
    clean(d);
  }, "a file cut to every length and with every bit changed, both modes");
  suite("output", 6, [&](uint64_t i) { Str d = scratch(); fill(d); T big; for (int k = 0; k < 3000; k++) big.put(sfmt("MARK%d", k)).put("v"); put(d, "big", enc_image(enc_pack(big))); std::vector<Str> a = {"-m", i & 1 ? "keyval" : "tree", i < 4 ? "good" : "big"}; trace_begin(); TRACE("%s > %s", args_str(a).c_str(), i & 2 ? "(closed)" : "/dev/full"); Out o = run(a, d, i & 2 ? O_CLOSED : O_FULL); CHECK(o.status != 0, "%s cannot write its output but exits with status 0", args_str(a).c_str()); n_valid(); outcome(i + (1ull << 41)); clean(d); }, "output that cannot be written");
  // a file that may not be read, as an unprivileged user
  suite("unreadable", 1, [&](uint64_t) {
    Str d = scratch(); put(d, "f", enc_image(enc_pack(good())), 0); trace_begin(); TRACE("kvtree_print of a file without read permission"); if (geteuid() != 0) { Out o = run({"f"}, d); CHECK(o.status != 0, "an unreadable file: status 0"); return; }
    int fd = open(EXE.c_str(), O_RDONLY); pid_t p = fork(); if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); if (chdir(d.c_str()) || setgid(65534) || setuid(65534)) _exit(77); if (access("f", R_OK) == 0) _exit(77); char* av[] = {(char*)"kvtree_print", (char*)"f", nullptr}; fexecve(fd, av, environ); _exit(77); }
    int st; waitpid(p, &st, 0); close(fd); n_eval(); if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) { CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 99, "kvtree_print of a file without read permission: wait status %x", st); n_valid(); outcome(1ull << 42); } clean(d);
  }, "a file without read permission, as an unprivileged user");
  clean(D);
}
