// C32: images on a descriptor form a stream.
#include "api.h"
#include "faults.h"
#include <algorithm>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

static T wide(int n, size_t len) { T t; for (int i = 0; i < n; i++) { Str k = sfmt("%d", i); if (k.size() < len) k += Str(len - k.size(), 'w'); t.k.push_back({k, T()}); } return t; }
static const std::vector<T>& trees() { static const std::vector<T> v = {T(), parse("a"), parse("b(c d(e(f))) a(a)"), wide(40, 10), wide(150, 30), wide(3000, 30)}; return v; }
static Str image(const T& t) { return enc_image(enc_pack(t)); }
static OfdP& ofd(int fd) { return vfs.procs[0].fds.at(fd); }
static void mine(int fd) { auto& m = vfs.procs[0].fds; CHECK(m.count(fd), "the caller's descriptor was closed"); CHECK(vfs.open_fds(0) == 0, "a descriptor was left open"); CHECK(vfs.nlocks() == 0, "a lock was left"); }
// writes one tree at the position of fd; returns whether success was reported
static bool put(const Api& A, int fd, kvtree* h, const T& t, bool must = true) {
  Str before = ofd(fd)->ino->data; off_t p = ofd(fd)->flags & O_APPEND ? (off_t)before.size() : ofd(fd)->pos; Str h0 = ordered(observe(h)); int nn = vfs.names.size();
  ssize_t r = A.kvtree_write_fd("z", fd, h); n_eval(); n_trans(); mine(fd);
  CHECK(ordered(observe(h)) == h0, "kvtree_write_fd changed the tree"); CHECK((int)vfs.names.size() == nn, "kvtree_write_fd created or removed a file");
  const Str& c = ofd(fd)->ino->data;
  CHECK(c.size() >= (size_t)std::min<off_t>(p, before.size()) && !before.compare(0, std::min<size_t>(p, before.size()), c, 0, std::min<size_t>(p, before.size())), "kvtree_write_fd changed bytes in front of its position");
  if (r < 0) { CHECK(!must, "kvtree_write_fd failed"); return false; }
  CHECK(c.size() >= (size_t)p + r, "kvtree_write_fd returns %zd but the file holds %zu bytes from its position", r, c.size() - (size_t)p);
  Str img = c.substr(p, r); T d; CHECK(dec_image(img, d) == 0, "kvtree_write_fd returns %zd but that many bytes at its position are no image", r);
  CHECK(canon(d) == canon(t), "the image encodes {%s} instead of {%s}", cdesc(d).c_str(), cdesc(t).c_str()); CHECK(img == image(d), "the image is not in the documented layout");
  CHECK(ofd(fd)->pos == p + r, "after kvtree_write_fd the descriptor is at %lld instead of %lld", (long long)ofd(fd)->pos, (long long)(p + r));
  Str rest = before.size() > (size_t)p + r ? before.substr(p + r) : Str(); CHECK(c.substr(p + r) == rest, "kvtree_write_fd changed bytes behind its image");
  outcome(img); return true;
}
// reads one image at the position of fd and expects tree t to be added to h
enum { MAY, MUST, NEVER };
static ssize_t take(const Api& A, int fd, kvtree* h, const Str& img, const T* t, int how = MUST) {
  Str c = ofd(fd)->ino->data; off_t p = ofd(fd)->pos; T had = observe(h); int nn = vfs.names.size();
  ssize_t r = A.kvtree_read_fd("z", fd, h); n_eval(); n_trans(); mine(fd);
  CHECK(ofd(fd)->ino->data == c, "kvtree_read_fd changed the file"); CHECK((int)vfs.names.size() == nn, "kvtree_read_fd created or removed a file");
  T got = observe(h);
  if (r <= 0) { CHECK(canon(got, true) == canon(had, true), "kvtree_read_fd reports %zd but the tree is {%s} instead of {%s}", r, cdesc(got).c_str(), cdesc(had).c_str()); CHECK(how != MUST || (!t && r == 0), "kvtree_read_fd returns %zd instead of %zu", r, img.size()); if (r == 0) CHECK(p >= (off_t)c.size() || how == MAY, "kvtree_read_fd reports the end of the file at %lld of %zu", (long long)p, c.size()); return r; }
  CHECK(how != NEVER && t, "kvtree_read_fd returns %zd where there is no image", r);
  CHECK(r == (ssize_t)img.size(), "kvtree_read_fd returns %zd instead of %zu", r, img.size());
  CHECK(ofd(fd)->pos == p + r, "after kvtree_read_fd the descriptor is at %lld instead of %lld", (long long)ofd(fd)->pos, (long long)(p + r));
  CHECK(canon(got) == canon(tunion(had, *t)), "kvtree_read_fd gives {%s} instead of {%s}", cdesc(got).c_str(), cdesc(tunion(had, *t)).c_str());
  n_valid(); return r;
}
static kvtree* shared(int i) { static kvtree* h[8]; if (!h[i]) h[i] = build(trees()[i]); return h[i]; }
// descriptors on which one cannot position, like pipes and sockets
static Ans no_seek(Sys& s, int fd) { Ans a; if (s.fd != fd) return a; if (s.op == S_LSEEK) { a.k = Ans::FAIL; a.err = ESPIPE; } if (s.op == S_FTRUNC || s.op == S_FSYNC) { a.k = Ans::FAIL; a.err = EINVAL; } if ((s.op == S_READ || s.op == S_WRITE) && s.off >= 0) { a.k = Ans::FAIL; a.err = ESPIPE; } return a; }

// the calls on two descriptors of one file and one of another, as a model of bytes and positions
struct Op { char k; int fd, tree; };
static std::vector<Op> menu_ops() { std::vector<Op> v; for (int fd = 0; fd < 2; fd++) { v.push_back({'r', fd, 0}); v.push_back({'0', fd, 0}); v.push_back({'e', fd, 0}); v.push_back({'w', fd, 0}); v.push_back({'w', fd, 2}); } v.push_back({'r', 2, 0}); v.push_back({'w', 2, 1}); return v; }

static void kernel_stream(const Api& A, const std::vector<int>& seq, size_t chunk, bool sock) {
  int p[2]; if (sock ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe(p)) harness_error("no pipe");
  Str all; for (int i : seq) all += image(trees()[i]);
  fflush(nullptr); pid_t c = fork();
  if (c == 0) {
    close(p[0]); bool ok = true;
    if (chunk) { for (size_t at = 0; ok && at < all.size(); at += chunk) ok = write(p[1], all.data() + at, std::min(chunk, all.size() - at)) > 0; }
    else { g_real_fs = true; for (int i : seq) ok = ok && A.kvtree_write_fd("z", p[1], shared(i)) == (ssize_t)image(trees()[i]).size(); }
    _exit(ok ? 0 : 1);
  }
  close(p[1]); g_real_fs = true; n_eval();
  Leaks lk; kvtree* h = kvtree_new(); T want; Str bad;
  for (size_t k = 0; k < seq.size() && bad.empty(); k++) { const T& t = trees()[seq[k]]; if (k % 2) { kvtree_unset_all(h); want = T(); } ssize_t r = A.kvtree_read_fd("z", p[0], h); want = tunion(want, t); if (r != (ssize_t)image(t).size()) bad = sfmt("image %zu of %zu read from a %s: %zd instead of %zu", k + 1, seq.size(), sock ? "socket" : "pipe", r, image(t).size()); else if (canon(observe(h)) != canon(want)) bad = sfmt("image %zu of %zu read from a %s gives another tree", k + 1, seq.size(), sock ? "socket" : "pipe"); n_trans(); }
  if (bad.empty()) { ssize_t r = A.kvtree_read_fd("z", p[0], h); if (r != 0) bad = sfmt("kvtree_read_fd at the end of a %s gives %zd", sock ? "socket" : "pipe", r); }
  g_real_fs = false; if (bad.empty() && fcntl(p[0], F_GETFD) < 0) bad = "the caller's descriptor was closed"; close(p[0]); int st = 0; waitpid(c, &st, 0); kvtree_delete(&h);
  CHECK(bad.empty(), "%s", bad.c_str()); CHECK(!st, "kvtree_write_fd to a %s failed", sock ? "socket" : "pipe"); lk.check("reading a stream"); n_valid();
}

CHECK_DEF(C32, "model_checking", "a case is one history of kvtree_write_fd and kvtree_read_fd calls on descriptors of the caller, checked after every call against a model of bytes and positions; distinct_nontrivial counts distinct images and streams") {
  for (int i = 0; i < (int)trees().size(); i++) shared(i);
  const int L = g_thorough ? 5 : 4, N = 5; uint64_t nseq = 0, pw = 1; for (int l = 1; l <= L; l++) { pw *= N; nseq += pw; }
  auto seq_of = [N](uint64_t i) { std::vector<int> s; uint64_t c = N; while (i >= c) { i -= c; c *= N; s.push_back(0); } s.push_back(0); for (auto& x : s) { x = i % N; i /= N; } return s; };
  suite("sequences", nseq, [&](uint64_t i) {
    auto seq = seq_of(i);
    for (int v = 0; v < 2; v++) for (int pre = 0; pre < 4; pre++) for (int app = 0; app < 2; app++) {
      const Api& A = API[v]; trace_begin(); vfs.reset(1); Leaks lk; Str front = pre == 0 ? Str() : pre == 1 ? Str("#") : pre == 2 ? Str(37, '\0') : image(parse("old"));
      vfs.put("z", front); int fd = vfs.add_foreign(0, VROOT "/z", O_RDWR | (app ? O_APPEND : 0)); if (!app) ofd(fd)->pos = front.size();
      TRACE("%s: writing %zu trees behind %zu bytes%s", A.name, seq.size(), front.size(), app ? " with O_APPEND" : "");
      for (int s : seq) put(A, fd, shared(s), trees()[s]);
      Str tail = pre == 1 ? "trailing bytes" : ""; ofd(fd)->ino->data += tail;
      for (int acc = 0; acc < 2; acc++) {                 // into one tree, into a new tree each
        ofd(fd)->pos = front.size(); kvtree* h = kvtree_new();
        for (int s : seq) { if (acc) kvtree_unset_all(h); take(A, fd, h, image(trees()[s]), &trees()[s]); }
        if (tail.empty()) { for (int k = 0; k < 2; k++) CHECK(take(A, fd, h, "", nullptr) == 0, "no end of file"); }
        else { OfdP o = ofd(fd); CHECK(o->ino->data.substr(o->pos) == tail, "what follows the last image was consumed"); }
        kvtree_delete(&h);
      }
      outcome(ofd(fd)->ino->data); vfs.procs[0].fds.erase(fd); lk.check("a stream of images");
    }
  }, "every sequence of up to 4 (thorough 5) of 5 trees (empty to 5 KB) written one after another behind 4 kinds of bytes, at the position and with O_APPEND, and read back one by one into one tree and into emptied trees, both builds");

  static auto ES = exact_sizes(33, g_thorough ? 9000 : 4200, g_thorough ? 22 : 19, -3, 3);
  suite("exact-sizes", (ES.size() + 15) / 16, [&](uint64_t b) { for (size_t i = b * 16; i < std::min(ES.size(), (size_t)b * 16 + 16); i++) {
    const Api& A = API[i % 2]; trace_begin(); vfs.reset(1); Leaks lk; T t = exact_tree(ES[i] - 24), u = exact_tree(ES[(i * 31 + 7) % 4000] - 24); TRACE("%s: an image of %zu bytes between two others", A.name, ES[i]);
    vfs.put("z", ""); int fd = vfs.add_foreign(0, VROOT "/z", O_RDWR); const T* ts[] = {&u, &t, &u, &t}; for (auto x : ts) { kvtree* h = build(*x); put(A, fd, h, *x); kvtree_delete(&h); }
    ofd(fd)->pos = 0; for (auto x : ts) { kvtree* h = kvtree_new(); take(A, fd, h, image(*x), x); kvtree_delete(&h); } kvtree* h = kvtree_new(); CHECK(take(A, fd, h, "", nullptr) == 0, "no end of file"); kvtree_delete(&h);
    vfs.procs[0].fds.erase(fd); lk.check("a stream of images"); } }, "streams of four images, of every size from 33 to 4200 (9000) bytes and within 3 bytes of every power of two up to 2^19 (2^22), and others in between");
  suite("histories", 12 * 12, [&](uint64_t i) {
    static const std::vector<Op> M = menu_ops(); static const int n = M.size(); int D = g_thorough ? 6 : 5;
    uint64_t tot = 1; for (int d = 2; d < D; d++) tot *= n;
    for (uint64_t j = 0; j < tot; j++) for (int v = 0; v < 2; v++) {
      const Api& A = API[v]; trace_begin(); vfs.reset(1); Leaks lk; vfs.put("z", image(trees()[1]) + image(trees()[2])); vfs.put("y", image(trees()[2])); int fd[3] = {vfs.add_foreign(0, VROOT "/z", O_RDWR), vfs.add_foreign(0, VROOT "/z", O_RDWR), vfs.add_foreign(0, VROOT "/y", O_RDWR)};
      kvtree* h = kvtree_new(); uint64_t q = j; Str hist; bool live = true;
      for (int d = 0; d < D && live; d++) {
        const Op& o = M[d == 0 ? i % n : d == 1 ? i / n : q % n]; if (d > 1) q /= n; int f = fd[o.fd]; OfdP of = ofd(f); if (g_verbose) hist += sfmt(" %c%d", o.k, o.fd);
        std::vector<off_t> others; for (int x : fd) others.push_back(ofd(x)->pos);
        if (o.k == '0') of->pos = 0; else if (o.k == 'e') of->pos = of->ino->data.size();
        else if (o.k == 'w') { put(A, f, shared(o.tree), trees()[o.tree]); }
        else { Str rest = of->pos < (off_t)of->ino->data.size() ? of->ino->data.substr(of->pos) : Str(); size_t sz = 0; if (rest.size() >= 16) for (int b = 8; b < 16; b++) sz = sz << 8 | (unsigned char)rest[b]; T t; Str img = sz >= 20 && sz <= rest.size() ? rest.substr(0, sz) : rest; int r = img.empty() ? 1 : dec_image(img, t);
          if (r == 0) take(A, f, h, img, &t); else if (rest.empty()) take(A, f, h, "", nullptr); else { take(A, f, h, "", nullptr, NEVER); live = false; } }
        for (int x = 0; x < 3; x++) if (x != o.fd) CHECK(ofd(fd[x])->pos == others[x], "a call on one descriptor moved another"); n_state();
      }
      TRACE("history%s", hist.c_str()); kvtree_delete(&h); for (int x : fd) vfs.procs[0].fds.erase(x); lk.check("a history on descriptors");
    }
  }, "every history of 5 (thorough 6) operations from 12 (reading, writing two trees, going to the start and to the end on two descriptors of one file; reading and writing another file), both builds");

  suite("positions", 120 * 2, [&](uint64_t i) {                        // reading in any order; replacing one image by others
    const Api& A = API[i % 2]; auto p = permutations(5)[i / 2]; trace_begin(); vfs.reset(1); Leaks lk; Str all; std::vector<size_t> at; for (int k = 0; k < 5; k++) { at.push_back(all.size()); all += image(trees()[k]); }
    vfs.put("z", all); int fd = vfs.add_foreign(0, VROOT "/z", O_RDWR); kvtree* h = kvtree_new();
    for (int k : p) { ofd(fd)->pos = at[k]; take(A, fd, h, image(trees()[k]), &trees()[k]); }
    for (int k : p) { ofd(fd)->pos = at[k]; int o = p[(k + 1) % 5]; put(A, fd, shared(o), trees()[o]); ofd(fd)->pos = at[k]; kvtree_unset_all(h); take(A, fd, h, image(trees()[o]), &trees()[o]); }
    // positions within and beyond
    for (off_t q : {1, 5, 19, 20, 21}) { vfs.put("z", all); vfs.procs[0].fds.erase(fd); fd = vfs.add_foreign(0, VROOT "/z", O_RDWR); ofd(fd)->pos = q; take(A, fd, h, "", nullptr, NEVER); }
    for (off_t q : {0, 1, 1000}) { ofd(fd)->pos = all.size() + q; take(A, fd, h, "", nullptr); }
    kvtree_delete(&h); vfs.procs[0].fds.erase(fd); lk.check("positioned reads");
  }, "5 images read in every order by positioning, replaced in every order by images of other sizes, reads inside an image and beyond the end");

  static const std::vector<int> FDS = {0, 1, 2, 3, 7, 255, 256, 1023, 1024, 32767, 32768, 65535, 65536, 0x7fffffff};
  suite("descriptors", FDS.size() * 2, [&](uint64_t i) {
    const Api& A = API[i % 2]; trace_begin(); vfs.reset(1); int n = FDS[i / 2], fd = vfs.add_foreign(0, VROOT "/z", O_RDWR); OfdP o = ofd(fd); vfs.procs[0].fds.clear(); vfs.procs[0].fds[n] = o;
    Leaks lk; kvtree* h = kvtree_new(); for (int k = 0; k < 3; k++) put(A, n, shared(k), trees()[k]); o->pos = 0; for (int k = 0; k < 3; k++) take(A, n, h, image(trees()[k]), &trees()[k]);
    for (int neg : {-1, -2, -100, (int)0x80000000}) { uint64_t ns = vfs.nsys; Str was = canon(observe(h)); CHECK(A.kvtree_write_fd("z", neg, h) < 0 && A.kvtree_read_fd("z", neg, h) < 0, "a call on descriptor %d succeeds", neg); CHECK(vfs.nsys == ns && canon(observe(h)) == was, "a call on descriptor %d does something", neg); n_eval(); }
    CHECK(A.kvtree_write_fd(nullptr, n, h) < 0 && A.kvtree_read_fd(nullptr, n, h) < 0 && A.kvtree_write_fd("z", n, nullptr) < 0 && A.kvtree_read_fd("z", n, nullptr) < 0, "a call without a name or tree succeeds"); 
    int unopened = n == 5 ? 6 : 5; Str was = canon(observe(h)); CHECK(A.kvtree_write_fd("z", unopened, h) < 0, "writing to a descriptor that is not open succeeds"); CHECK(A.kvtree_read_fd("z", unopened, h) < 0, "reading from a descriptor that is not open does not fail"); CHECK(canon(observe(h)) == was, "a failed read changed the tree");
    // names are only for messages
    for (const char* nm : {"", "other", "/no/such/file", "%s%n"}) { o->pos = 0; CHECK(A.kvtree_write_fd(nm, n, shared(1)) > 0, "kvtree_write_fd fails for another name"); o->pos = 0; CHECK(A.kvtree_read_fd(nm, n, h) > 0, "kvtree_read_fd fails for another name"); CHECK(!vfs.exists(VROOT "/other"), "a file was created"); }
    kvtree_delete(&h); vfs.procs[0].fds.clear(); lk.check("calls on descriptors"); n_valid(); outcome(fnv(&n, 4));
  }, "14 descriptor numbers from 0 to the largest, 4 negative ones, one that is not open, missing arguments, other names");

  suite("access", 3 * 2 * N, [&](uint64_t i) {
    const Api& A = API[i % 2]; int acc = i / 2 % 3, k = i / 6; trace_begin(); vfs.reset(1); Leaks lk; Str front = image(trees()[2]); vfs.put("z", front); int fd = vfs.add_foreign(0, VROOT "/z", acc == 0 ? O_RDONLY : acc == 1 ? O_WRONLY : O_RDWR); kvtree* h = build(parse("had(it)"));
    if (acc == 0) { CHECK(!put(A, fd, shared(k), trees()[k], false), "writing to a descriptor opened for reading succeeds"); CHECK(ofd(fd)->ino->data == front, "file changed"); ofd(fd)->pos = 0; take(A, fd, h, front, &trees()[2]); }
    if (acc == 1) { take(A, fd, h, "", nullptr, NEVER); ofd(fd)->pos = front.size(); put(A, fd, shared(k), trees()[k]); }
    if (acc == 2) { take(A, fd, h, front, &trees()[2]); put(A, fd, shared(k), trees()[k]); ofd(fd)->pos = front.size(); take(A, fd, h, image(trees()[k]), &trees()[k]); }
    kvtree_delete(&h); vfs.procs[0].fds.erase(fd); lk.check("calls by access mode");
  }, "descriptors opened for reading, writing and both");

  // a stream that is cut: whole images are there, the rest is none
  Str three = image(trees()[2]) + image(trees()[0]) + image(trees()[3]);
  suite("cut", three.size() + 1, [&](uint64_t n) {
    const int idx[3] = {2, 0, 3};
    for (int v = 0; v < 2; v++) for (int ns = 0; ns < 2; ns++) { const Api& A = API[v]; trace_begin(); vfs.reset(1); Leaks lk; vfs.put("z", three.substr(0, n)); int fd = vfs.add_foreign(0, VROOT "/z", O_RDWR); if (ns) vfs.before = [&](Sys& s) { return no_seek(s, fd); };
      kvtree* h = build(parse("had(it)")); size_t at = 0; for (int k : idx) { Str im = image(trees()[k]); if (at + im.size() <= n) { take(A, fd, h, im, &trees()[k]); at += im.size(); } else { if (at == n) take(A, fd, h, "", nullptr); else CHECK(take(A, fd, h, "", nullptr, NEVER) < 0, "a cut image is taken for the end of the stream"); break; } }
      kvtree_delete(&h); vfs.before = nullptr; vfs.procs[0].fds.erase(fd); lk.check("a cut stream"); }
  }, "a stream of 3 images cut at every byte, read from a file and from a descriptor that cannot be positioned");
  suite("altered", three.size(), [&](uint64_t n) {
    const int idx[3] = {2, 0, 3};
    for (int b = 0; b < 8; b++) { const Api& A = API[(n + b) % 2]; trace_begin(); vfs.reset(1); Leaks lk; Str s = three; s[n] ^= 1 << b; vfs.put("z", s); int fd = vfs.add_foreign(0, VROOT "/z", O_RDWR);
      kvtree* h = build(parse("had(it)")); size_t at = 0; for (int k : idx) { Str im = image(trees()[k]); ofd(fd)->pos = at; bool hit = n >= at && n < at + im.size(); if (!hit) take(A, fd, h, im, &trees()[k]); else if (n < at + 8 || n >= at + 20) CHECK(take(A, fd, h, "", nullptr, NEVER) < 0, "an altered image is not refused"); at += im.size(); }
      kvtree_delete(&h); vfs.procs[0].fds.erase(fd); lk.check("an altered stream"); }
  }, "every single bit of a stream of 3 images altered: the image that holds it is refused, the others are read");

  // what cannot be positioned, in pieces
  Str two = image(trees()[0]) + image(trees()[1]);
  suite("pieces", two.size() + 1, [&](uint64_t c1) {
    for (size_t c2 = c1; c2 <= two.size(); c2++) for (size_t c3 = c2; c3 <= two.size(); c3++) for (int v = 0; v < 2; v++) {
      const Api& A = API[v]; trace_begin(); vfs.reset(1); Leaks lk; int fd = vfs.add_foreign(0, VROOT "/z", O_RDWR); std::vector<size_t> cuts = {c1, c2, c3, two.size()};
      int mode = 0; std::set<size_t> intr; 
      vfs.before = [&](Sys& s) { Ans a = no_seek(s, fd); if (a.k != Ans::DO || s.fd != fd || (s.op != S_READ && s.op != S_WRITE)) return a; size_t p = ofd(fd)->pos; if (mode && intr.insert(p).second) { a.k = Ans::FAIL; a.err = mode == 1 ? EINTR : EAGAIN; return a; } for (size_t c : cuts) if (c > p) { if (c - p < s.n) { a.k = Ans::PART; a.n = c - p; } break; } return a; };
      for (mode = 0; mode < 3; mode++) { intr.clear(); ofd(fd)->ino->data.clear(); ofd(fd)->pos = 0; put(A, fd, shared(0), trees()[0]); put(A, fd, shared(1), trees()[1]); CHECK(ofd(fd)->ino->data == two, "the stream differs when written in pieces");
        intr.clear(); ofd(fd)->pos = 0; kvtree* h = kvtree_new(); take(A, fd, h, image(trees()[0]), &trees()[0]); take(A, fd, h, image(trees()[1]), &trees()[1]); take(A, fd, h, "", nullptr); kvtree_delete(&h); }
      vfs.before = nullptr; vfs.procs[0].fds.erase(fd); lk.check("a stream in pieces");
    }
  }, "a stream of 2 images written to and read from a descriptor that cannot be positioned, in every partition into up to 4 pieces, each piece also preceded by an interruption");

  // faults
  static const std::vector<std::vector<int>> FS = {{0}, {2}, {1, 2}, {2, 0, 1}, {4, 1}};
  suite("faults", FS.size() * 4, [&](uint64_t i) {
    const auto& seq = FS[i / 4]; const Api& A = API[i % 2]; bool reading = i / 2 % 2; int bound = g_thorough ? 3 : 2;
    uint64_t runs = explore(bound, [&](Explorer& ex) {
      trace_begin(); vfs.reset(1); Leaks lk; Str all; for (int s : seq) all += image(trees()[s]); Str front = "front"; vfs.put("z", front + (reading ? all : Str())); int fd = vfs.add_foreign(0, VROOT "/z", O_RDWR); ofd(fd)->pos = front.size();
      std::vector<Alt> m; std::map<int, Ans> sticky; bool hard = false; Str what; 
      auto hook = [&](Sys& s) -> Ans { if (s.fd != fd) return Ans(); if (sticky.count(s.op)) return sticky[s.op]; menu(s, m, false); int c = ex.choose(m.size() + 1); if (!c) return Ans(); const Alt& a = m[c - 1]; if (!a.intr) hard = true; if (a.persist) sticky[s.op] = a.a; TRACE("  %s answers %s%s", sysop_name[s.op], ans_str(a.a).c_str(), a.persist ? " from now on" : ""); return a.a; };
      kvtree* h = build(parse("had(it)")); size_t at = front.size();
      for (size_t k = 0; k < seq.size(); k++) {
        const T& t = trees()[seq[k]]; Str im = image(t); vfs.before = hook; bool ok;
        if (reading) ok = take(A, fd, h, im, &t, MAY) > 0; else ok = put(A, fd, shared(seq[k]), t, false);
        vfs.before = nullptr; CHECK(ok || hard, "interrupted and short calls make %s fail", reading ? "kvtree_read_fd" : "kvtree_write_fd");
        if (!ok) { sticky.clear(); ofd(fd)->pos = at; if (reading) take(A, fd, h, im, &t); else put(A, fd, shared(seq[k]), t); n_valid(); }   // the caller goes back and tries again
        at += im.size();
      }
      Str c = ofd(fd)->ino->data; CHECK(!c.compare(0, front.size(), front), "bytes in front of the stream changed");
      if (!reading) { kvtree* x = kvtree_new(); ofd(fd)->pos = front.size(); for (int s : seq) { kvtree_unset_all(x); take(A, fd, x, image(trees()[s]), &trees()[s]); } kvtree_delete(&x); }
      kvtree_delete(&h); vfs.procs[0].fds.erase(fd); lk.check("a stream with faults"); n_state();
    });
    (void)runs;
  }, "5 sequences of trees, written and read with every set of up to 2 (thorough 3) faults in the calls on the descriptor; after a failure the caller goes back and repeats the call");

  static const std::vector<size_t> CH = {0, 1, 3, 20, 4096, 65536, 1 << 20};
  suite("kernel", CH.size() * 2 * 2, [&](uint64_t i) {
    const Api& A = API[i % 2]; bool sock = i / 2 % 2; size_t ch = CH[i / 4]; static const std::vector<std::vector<int>> K = {{}, {0}, {5}, {0, 0}, {1, 2}, {3, 0, 1}, {4, 5}, {2, 4, 1, 3}, {5, 0, 4, 4, 5, 0}};
    for (auto& s : K) { trace_begin(); TRACE("%zu images through a %s in pieces of %zu", s.size(), sock ? "socket" : "pipe", ch); if (ch && ch < 20 && std::count(s.begin(), s.end(), 5)) continue; kernel_stream(A, s, ch, sock); outcome(fnv(&i, 8, s.size())); }
  }, "conformance: 9 streams of up to 6 images through kernel pipes and sockets, written by another process with kvtree_write_fd or in pieces of 6 sizes");
}
