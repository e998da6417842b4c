// Fault menus: what a system call may answer instead of doing as asked.
#pragma once
#include "env.h"
#include <cerrno>
#include <cstring>
struct Alt { Ans a; bool intr; bool persist; };
static Alt mk(Ans::K k, int err, size_t n, bool intr, bool persist = false) { Alt x; x.a.k = k; x.a.err = err; x.a.n = n; x.intr = intr; x.persist = persist; return x; }
static void menu(const Sys& s, std::vector<Alt>& m, bool intr_only) {
  m.clear();
  auto part = [&](size_t n) { if (n > 0 && n < s.n) { for (auto& x : m) if (x.a.k == Ans::PART && x.a.n == n) return; m.push_back(mk(Ans::PART, 0, n, true)); } };
  auto er = [&](int e, bool both = true) { if (!intr_only) { m.push_back(mk(Ans::FAIL, e, 0, false)); if (both) m.push_back(mk(Ans::FAIL, e, 0, false, true)); } };
  switch (s.op) {
    case S_READ: part(1); part(s.n / 2); part(s.n - 1); m.push_back(mk(Ans::FAIL, EINTR, 0, true)); m.push_back(mk(Ans::FAIL, EAGAIN, 0, true)); er(EIO); break;
    case S_WRITE: part(1); part(s.n / 2); part(s.n - 1); m.push_back(mk(Ans::FAIL, EINTR, 0, true)); m.push_back(mk(Ans::FAIL, EAGAIN, 0, true)); er(ENOSPC); er(EIO, false); if (!intr_only) m.push_back(mk(Ans::PART, 0, 0, false)); break;
    case S_FSYNC: m.push_back(mk(Ans::FAIL, EINTR, 0, true)); er(EIO); er(ENOSPC, false); er(EDQUOT, false); break;
    case S_OPEN: er(EACCES); er(EMFILE, false); break;
    case S_CLOSE: er(EIO); break;
    case S_LSEEK: er(EIO); break;
    case S_FTRUNC: er(EIO); er(EINTR, false); break;
    case S_FLOCK: case S_FCNTL: er(ENOLCK); er(EINTR, false); break;
    case S_ACCESS: case S_STAT: er(EACCES); break;
    default: break;
  }
}
static Str ans_str(const Ans& a) { return a.k == Ans::DO ? "done" : a.k == Ans::FAIL ? strerrorname_np(a.err) : sfmt("%zu bytes", a.n); }
