#ifndef HCOMMON_H
#define HCOMMON_H
#include "pbt.h"
#include "evfs.h"
#include "memfs.h"
#include <string>
#include <cstdlib>
#include <cstring>
using pbt::Case; using pbt::quote;

// Heap buffer of an exact size, so that ASan sees any access outside it.
struct Exact {
  char *base, *p; size_t n;
  void get(size_t n_) { n = n_; base = (char *)malloc(n ? n : 8); p = n ? base : base + 8; }   // nothing of an empty buffer is accessible
  explicit Exact(size_t n_) { get(n_); memset(p, 0x7e, n); }
  explicit Exact(const std::string &s) { get(s.size() + 1); memcpy(p, s.c_str(), n); }
  Exact(const void *d, size_t k) { get(k); if(k) memcpy(p, d, k); }
  ~Exact() { free(base); }
  Exact(const Exact &) = delete;
  std::string str() const { return std::string(p, strnlen(p, n)); }
  bool terminated() const { return strnlen(p, n) < n; }
  StringRange r() { StringRange x; x.start = p; x.end = p + n; return x; }
};
inline std::string rstr(const StringRange &r) { return std::string(r.start, (size_t)(r.end - r.start)); }
inline bool is_sep(char c) { return c == '/' || c == '\\'; }

// Fresh library state for a case.
struct Lib {
  Lib() { evfs_unregister_all(); pbt::alloc_reset(); }
  ~Lib() { evfs_unregister_all(); }
};
// Operations which may run out of memory: they report it, leave everything as it
// was and are then repeated with enough memory.
struct Oom {
  bool on = false; int hits = 0, errors = 0, permille = 400;
  std::function<std::string()> snapshot;
  template<class F> long call(Case &c, const char *op, F f) {
    if(!on || (int)c.below(1000) >= permille) return (long)f();
    std::string was; if(snapshot) was = snapshot(); size_t live = pbt::alloc_live(); long n = 1 + (long)c.weighted({65, 18, 9, 5, 3}); if(c.chance(30)) n = -n;
    pbt::alloc_fail_at(n); long r = (long)f(); bool failed = pbt::alloc_failed(); pbt::alloc_fail_at(0);
    if(!failed) return r;
    hits++; c.note("  %s without memory: %s", op, r <= 1 ? evfs_err_name((int)r) : std::to_string(r).c_str()); if(r >= 0) return r;
    REQUIRE(pbt::alloc_live() == live, "%s without memory: %zu blocks were allocated, now %zu", op, live, pbt::alloc_live());
    if(snapshot && strcmp(op, "make_path")) { std::string now = snapshot(); REQUIRE(now == was, "%s without memory changes\n%s\nto\n%s", op, was.c_str(), now.c_str()); }
    long again = (long)f(); if(r == EVFS_ERR_ALLOC) errors++; else REQUIRE(r == again, "%s without memory = %s, with memory %ld", op, evfs_err_name((int)r), again);
    return again;
  }
};
// Any error, or any that an operation on an open file can give
inline int any_error(Case &c) { return -1 - (int)c.below(22); }
inline int file_error(Case &c) { return c.pick({(int)EVFS_ERR_IO, (int)EVFS_ERR_CORRUPTION, (int)EVFS_ERR_FS_FULL, (int)EVFS_ERR, (int)EVFS_ERR_NO_SUPPORT, (int)EVFS_ERR_OVERFLOW, (int)EVFS_ERR_BAD_ARG, (int)EVFS_ERR_ALLOC, (int)EVFS_ERR_TOO_LONG, (int)EVFS_ERR_AUTH, (int)EVFS_ERR_DISABLED, (int)EVFS_ERR_INVALID, (int)EVFS_ERR_NOT_OPEN}); }
#define ENAME(e) evfs_err_name((int)(e))
#endif
