// Differential driver: the same random file system operations on two VFSs
// (the one under test and a reference), comparing everything observable.
#ifndef FSDIFF_H
#define FSDIFF_H
#include "common.h"
#include <algorithm>

struct FsDiff {
  Case &c;
  std::string va, vb;                 // VFS names: under test, reference
  // options
  bool exact = true;                  // status codes must be equal, otherwise only success/failure
  bool dirs = true, chdir = true, any_flags = true, mtime = true;
  bool one_handle = false;            // never two open handles on one file; no deleting/renaming what is open
  std::string prefix_a, prefix_b;     // put in front of absolute paths
  std::function<std::string(std::string)> alter_a;  // another spelling of a path for the first VFS
  std::string strip_a, strip_b;       // drive in front of the current directory
  bool stat_name = true;
  std::function<std::string()> path;  // path generator
  std::function<int()> flags;         // open flags generator
  std::function<bool(const std::string &)> open_ok;  // restricts the paths passed to open
  std::function<void(const char *)> after;   // called after every operation
  std::function<bool(const std::string &)> skip;  // skip modifying operations on this path
  size_t max_io = 200, min_io = 0;
  bool dir_atomic = false;            // directories are opened, listed twice and closed at once
  bool sync_first = false;            // sync open files before looking at the tree
  bool no_dots = false;               // listings of the first VFS must not contain the dot entries
  std::function<bool(const std::string &, const std::string &)> rename_ok;

  struct Slot { EvfsFile *a = nullptr, *b = nullptr; int flags = 0; std::string p; };
  struct DSlot { EvfsDir *a = nullptr, *b = nullptr; };
  Slot f[3]; DSlot d[2];
  bool fctrl = true;
  std::function<bool(Slot &, long, EvfsSeekDir)> seek_ok;
  std::function<bool(Slot &, long)> trunc_ok;
  std::function<bool(Slot &, int)> fop_ok;      // restricts file operations (index as in file_op)
  std::function<void(Slot &)> opened_hook;      // called for a new handle
  void sync_all() { for(auto &s : f) if(s.a) { int x = evfs_file_sync(s.a); cmp("sync", x, evfs_file_sync(s.b)); } }
  int ops = 0, ok_mut = 0, ok_reads = 0;
  Oom oom;                            // operations on the first VFS may run out of memory
  template<class F> long T(const char *op, F f) { return oom.call(c, op, f); }

  FsDiff(Case &c_, const char *a, const char *b) : c(c_), va(a), vb(b) {
    path = [this]() { return std_path(); };
    flags = [this]() { return any_flags && c.chance(30) ? (int)c.below(64) : c.pick(std::vector<int>{EVFS_READ, EVFS_RDWR, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_WRITE|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OVERWRITE, EVFS_RDWR|EVFS_APPEND|EVFS_OPEN_OR_NEW, EVFS_WRITE|EVFS_OPEN_OR_NEW, EVFS_WRITE}); };
  }
  static const std::vector<std::string> &names() { static const std::vector<std::string> n = {"a", "b", "c.txt", "dd", "E e", "..x", "f."}; return n; }
  std::string std_path() {
    std::string s = c.chance(60) ? "/" : "";
    size_t n = c.weighted({4, 45, 35, 16});
    for(size_t i = 0; i < n; i++) {
      if(!s.empty() && s.back() != '/' && s.back() != '\\') s += c.chance(8) ? (c.chance(50) ? "//" : "\\") : "/";
      switch(c.weighted({86, 7, 7})) { case 0: s += c.pick(names()); break; case 1: s += ".."; break; default: s += "."; }
    }
    if(n && c.chance(7)) s += "/";
    return s;
  }
  void cmp(const char *op, long a, long b) {
    if(exact ? a != b : (a < 0) != (b < 0) || (a >= 0 && a != b))
      pbt::fail("%s: %s = %ld (%s), reference = %ld (%s)", op, va.c_str(), a, a <= 1 ? ENAME(a) : "", b, b <= 1 ? ENAME(b) : "");
    if(after) after(op);
  }
  static std::string info_str(const EvfsInfo &i, bool mt) {
    char b[500]; snprintf(b, sizeof b, "name=%s type=%d size=%ld mtime=%ld", i.name ? i.name : "(null)", i.type, (i.type & EVFS_FILE_DIR) ? 0L : (long)i.size, mt ? (long)i.mtime : 0L); return b;
  }
  bool opened(const std::string &p) { (void)p; for(auto &s : f) if(s.a) return true; return false; }
  void step() {
    ops++;
    std::string p = path(), pa = p, pb = p; if(!p.empty() && (p[0] == '/' )) { pa = prefix_a + p; pb = prefix_b + p; }
    if(alter_a) pa = alter_a(pa);
    const char *A = va.c_str(), *B = vb.c_str(); bool direct = c.chance(30);
    switch(c.weighted({12, 22, 5, 4, 3, 5, 4, 5, 4, 5, 3})) {
    case 0: { // open
      Slot &s = f[c.below(3)]; if(s.a) { close(s); }
      if(one_handle) for(auto &o : f) if(o.a && o.p == p) return;
      if(open_ok && !open_ok(p)) return;
      int fl = flags(); c.note("open %s flags %#x", quote(p).c_str(), fl);
      int x = (int)T("open", [&] { int r = direct ? evfs_vfs_open(evfs_find_vfs(A), pa.c_str(), &s.a, fl) : evfs_open_ex(pa.c_str(), &s.a, fl, A); REQUIRE((r == EVFS_OK) == (s.a != nullptr), "open = %s with handle %p", ENAME(r), (void *)s.a); return r; }), y = evfs_open_ex(pb.c_str(), &s.b, fl, B);
      REQUIRE((x == EVFS_OK) == (s.a != nullptr), "open = %s with handle %p", ENAME(x), (void *)s.a);
      s.flags = fl; s.p = p; if(x < 0) s.a = nullptr; if(y < 0) s.b = nullptr;
      cmp("open", x, y); if(x == 0 && (fl & ~EVFS_READ)) ok_mut++;
      if(x == 0 && opened_hook) opened_hook(s);
      break; }
    case 1: { // file operation
      Slot &s = f[c.below(3)]; if(!s.a) return; file_op(s); break; }
    case 2: { Slot &s = f[c.below(3)]; if(s.a) { c.note("close %s", quote(s.p).c_str()); close(s); } break; }
    case 3: { c.note("stat %s", quote(p).c_str()); if(sync_first) sync_all();
      EvfsInfo i, j; memset(&i, 0x55, sizeof i); memset(&j, 0, sizeof j); i.name = nullptr; j.name = nullptr;
      int x = (int)T("stat", [&] { return evfs_stat_ex(pa.c_str(), &i, A); }), y = evfs_stat_ex(pb.c_str(), &j, B); cmp("stat", x, y);
      if(!stat_name) i.name = j.name = nullptr; if(x == 0) { ok_reads++; std::string q = info_str(i, mtime), r = info_str(j, mtime); REQUIRE(q == r, "stat %s: %s, reference %s", quote(p).c_str(), q.c_str(), r.c_str()); }
      break; }
    case 4: { c.note("exists %s", quote(p).c_str());
      cmp("existing file", evfs_existing_file_ex(pa.c_str(), A), evfs_existing_file_ex(pb.c_str(), B)); cmp("existing dir", evfs_existing_dir_ex(pa.c_str(), A), evfs_existing_dir_ex(pb.c_str(), B)); break; }
    case 5: { if(skip && skip(p)) return; c.note("delete %s", quote(p).c_str()); int x = (int)T("delete", [&] { return evfs_delete_ex(pa.c_str(), A); }); cmp("delete", x, evfs_delete_ex(pb.c_str(), B)); if(x == 0) ok_mut++; break; }
    case 6: { std::string q = path(), qa = q, qb = q; if(!q.empty() && q[0] == '/') { qa = prefix_a + q; qb = prefix_b + q; } if(alter_a) qa = alter_a(qa); if((skip && (skip(p) || skip(q))) || (rename_ok && !rename_ok(p, q))) return;
      c.note("rename %s to %s", quote(p).c_str(), quote(q).c_str()); int x = (int)T("rename", [&] { return evfs_rename_ex(pa.c_str(), qa.c_str(), A); }); cmp("rename", x, evfs_rename_ex(pb.c_str(), qb.c_str(), B)); if(x == 0) ok_mut++; break; }
    case 7: { if(!dirs) return; c.note("mkdir %s", quote(p).c_str()); int x = (int)T("make_dir", [&] { return evfs_make_dir_ex(pa.c_str(), A); }); cmp("make_dir", x, evfs_make_dir_ex(pb.c_str(), B)); if(x == 0) ok_mut++; break; }
    case 8: { if(!dirs) return; if(c.chance(50)) { c.note("make_path %s", quote(p).c_str()); cmp("make_path", T("make_path", [&] { return evfs_make_path_ex(pa.c_str(), A); }), evfs_make_path_ex(pb.c_str(), B)); return; }
      DSlot &s = d[c.below(2)]; if(s.a) closed(s);
      c.note("opendir %s", quote(p).c_str()); int x = (int)T("open_dir", [&] { int r = direct ? evfs_vfs_open_dir(evfs_find_vfs(A), pa.c_str(), &s.a) : evfs_open_dir_ex(pa.c_str(), &s.a, A); REQUIRE((r == EVFS_OK) == (s.a != nullptr), "open_dir = %s with handle %p", ENAME(r), (void *)s.a); return r; }), y = evfs_open_dir_ex(pb.c_str(), &s.b, B);
      REQUIRE((x == EVFS_OK) == (s.a != nullptr), "open_dir = %s with handle %p", ENAME(x), (void *)s.a);
      if(x < 0) s.a = nullptr; if(y < 0) s.b = nullptr; cmp("open_dir", x, y);
      if(x == 0 && dir_atomic) { if(sync_first) sync_all(); auto l = list(s.a, no_dots), n = list(s.b); REQUIRE(l == n, "listing {%s}, reference {%s}", l.c_str(), n.c_str()); if(!n.empty()) ok_reads++;
        cmp("rewind", T("rewind", [&] { return evfs_dir_rewind(s.a); }), evfs_dir_rewind(s.b)); l = list(s.a, no_dots); REQUIRE(l == n, "listing after rewinding {%s}, reference {%s}", l.c_str(), n.c_str()); closed(s); }
      break; }
    case 9: { if(!dirs) return; DSlot &s = d[c.below(2)]; if(!s.a) return; dir_op(s); break; }
    default: { if(!chdir) return;
      if(c.chance(60)) { c.note("chdir %s", quote(p).c_str()); cmp("set_cur_dir", T("set_cur_dir", [&] { return evfs_set_cur_dir_ex(pa.c_str(), A); }), evfs_set_cur_dir_ex(pb.c_str(), B)); }
      char b1[EVFS_MAX_PATH], b2[EVFS_MAX_PATH]; StringRange r1 = RANGE_FROM_ARRAY(b1), r2 = RANGE_FROM_ARRAY(b2);
      int x = (int)T("get_cur_dir", [&] { return evfs_get_cur_dir_ex(&r1, A); }); cmp("get_cur_dir", x, evfs_get_cur_dir_ex(&r2, B));
      if(x == 0) { std::string s1 = b1, s2 = b2; if(!strip_a.empty()) { REQUIRE(s1.compare(0, strip_a.size(), strip_a) == 0, "current directory %s", quote(s1).c_str()); s1 = s1.substr(strip_a.size()); } if(!strip_b.empty() && s2.compare(0, strip_b.size(), strip_b) == 0) s2 = s2.substr(strip_b.size()); if(s1.compare(0, prefix_a.size(), prefix_a) == 0) s1 = s1.substr(prefix_a.size()); if(s2.compare(0, prefix_b.size(), prefix_b) == 0) s2 = s2.substr(prefix_b.size()); if(s1.empty()) s1 = "/"; if(s2.empty()) s2 = "/"; REQUIRE(s1 == s2, "current directory %s, reference %s", s1.c_str(), s2.c_str()); }
      break; }
    }
  }
  void file_op(Slot &s) {
    size_t op = c.weighted({30, 30, 20, 6, 6, 6, 6, 6, 4});
    if(fop_ok && !fop_ok(s, (int)op)) return;
    switch(op) {
    case 0: { size_t n = min_io + c.size(max_io); c.note("read %zu from %s", n, quote(s.p).c_str()); Exact x(n), y(n);
      ptrdiff_t k = T("read", [&] { return evfs_file_read(s.a, x.p, n); }); cmp("read", k, evfs_file_read(s.b, y.p, n));
      if(k > 0) { ok_reads++; REQUIRE(k <= (ptrdiff_t)n, "read %td of %zu", k, n); REQUIRE(!memcmp(x.p, y.p, (size_t)k), "read %zu bytes: %s, reference %s", n, quote(x.p, (size_t)k).c_str(), quote(y.p, (size_t)k).c_str()); }
      break; }
    case 1: { size_t n = min_io + c.size(max_io); auto v = c.blob(n); c.note("write %zu to %s", n, quote(s.p).c_str()); Exact x(v.data(), n);
      ptrdiff_t k = T("write", [&] { return evfs_file_write(s.a, x.p, n); }); cmp("write", k, evfs_file_write(s.b, x.p, n)); if(k > 0) ok_mut++; break; }
    case 2: { EvfsSeekDir o = c.pick({EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); long off = c.size(400); if(max_io > 400 && c.chance(50)) off = (long)c.below((size_t)std::max<long>(0, (long)evfs_file_size(s.a)) + 40); if(c.chance(o == EVFS_SEEK_REL ? 50 : 12)) off = -off; if(seek_ok && !seek_ok(s, off, o)) { if(!odd_seek) return;
        // where file systems differ: it is refused or lands somewhere sensible, and nothing can be read beyond the end
        c.note("seek %ld mode %d on %s", off, o, quote(s.p).c_str()); long was = (long)evfs_file_tell(s.a), sz = (long)evfs_file_size(s.a); int x = (int)T("seek", [&] { return evfs_file_seek(s.a, (evfs_off_t)off, o); }); long at = (long)evfs_file_tell(s.a);
        REQUIRE(x <= 0 && at >= 0 && (x == 0 || at == was), "seek %ld mode %d in a file of %ld bytes at %ld = %s, position %ld", off, o, sz, was, ENAME(x), at); uint8_t b; if(at >= sz) { ptrdiff_t r = evfs_file_read(s.a, &b, 1); REQUIRE(r <= 0, "read %td byte at %ld of a file of %ld bytes", r, at, sz); }
        REQUIRE(!clip_seek || at <= sz, "seek %ld mode %d left the position at %ld of a file of %ld bytes", off, o, at, sz); REQUIRE((long)evfs_file_size(s.a) == sz, "seek %ld mode %d changed the size from %ld to %ld", off, o, sz, (long)evfs_file_size(s.a)); x = evfs_file_seek(s.a, (evfs_off_t)was, EVFS_SEEK_TO); at = (long)evfs_file_tell(s.a); REQUIRE(x == 0 && at == was, "seeking back to %ld = %s, position %ld", was, ENAME(x), at); return; }
      c.note("seek %ld mode %d on %s", off, o, quote(s.p).c_str());
      int x = (int)T("seek", [&] { return off == 0 && o == EVFS_SEEK_TO ? evfs_file_rewind(s.a) : evfs_file_seek(s.a, (evfs_off_t)off, o); }); cmp("seek", x, evfs_file_seek(s.b, (evfs_off_t)off, o)); cmp("tell after seek", evfs_file_tell(s.a), evfs_file_tell(s.b)); break; }
    case 3: c.note("tell"); cmp("tell", evfs_file_tell(s.a), evfs_file_tell(s.b)); break;
    case 4: c.note("size"); cmp("size", evfs_file_size(s.a), evfs_file_size(s.b)); break;
    case 5: c.note("eof"); cmp("eof", evfs_file_eof(s.a), evfs_file_eof(s.b)); break;
    case 6: { long n = c.size(300); if(max_io > 400 && c.chance(50)) n = (long)c.below((size_t)std::max<long>(0, (long)evfs_file_size(s.a)) + 40); if(trunc_ok && !trunc_ok(s, n)) return; c.note("truncate %ld", n); int x = (int)T("truncate", [&] { return evfs_file_truncate(s.a, (evfs_off_t)n); }); cmp("truncate", x, evfs_file_truncate(s.b, (evfs_off_t)n)); if(x == 0) ok_mut++; break; }
    case 7: c.note("sync"); cmp("sync", T("sync", [&] { return evfs_file_sync(s.a); }), evfs_file_sync(s.b)); break;
    default: { if(!fctrl) return; int v1[4] = {1}, v2[4] = {1}; int cmd = c.pick({EVFS_CMD_USER_DEFINED, (int)EVFS_CMD_GET_RSRC_ADDR}); cmp("file ctrl", evfs_file_ctrl(s.a, cmd, v1), evfs_file_ctrl(s.b, cmd, v2)); cmp("file ctrl argument", v1[0], v2[0]); break; }
    }
  }
  bool clip_seek = false;             // a position never lies beyond the end of the file
  bool odd_seek = false;              // also seek where seek_ok says the two may differ
  bool dir_sorted = false;            // directory order unspecified: compare whole listings
  void dir_op(DSlot &s) {
    size_t w = dir_sorted ? 2 : c.weighted({60, 10, 20, 10});
    if(w == 0) {
      c.note("readdir"); EvfsInfo i, j; memset(&i, 0x55, sizeof i); memset(&j, 0x55, sizeof j);
      int x = (int)T("dir_read", [&] { return evfs_dir_read(s.a, &i); }), y = evfs_dir_read(s.b, &j);
      std::string q, r; if(x == 0) q = info_str(i, mtime); if(y == 0) r = info_str(j, mtime);
      cmp("readdir", x, y); REQUIRE(q == r, "directory entry %s, reference %s", q.c_str(), r.c_str()); if(x == 0) ok_reads++;
    } else if(w == 1) { c.note("find");
      EvfsInfo i, j; const char *pat = c.pick({"*", "?", "*.txt", "[a-c]*"}); int x = evfs_dir_find(s.a, pat, &i); std::string q, r; if(x == 0) q = info_str(i, mtime);
      int y = evfs_dir_find(s.b, pat, &j); if(y == 0) r = info_str(j, mtime); cmp("dir_find", x, y); REQUIRE(q == r, "found %s, reference %s", q.c_str(), r.c_str());
    } else if(w == 2) {
      c.note("rewind%s", dir_sorted ? " and list" : ""); cmp("rewind", evfs_dir_rewind(s.a), evfs_dir_rewind(s.b));
      if(dir_sorted) { auto l = list(s.a), m = list(s.b); REQUIRE(l == m, "listing {%s}, reference {%s}", l.c_str(), m.c_str()); ok_reads++; }
    } else { c.note("closedir"); closed(s); }
  }
  bool type_only = false;
  std::string list(EvfsDir *h, bool nodots = false) {
    std::vector<std::string> v; EvfsInfo i; int s; size_t guard = 0;
    while((s = evfs_dir_read(h, &i)) == EVFS_OK && guard++ < 1000) { if(!strcmp(i.name, ".") || !strcmp(i.name, "..")) { REQUIRE(!nodots, "dot entry \"%s\" listed", i.name); continue; } v.push_back(type_only ? std::string(i.name) + ((i.type & EVFS_FILE_DIR) ? "/" : "") : info_str(i, mtime)); }
    REQUIRE(s == EVFS_DONE, "listing ended with %s", ENAME(s));
    std::sort(v.begin(), v.end()); std::string o; for(auto &x : v) o += x + "; "; return o;
  }
  void close(Slot &s) { int x = evfs_file_close(s.a), y = evfs_file_close(s.b); s.a = s.b = nullptr; cmp("close", x, y); }
  void closed(DSlot &s) { int x = evfs_dir_close(s.a), y = evfs_dir_close(s.b); s.a = nullptr; s.b = nullptr; cmp("close_dir", x, y); }
  void finish() { for(auto &s : f) if(s.a) close(s); for(auto &s : d) if(s.a) closed(s); }
};
#endif
