// Library core: registry and dispatch, copying between file systems, formatted output, directory search.
#include "common.h"
#include <cstdarg>
extern "C" {
#include "evfs/util/glob.h"
}
using namespace pbt;
void pbt::harness_setup() { evfs_init(); }

// ------------------------------------------------------------ R05 registry
static void registry(Case &c) {
  Lib lib;
  static const char *NM[] = { "a", "a_file_system_with_a_long_name", "aa", "a_file_system_with_a_long_name2", "b", "A" };
  std::vector<std::unique_ptr<MemFs>> pool;
  for(int i = 0; i < 6; i++) { pool.emplace_back(new MemFs(NM[i])); pool.back()->log_calls = true; }
  // bare VFSs only have the two required methods
  std::vector<bool> bare(6);
  for(int i = 0; i < 6; i++) if(c.chance(30)) {
    bare[i] = true; Evfs &v = pool[i]->vfs;
    v.m_delete = nullptr; v.m_rename = nullptr; v.m_make_dir = nullptr; v.m_open_dir = nullptr; v.m_get_cur_dir = nullptr; v.m_set_cur_dir = nullptr; v.m_path_root_component = nullptr;
  }
  std::vector<int> reg; int def = -1;   // registered indices, default index
  std::vector<int> unreg_count(6, 0);
  size_t n = 3 + c.size(25); bool changed_default = false, did_unreg = false;
  auto check_default = [&](const char *what) {
    const char *dn = evfs_default_vfs_name();
    if(reg.empty()) { REQUIRE(!*dn, "%s: default is %s with nothing registered", what, dn); return; }
    REQUIRE(std::string(dn) == NM[def], "%s: default VFS is \"%s\", expected \"%s\"", what, dn, NM[def]);
  };
  auto has = [&](int i) { for(int x : reg) if(x == i) return true; return false; };
  for(size_t k = 0; k < n; k++) {
    int i = (int)c.below(6);
    switch(c.weighted({35, 20, 45})) {
    case 0: {
      bool d = c.chance(50); c.note("register %s default=%d", NM[i], d);
      bool known = has(i);
      // registering another object under a taken name acts on the registered one
      static Evfs dup; Evfs *obj = &pool[i]->vfs;
      if(known && c.chance(30)) { memset(&dup, 0, sizeof dup); dup.vfs_name = NM[i]; obj = &dup; }
      int s = evfs_register(obj, d); REQUIRE(s == EVFS_OK, "register = %s", ENAME(s));
      if(!known) reg.push_back(i);
      if(reg.size() == 1) def = i;
      else if(d) { if(def != i) changed_default = true; def = i; }
      else if(known && def == i) {
        const char *dn = evfs_default_vfs_name(); int nd = -1; for(int x : reg) if(x != i && std::string(dn) == NM[x]) nd = x;
        REQUIRE(nd >= 0, "removing default status left \"%s\" as the default", dn); def = nd; changed_default = true;
      }
      break;
    }
    case 1: {
      c.note("unregister %s", NM[i]);
      int s = evfs_unregister(&pool[i]->vfs); bool known = has(i);
      REQUIRE(known ? s == EVFS_OK : s < 0, "unregister of a%s VFS = %s", known ? " registered" : "n unknown", ENAME(s));
      if(known) {
        did_unreg = true; unreg_count[i]++;
        for(size_t x = 0; x < reg.size(); x++) if(reg[x] == i) { reg.erase(reg.begin() + (long)x); break; }
        if(reg.empty()) def = -1;
        else if(def == i) {
          const char *dn = evfs_default_vfs_name(); int nd = -1; for(int x : reg) if(std::string(dn) == NM[x]) nd = x;
          REQUIRE(nd >= 0, "after unregistering the default, \"%s\" is the default", dn); def = nd;
        }
      }
      break;
    }
    default: {   // an operation, by name or on the default
      bool byname = c.chance(60); int t = byname ? i : def; const char *vn = byname ? NM[i] : nullptr;
      bool missing = byname && !has(i); if(missing) t = def;   // an unknown name means the default
      for(auto &p : pool) p->calls.clear();
      int op = (int)c.below(17); bool inject = t >= 0 && op < 9 && c.chance(20); if(missing) c.note("%s is not registered", NM[i]);
      const int ERRS[] = { EVFS_ERR_IO, EVFS_ERR_NO_FILE, EVFS_ERR_AUTH, EVFS_ERR_FS_FULL, EVFS_ERR_TOO_LONG, EVFS_ERR_NO_SUPPORT }; int ierr = ERRS[c.below(6)];
      if(inject) { pool[t]->fail_at = 1; pool[t]->op_no = 0; pool[t]->fail_ops = {"stat", "open", "delete", "rename", "mkdir", "opendir", "getcwd", "setcwd", "ctrl"}; pool[t]->fail_err = ierr; pool[t]->failed = false; } EvfsInfo info; EvfsFile *fh = nullptr; EvfsDir *dh = nullptr; char buf[64]; StringRange r = {buf, buf + sizeof buf}; unsigned u = 1;
      const char *path = c.pick({"f", "d/e", "/x", ""}); int s = 0; bool opt = true; const char *want = "";
      c.note("op %d on %s path \"%s\"", op, vn ? vn : "(default)", path);
      bool plain = !vn && c.chance(50);   // the short form without a name
      switch(op) {
        case 0: s = plain ? evfs_stat(path, &info) : evfs_stat_ex(path, &info, vn); want = "stat"; opt = false; break;
        case 1: s = t >= 0 && c.chance(40) ? evfs_vfs_open(evfs_find_vfs(NM[t]), path, &fh, EVFS_RDWR | EVFS_OPEN_OR_NEW) : plain ? evfs_open(path, &fh, EVFS_RDWR | EVFS_OPEN_OR_NEW) : evfs_open_ex(path, &fh, EVFS_RDWR | EVFS_OPEN_OR_NEW, vn); want = "open"; opt = false; break;
        case 2: s = plain ? evfs_delete(path) : evfs_delete_ex(path, vn); want = "delete"; break;
        case 3: s = plain ? evfs_rename(path, "new/name") : evfs_rename_ex(path, "new/name", vn); want = "rename"; break;
        case 4: s = plain ? evfs_make_dir(path) : evfs_make_dir_ex(path, vn); want = "mkdir"; break;
        case 5: s = t >= 0 && c.chance(40) ? evfs_vfs_open_dir(evfs_find_vfs(NM[t]), path, &dh) : plain ? evfs_open_dir(path, &dh) : evfs_open_dir_ex(path, &dh, vn); want = "opendir"; break;
        case 6: s = plain ? evfs_get_cur_dir(&r) : evfs_get_cur_dir_ex(&r, vn); want = "getcwd"; break;
        case 7: s = plain ? evfs_set_cur_dir(path) : evfs_set_cur_dir_ex(path, vn); want = "setcwd"; break;
        case 8: s = plain ? evfs_vfs_ctrl(EVFS_CMD_GET_STAT_FIELDS, &u) : evfs_vfs_ctrl_ex(EVFS_CMD_GET_STAT_FIELDS, &u, vn); want = "ctrl"; opt = false; break;
        case 9: { StringRange rt; bool a = plain ? evfs_path_root_component(path, &rt) : evfs_path_root_component_ex(path, &rt, vn); REQUIRE(a == (t >= 0 && path[0] == '/'), "root component of %s: %d", path, a); REQUIRE(rt.start == path && rt.end == path + a, "root component of %s has %d bytes", path, (int)(rt.end - rt.start)); break; }
        case 10: { bool d = c.chance(50), r = plain ? (d ? evfs_existing_dir(path) : evfs_existing_file(path)) : d ? evfs_existing_dir_ex(path, vn) : evfs_existing_file_ex(path, vn); bool e = false; if(t >= 0) { NodeP x = pool[t]->at(pool[t]->resolve(path)); e = x && x->dir == d; } REQUIRE(r == e, "\"%s\" exists = %d", path, r); break; }
        case 11: case 12: {   // made from the current directory of the same file system
          if(t >= 0) pool[t]->cwd = c.chance(50) ? std::vector<std::string>{NM[t], "q"} : std::vector<std::string>{};
          s = plain ? evfs_path_absolute(path, &r) : evfs_path_absolute_ex(path, &r, vn); if(t < 0) { REQUIRE(s < 0, "absolute path without any VFS"); break; }
          std::vector<std::string> cwd; std::swap(cwd, pool[t]->cwd);
          if(path[0] != '/' && bare[t]) { REQUIRE(s < 0, "absolute path without a current directory = %s", ENAME(s)); break; }
          std::string e = path[0] == '/' ? path : cwd.empty() ? std::string("/") + path : "/" + std::string(NM[t]) + "/q" + (*path ? "/" : "") + path;
          REQUIRE(s == EVFS_OK && std::string(r.start) == e, "absolute path of \"%s\" on %s is %s \"%s\", expected \"%s\"", path, NM[t], ENAME(s), s == EVFS_OK ? r.start : "", e.c_str()); break; }
        case 13: s = plain ? evfs_make_path(path) : evfs_make_path_ex(path, vn); if(t < 0) REQUIRE(s < 0, "make path without any VFS"); break;
        case 15: REQUIRE((plain ? evfs_path_is_absolute(path) : evfs_path_is_absolute_ex(path, vn)) == (t >= 0 && path[0] == '/'), "\"%s\" on %s is absolute or not", path, t >= 0 ? NM[t] : "nothing"); break;
        case 16: { int k = (int)c.below(4); StringRange h; std::string e; 
          if(k == 0) { s = evfs_path_normalize_ex("a/../b", &r, vn); e = "b"; } else if(k == 1) { s = evfs_path_join_str_ex("a", "b", &r, vn); e = "a/b"; } else if(k == 2) { StringRange x, y; range_init(&x, (char *)"ab", 2); range_init(&y, (char *)"cd", 2); s = evfs_path_join_ex(&x, &y, &r, vn); e = "ab/cd"; } else { s = evfs_path_dirname_ex("/p/q", &h, vn); e = "/p"; }
          if(t < 0) REQUIRE(s < 0, "path function %d without any VFS = %s", k, ENAME(s)); else REQUIRE(s == EVFS_OK && (k == 3 ? std::string(h.start, h.end) : std::string(r.start)) == e, "path function %d on %s gives %s", k, NM[t], ENAME(s)); break; }
        case 14: { MemFs other("src"); EvfsFile *f; other.put("/o", "xy", 2); if(evfs_vfs_open(&other.vfs, "/o", &f, EVFS_READ) != EVFS_OK) pbt::fail("source");
          s = plain ? evfs_copy_to_file("/copied", f, nullptr, 0) : evfs_copy_to_file_ex("/copied", f, nullptr, 0, vn); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); if(t < 0) { REQUIRE(s < 0, "copy without any VFS"); break; }
          REQUIRE((s == EVFS_OK) == (pool[t]->calls.size() > 0 && pool[t]->calls[0].op == "open") || s == EVFS_ERR_EXISTS, "copy = %s", ENAME(s)); for(int x = 0; x < 6; x++) if(x == t) REQUIRE(pool[x]->at("/copied") && pool[x]->at("/copied")->data.size() == 2, "the copy is not on %s", NM[x]); else REQUIRE(!pool[x]->at("/copied"), "the copy is also on %s", NM[x]);
          pool[t]->root->kids.erase("copied"); break; }
      }
      if(op >= 9) { for(int x = 0; x < 6; x++) if(x != t) REQUIRE(pool[x]->calls.empty(), "operation for %s reached %s", t >= 0 ? NM[t] : "nothing", NM[x]); REQUIRE(alloc_live() == 0, "leak"); break; }
      if(t < 0) { REQUIRE(s < 0, "operation without any VFS returned %s", ENAME(s)); break; }
      if(opt && bare[t]) {
        REQUIRE(s == EVFS_ERR_NO_SUPPORT, "optional operation a VFS does not implement returned %s", ENAME(s));
        for(auto &p : pool) REQUIRE(p->calls.empty(), "unsupported operation reached a VFS");
      } else {
        for(int x = 0; x < 6; x++) REQUIRE(x == t ? !pool[x]->calls.empty() && pool[x]->calls[0].op == want : pool[x]->calls.empty(), "operation for %s %s %s", NM[t], x == t ? "did not reach" : "reached", NM[x]);
        if(op < 8 && op != 6) REQUIRE(pool[t]->calls[0].path == path, "path %s arrived as %s", path, pool[t]->calls[0].path.c_str());
        if(op == 3) REQUIRE(pool[t]->calls[1].path == "new/name", "new path arrived as %s", pool[t]->calls[1].path.c_str());
        if(op == 1) REQUIRE(pool[t]->calls[0].flags == (EVFS_RDWR | EVFS_OPEN_OR_NEW), "flags changed");
      }
      if(inject) { if(pool[t]->failed) { REQUIRE(s == ierr, "error %s reported as %s", ENAME(ierr), ENAME(s)); REQUIRE(!fh && !dh, "a handle with an error"); } pool[t]->fail_at = -1; pool[t]->fail_ops.clear(); }
      if(op == 1) REQUIRE((fh != nullptr) == (s == EVFS_OK), "file handle %p with status %s", (void *)fh, ENAME(s));
      if(op == 5) REQUIRE((dh != nullptr) == (s == EVFS_OK), "directory handle %p with status %s", (void *)dh, ENAME(s));
      REQUIRE(alloc_live() == (fh || dh ? 1u : 0u), "%zu blocks allocated after an operation", alloc_live());
      if(fh) REQUIRE(evfs_file_close(fh) == EVFS_OK, "close");
      if(dh) REQUIRE(evfs_dir_close(dh) == EVFS_OK, "close dir");
      REQUIRE(alloc_live() == 0 && pool[t]->open_files == 0 && pool[t]->open_dirs == 0, "handle not released");
    } }
    for(int x = 0; x < 6; x++) {
      Evfs *f = evfs_find_vfs(NM[x]);
      REQUIRE(f == (has(x) ? &pool[x]->vfs : nullptr), "find(\"%s\") = %p", NM[x], (void *)f);
      if(f) REQUIRE(std::string(evfs_vfs_name(f)) == NM[x], "name of %s", NM[x]);
      REQUIRE(pool[x]->unregistered == unreg_count[x], "%s was told %d times that it is unregistered, expected %d", NM[x], pool[x]->unregistered, unreg_count[x]);
    }
    check_default("after the step");
  }
  evfs_unregister_all();
  for(int x : reg) REQUIRE(pool[x]->unregistered == unreg_count[x] + 1, "unregister_all skipped %s", NM[x]);
  for(int x = 0; x < 6; x++) REQUIRE(!evfs_find_vfs(NM[x]), "%s is still registered", NM[x]);
  c.nontrivial(changed_default && did_unreg);
}

// ------------------------------------------------------------ R06 copy
static void copy(Case &c) {
  Lib lib; MemFs src("src"), dst("dst"); src.reg(true); dst.reg(false);
  size_t len = c.chance(50) ? c.size(40) : c.chance(2) ? 60000 + c.below(c.chance(50) ? 10000 : 90000) : c.size(c.chance(20) ? 5000 : 700);
  std::vector<uint8_t> data = c.blob(len); src.put("/f", data);
  bool same = c.chance(30); MemFs &D = same ? src : dst; const char *dn = same ? "src" : "dst";
  D.mk("/dir", true);
  bool exists = c.chance(10), nodir = !exists && c.chance(5);
  std::vector<uint8_t> old = {1, 2, 3}; if(exists) D.put("/dir/g", old);
  const char *dpath = nodir ? "/nodir/g" : "/dir/g";
  bool own = c.chance(60); size_t bs = c.chance(70) ? c.size(200) : c.chance(len > 9999 ? 70 : 5) ? c.pick({32768u, 65535u, 65536u, 65537u, 131072u}) : c.size(3000); if(len > 9999 && bs < 500) bs += 500;
  if(own && bs == 0) bs = 1;
  EvfsFile *fh; REQUIRE(evfs_open_ex("/f", &fh, EVFS_READ, "src") == EVFS_OK, "cannot open source"); bool moved = false;
  if(c.chance(15)) { long at = (long)c.below(len + 1); REQUIRE(evfs_file_seek(fh, (evfs_off_t)at, EVFS_SEEK_TO) == EVFS_OK, "seek"); moved = at > 0; }
  src.partial = c.chance(30); src.partial_writes = false; src.partial_rng = 7 + c.below(1000);
  int fault = (int)c.below(100);
  bool alloc_fault = false;
  if(fault < 12) { D.fail_at = 1 + (long)c.below(12); D.fail_ops = {"write"}; D.fail_err = any_error(c); }
  else if(fault < 20) { src.fail_ops = {"read"}; src.fail_at = 1 + (long)c.below(12); src.fail_err = any_error(c); }
  else if(fault < 26) { D.fail_ops = {"close"}; D.fail_at = 1; D.fail_err = any_error(c); }
  else if(fault < 32) { D.capacity = D.used() + (long)c.below(len + 2); }
  else if(fault < 38) { alloc_fail_at(1 + (long)c.below(3)); alloc_fault = true; }
  if(!alloc_fault) alloc_fail_at(0);
  std::string before = src.dump() + dst.dump();
  c.note("copy %zu bytes %s -> %s:%s, %s buffer %zu, exists=%d partial=%d fault=%d", len, "src", dn, dpath, own ? "own" : "no", bs, exists, src.partial, fault);
  Exact buf(own ? bs : 1);
  int s = evfs_copy_to_file_ex(dpath, fh, own ? buf.p : nullptr, bs, dn);
  long allocs = alloc_count(); bool afail = alloc_failed(); alloc_fail_at(0);
  NodeP g = D.at(dpath);
  bool faulted = src.failed || D.failed || afail;
  bool clean = !moved && !faulted && !exists && !nodir && D.capacity < 0;
  if(exists) { REQUIRE(s == EVFS_ERR_EXISTS || afail, "copy onto an existing file = %s", ENAME(s)); REQUIRE(g->data == old, "the existing destination was modified"); }
  if(nodir) REQUIRE(s != EVFS_OK, "copy into a missing directory succeeded");
  if(faulted) REQUIRE(s < 0, "copy reported %s although %s failed", ENAME(s), afail ? "an allocation" : D.failed ? "the destination" : "the source");
  if(D.failed && !moved) REQUIRE(s == D.fail_err, "destination error %s reported as %s", ENAME(D.fail_err), ENAME(s));
  if(!same && src.failed) REQUIRE(s == src.fail_err, "source error %s reported as %s", ENAME(src.fail_err), ENAME(s));
  if(D.capacity >= 0 && D.capacity < (long)len && !exists && !nodir) REQUIRE(s < 0, "copy to a full file system = %s", ENAME(s));
  if(clean) REQUIRE(s == EVFS_OK, "copy = %s", ENAME(s));
  if(s == EVFS_OK) { REQUIRE(g && g->data == data, "copy is not identical: %zu bytes of %zu", g ? g->data.size() : 0, len); if(own) REQUIRE(allocs <= 1, "a transfer buffer was allocated although one was given"); }
  REQUIRE(src.at("/f")->data == data, "copying changed the source");
  src.partial = false; src.fail_at = -1;
  evfs_file_close(fh);
  REQUIRE(alloc_live() == 0 && src.open_files == 0 && dst.open_files == 0, "copy leaked a handle or buffer");
  (void)before;
  if(faulted) c.label("fault");
  c.nontrivial(len > (own ? bs : std::max<size_t>(bs, 64)) || faulted);
}
// the convenience form works on the default VFS with the same arguments
static void copy_default(Case &c) {
  Lib lib; MemFs src("src"), dst("dst"); src.reg(false); dst.reg(true);
  std::vector<uint8_t> data = c.blob(c.size(900)); src.put("/f", data);
  EvfsFile *fh; REQUIRE(evfs_open_ex("/f", &fh, EVFS_READ, "src") == EVFS_OK, "open");
  bool own = c.chance(70); size_t bs = 1 + c.size(300); Exact buf(own ? bs : 1);
  c.note("default copy of %zu bytes, %s buffer %zu", data.size(), own ? "own" : "no", bs);
  if(own) alloc_fail_at(2); // only the destination handle may be allocated
  int s = evfs_copy_to_file("/g", fh, own ? buf.p : nullptr, bs);
  bool af = alloc_failed(); alloc_fail_at(0);
  REQUIRE(!af, "a transfer buffer was allocated although one was given");
  REQUIRE(s == EVFS_OK && dst.at("/g") && dst.at("/g")->data == data, "copy = %s", ENAME(s));
  evfs_file_close(fh); REQUIRE(alloc_live() == 0, "leak");
  c.nontrivial(data.size() > bs);
}

// ------------------------------------------------------------ R07 glob and directory search
static bool ref_glob(const char *p, const char *s) {   // the documented syntax, by exhaustive recursion
  if(!*p) return !*s;
  if(*p == '*') { for(const char *q = s;; q++) { if(ref_glob(p+1, q)) return true; if(!*q) return false; } }
  if(!*s) return false;
  if(*p == '?') return ref_glob(p+1, s+1);
  if(*p == '[') {
    const char *e = p + 1; bool inv = false; if(*e == '!') { inv = true; e++; }
    bool in = false;
    while(*e != ']') { unsigned char a = (unsigned char)*e, b = a; if(e[1] == '-') { b = (unsigned char)e[2]; e += 2; } e++; if((unsigned char)*s >= a && (unsigned char)*s <= b) in = true; }
    return in != inv && ref_glob(e+1, s+1);
  }
  return *p == *s && ref_glob(p+1, s+1);
}
static std::string gen_set_member(Case &c) {
  static const std::string A = std::string("abcxyz09_.") + "\x80\xfe\xff" + " ,\x01\x1f\x7f@";
  char x = A[c.below(A.size())];
  if(c.chance(40)) { char y = A[c.below(A.size())]; if(c.chance(12)) x = '-'; return std::string(1, x) + "-" + y; }
  return std::string(1, x);
}
static std::string gen_pattern(Case &c, size_t max, bool *special) {
  std::string p; size_t n = c.size(max);
  for(size_t i = 0; i < n; i++) switch(c.weighted({45, 18, 15, 22})) {
    case 0: p += "abcxyz09_."[c.below(10)]; break;
    case 1: p += '*'; *special = true; break;
    case 2: p += '?'; *special = true; break;
    default: { p += '['; if(c.chance(30)) p += '!'; if(c.chance(5)) p += '-'; size_t m = 1 + c.below(3); for(size_t k = 0; k < m; k++) p += gen_set_member(c); p += ']'; *special = true; }
  }
  return p;
}
// a string the pattern is likely to match
static std::string gen_match(Case &c, const std::string &p) {
  static const std::string A = std::string("abcxyz09_.") + "\x80\xfe\xff\x01\x1f\x7f @";
  std::string s;
  for(size_t i = 0; i < p.size(); i++) {
    if(p[i] == '*') { size_t k = c.below(4); for(size_t j = 0; j < k; j++) s += A[c.below(A.size())]; }
    else if(p[i] == '?') s += A[c.below(A.size())];
    else if(p[i] == '[') { size_t e = p.find(']', i); std::string set = p.substr(i+1, e-i-1); bool inv = set[0] == '!'; if(inv) s += A[c.below(A.size())]; else s += set[c.below(set.size())]; i = e; }
    else s += p[i];
  }
  if(c.chance(25) && !s.empty()) { size_t i = c.below(s.size()); switch(c.below(3)) { case 0: s.erase(i, 1); break; case 1: s[i] = A[c.below(A.size())]; break; default: s.insert(i, 1, A[c.below(A.size())]); } }
  return s;
}
static void globs(Case &c) {
  bool sp = false; std::string p = gen_pattern(c, 10, &sp); std::string s = c.chance(80) ? gen_match(c, p) : c.chars("abcxyz09_.", 0, 10);
  if(c.chance(3) && !s.empty()) s.insert(c.below(s.size()), "/");
  bool sep = s.find('/') != std::string::npos;
  Exact pe(p), se(s);
  c.note("glob %s on %s", quote(p).c_str(), quote(s).c_str());
  bool got = glob_match(pe.p, se.p, EVFS_PATH_SEPS);
  if(!sep) REQUIRE(got == ref_glob(p.c_str(), s.c_str()), "glob_match(%s, %s) = %d", quote(p).c_str(), quote(s).c_str(), got);
  else if(!ref_glob(p.c_str(), s.c_str())) REQUIRE(!got, "glob_match(%s, %s) matches", quote(p).c_str(), quote(s).c_str());
  REQUIRE(is_glob(pe.p) == (p.find_first_of("*?[") != std::string::npos), "is_glob(%s)", quote(p).c_str());
  if(got) c.label("match");
  c.nontrivial(sp && !s.empty());
}
static void glob_raw(Case &c) {   // arbitrary bytes, well formed or not: never outside the strings, always terminates
  std::string p = c.chars("[]!-*?ab\xff\x01z", 0, 14), s = c.chars("ab]!-[\xff\x01z/", 0, 10);
  Exact pe(p), se(s); c.note("raw glob %s on %s", quote(p).c_str(), quote(s).c_str());
  bool got = glob_match(pe.p, se.p, "/"); (void)got;
  // without an open bracket the syntax has no ill-formed patterns
  if(p.find('[') == std::string::npos && s.find('/') == std::string::npos) REQUIRE(got == ref_glob(p.c_str(), s.c_str()), "glob_match(%s, %s) = %d", quote(p).c_str(), quote(s).c_str(), got);
  c.nontrivial(p.find('[') != std::string::npos);
}
static void dir_find(Case &c) {
  Lib lib; MemFs fs("m"); fs.reg(true); fs.dots = c.chance(30);
  size_t n = c.size(12); fs.mk("/d", true);
  bool sp = false; std::string p = gen_pattern(c, 6, &sp);
  for(size_t i = 0; i < n; i++) { std::string nm = c.chance(50) ? gen_match(c, p) : c.chars("abcxyz09_.", 1, 6); if(nm.empty() || nm == "." || nm == ".." || nm.find('/') != std::string::npos) nm = "k" + std::to_string(i); if(fs.at(std::vector<std::string>{"d", nm})) continue; fs.at("/d")->kids[nm] = std::make_shared<MemNode>(); fs.at("/d")->kids[nm]->dir = c.chance(30); }
  std::vector<std::string> all, want; if(fs.dots) { all = {".", ".."}; }
  for(auto &k : fs.at("/d")->kids) all.push_back(k.first);
  for(auto &x : all) if(ref_glob(p.c_str(), x.c_str())) want.push_back(x);
  c.note("find %s among %zu names, %zu match", quote(p).c_str(), all.size(), want.size());
  EvfsDir *dh; REQUIRE(evfs_open_dir("/d", &dh) == EVFS_OK, "open_dir");
  for(int pass = 0; pass < 2; pass++) {
    std::vector<std::string> got; EvfsInfo info; int s;
    if(pass == 0 && c.chance(20)) { fs.fail_ops = {"readdir"}; fs.fail_at = 1 + (long)c.below(6); fs.fail_err = any_error(c); }
    while((s = evfs_dir_find(dh, p.c_str(), &info)) == EVFS_OK) {
      got.push_back(info.name); REQUIRE(got.size() <= all.size(), "find never ends");
      NodeP nn = fs.at(std::vector<std::string>{"d", got.back()});
      if(nn && got.back() != "." && got.back() != "..") REQUIRE(info.type == (nn->dir ? EVFS_FILE_DIR : 0), "type of %s", got.back().c_str());
    }
    if(fs.failed) { REQUIRE(s == fs.fail_err, "a directory read error ended the search as %s", ENAME(s)); REQUIRE(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "wrong names before the error"); fs.failed = false; fs.fail_at = -1; }
    else { REQUIRE(s == EVFS_DONE, "search ended with %s", ENAME(s)); REQUIRE(got == want, "find(%s) reported %zu names, expected %zu", quote(p).c_str(), got.size(), want.size()); }
    REQUIRE(evfs_dir_rewind(dh) == EVFS_OK, "rewind");
  }
  evfs_dir_close(dh); REQUIRE(alloc_live() == 0 && fs.open_dirs == 0, "leak");
  c.nontrivial(sp && !want.empty() && want.size() < all.size());
}

// ------------------------------------------------------------ E33 allocation failure in the library's own operations
static void oom(Case &c) {
  Lib lib; MemFs fs("m"), other("o"); fs.reg(true); other.reg(false); fs.mk("/d", true); fs.mk("/d/e", true); size_t files = c.below(4);
  for(size_t i = 0; i < files; i++) { auto b = c.blob(c.size(400)); fs.put(("/d/f" + std::to_string(i)).c_str(), b); }
  Oom o; o.on = true; o.permille = 700; o.snapshot = [&] { return fs.dump() + other.dump(); }; int good = 0;
  for(size_t n = 1 + c.below(6); n; n--) {
    std::string p = c.pick({"/d/f0", "/d/f1", "/d/e/g", "/x", "/d/e", "/no/f", "/d/f3"}), q = c.pick({"/c", "/d/f1", "/d/c2", "/no/c", "/d/e/h"}); const char *V = c.chance(50) ? "m" : "o"; if(V[0] == 'o') q = c.pick({"/c", "/c1", "/c2"});
    switch(c.below(7)) {
    case 0: case 1: { EvfsFile *f = nullptr; int s = (int)o.call(c, "open", [&] { int r = evfs_open_ex(p.c_str(), &f, EVFS_READ, "m"); REQUIRE((r == EVFS_OK) == (f != nullptr), "open = %s with handle %p", ENAME(r), (void *)f); return r; }); if(s != EVFS_OK) break; bool own = c.chance(30); size_t bs = 1 + c.size(200); Exact b(own ? bs : 1); bool was = (V[0] == 'o' ? other : fs).at(q.c_str()) != nullptr; c.note("copy %s to %s on %s, %s buffer of %zu", p.c_str(), q.c_str(), V, own ? "own" : "no", bs); NodeP src = fs.at(p.c_str());
      int r = (int)o.call(c, "copy", [&] { int x = evfs_copy_to_file_ex(q.c_str(), f, own ? b.p : nullptr, bs, V); REQUIRE(x != EVFS_ERR_ALLOC || evfs_file_tell(f) == 0, "a failed copy moves the source to %ld", (long)evfs_file_tell(f)); return x; });
      if(was) REQUIRE(r < 0, "copy onto an existing file = %s", ENAME(r)); if(r == EVFS_OK) { good++; NodeP g = (V[0] == 'o' ? other : fs).at(q.c_str()); REQUIRE(g && g->data == src->data, "the copy differs"); } evfs_file_close(f); break; }
    case 2: { EvfsFile *f = nullptr; int s = (int)o.call(c, "open", [&] { return evfs_open_ex(p.c_str(), &f, EVFS_WRITE | EVFS_OPEN_OR_NEW, "m"); }); if(s != EVFS_OK) break; evfs_file_seek(f, 0, EVFS_SEEK_REV); std::string t = c.chars("abc%d", 0, 200); NodeP g = fs.at(p.c_str()); auto want = g->data; want.insert(want.end(), t.begin(), t.end()); char num[16]; int k = c.below(1000); want.insert(want.end(), num, num + snprintf(num, sizeof num, "%d", k)); c.note("print %zu characters to %s", t.size(), p.c_str());
      int w = (int)o.call(c, "printf", [&] { return evfs_file_printf(f, "%s%d", t.c_str(), k); }); REQUIRE(w == (int)(t.size() + strlen(num)) && g->data == want, "printf = %d", w); good++; evfs_file_close(f); break; }
    case 3: { EvfsDir *d = nullptr; std::string g = c.pick({"*", "f*", "?", "f[01]"}); c.note("find %s in %s", g.c_str(), p.c_str()); int s = (int)o.call(c, "open_dir", [&] { int r = evfs_open_dir_ex(p.c_str(), &d, "m"); REQUIRE((r == EVFS_OK) == (d != nullptr), "open_dir = %s with handle %p", ENAME(r), (void *)d); return r; }); if(s != EVFS_OK) break; EvfsInfo i; size_t cnt = 0; while((s = (int)o.call(c, "find", [&] { return evfs_dir_find(d, g.c_str(), &i); })) == EVFS_OK) cnt++; REQUIRE(s == EVFS_DONE, "find = %s", ENAME(s)); evfs_dir_close(d); good++; break; }
    case 4: { std::string t = p + c.pick({"", "/i", "/i/j", "/"}); StringRange r; range_init(&r, (char *)t.c_str(), t.size()); c.note("make path %s", t.c_str()); if(o.call(c, "make_path", [&] { return evfs_make_path_range_ex(&r, "m"); }) == EVFS_OK) good++; break; }
    case 5: { c.note("delete %s", p.c_str()); if(o.call(c, "delete", [&] { return evfs_delete_ex(p.c_str(), "m"); }) == EVFS_OK) good++; break; }
    default: { c.note("rename %s to %s", p.c_str(), q.c_str()); if(o.call(c, "rename", [&] { return evfs_rename_ex(p.c_str(), q.c_str(), "m"); }) == EVFS_OK) good++; break; }
    }
    REQUIRE(alloc_live() == 0 && fs.open_files == 0 && other.open_files == 0 && fs.open_dirs == 0, "a handle or block is left");
  }
  c.nontrivial(o.errors > 0 && good > 0);
}

// ------------------------------------------------------------ R08 formatted output
static void printing(Case &c) {
  Lib lib; MemFs fs("m"); fs.reg(true);
  EvfsFile *fh; bool app = c.chance(30); std::string expect;
  if(app) { expect = "head"; fs.put("/f", expect.data(), 4); }
  REQUIRE(evfs_open("/f", &fh, EVFS_WRITE | EVFS_OPEN_OR_NEW | (app ? EVFS_APPEND : 0)) == EVFS_OK, "open");
  size_t n = 1 + c.below(6); bool big = false;
  for(size_t i = 0; i < n; i++) {
    static char out[80000]; int w = 0, s = 0; size_t l;
    std::string str = c.chars("abc %\n\xff" "dn", 0, c.chance(15) ? (c.chance(1) ? 70000 : 3000) : 30); int a = (int)c.range(INT32_MIN, INT32_MAX); unsigned long long u = (unsigned long long)c.range(INT64_MIN, INT64_MAX); int wd = c.chance(3) ? (int)c.range(-5000, 5000) : (int)c.range(-40, 40), pr = (int)c.below(20);
    long fail = 0; bool faulted = false;
    if(c.chance(8)) { if(c.chance(50)) { fail = 1; alloc_fail_at(1); } else { fs.fail_ops = {"write"}; fs.fail_at = fs.op_no + 1; fs.fail_err = any_error(c); } }
    else alloc_fail_at(0);
    int kind = (int)c.below(7);
    switch(kind) {
      case 0: w = snprintf(out, sizeof out, "%s", str.c_str()); s = evfs_file_printf(fh, "%s", str.c_str()); break;
      case 1: w = snprintf(out, sizeof out, "%d:%llx|%*d", a, u, wd, a); s = evfs_file_printf(fh, "%d:%llx|%*d", a, u, wd, a); break;
      case 2: w = snprintf(out, sizeof out, "%.*f %s%%", pr, (double)a / 7, str.c_str()); s = evfs_file_printf(fh, "%.*f %s%%", pr, (double)a / 7, str.c_str()); break;
      case 3: w = snprintf(out, sizeof out, "%-*.*s|%c", wd, pr, str.c_str(), 'a' + (a & 15)); s = evfs_file_printf(fh, "%-*.*s|%c", wd, pr, str.c_str(), 'a' + (a & 15)); break;
      case 4: w = (int)str.size(); memcpy(out, str.data(), str.size()); s = evfs_file_puts(fh, str.c_str()); break;
      case 5: w = 0; s = evfs_file_printf(fh, "%s", ""); break;
      case 6: { int z = c.chance(60) ? 0 : a & 255; w = snprintf(out, sizeof out, "<%c%*c%s", z, (int)(wd & 31), 0, str.c_str()); s = evfs_file_printf(fh, "<%c%*c%s", z, (int)(wd & 31), 0, str.c_str()); break; }
    }
    if(fs.failed) { faulted = true; REQUIRE(s == fs.fail_err, "write error reported as %s", ENAME(s)); fs.failed = false; }
    if(alloc_failed()) { faulted = true; REQUIRE(s == EVFS_ERR_ALLOC, "allocation failure reported as %s", ENAME(s)); }
    fs.fail_at = -1; alloc_fail_at(0); (void)fail;
    c.note("kind %d -> %d bytes%s", kind, w, faulted ? " (fault)" : "");
    if(!faulted) { REQUIRE(s == w, "printing %d bytes returned %d", w, s); expect.append(out, (size_t)w); }
    l = fs.at("/f")->data.size();
    REQUIRE(std::string(fs.at("/f")->data.begin(), fs.at("/f")->data.end()) == expect, "file holds %zu bytes, expected %zu, or differs", l, expect.size());
    if(w > 300) big = true;
  }
  if(big) c.label("long");
  evfs_file_close(fh); REQUIRE(alloc_live() == 0, "leak");
  c.nontrivial(n >= 2 && !expect.empty());
}

const Prop pbt::props[] = {
  { "E33.core", oom, 150000, 2000000, 5, 30, "" },
  { "R05", registry, 1200000, 12000000, 5, 30, "" },
  { "R06.copy", copy, 1500000, 15000000, 5, 30, "" },
  { "R06.default", copy_default, 100000, 1000000, 5, 30, "" },
  { "R07.glob", globs, 6000000, 20000000, 5, 30, "" },
  { "R07.raw", glob_raw, 3000000, 10000000, 5, 30, "" },
  { "R07.find", dir_find, 800000, 3000000, 5, 30, "" },
  { "R08", printing, 1800000, 6000000, 5, 30, "" },
  { nullptr, nullptr, 0, 0, 0, 0, nullptr }
};
