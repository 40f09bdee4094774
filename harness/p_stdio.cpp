// The stdio driver against an in-memory model, on a scratch directory.
#include "fsdiff.h"
#include "pathlimits.h"
#include "truth.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/prctl.h>
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
}
using namespace pbt;
static std::string S;   // scratch directory, the only place touched
static void wipe(const std::string &d);
void pbt::harness_setup() {
  const char *t = getenv("PBT_SHM"), *role = getenv("PBT_ROLE"); if(!t) t = getenv("PBT_TMP"); if(!t) { fprintf(stderr, "no scratch directory\n"); _exit(3); }
  S = std::string(t) + (role ? std::string("/replay") : "/w" + std::to_string(getpid())); mkdir(S.c_str(), 0700);
  struct stat st; if(stat(S.c_str(), &st) || !S_ISDIR(st.st_mode)) _exit(3);
  // The driver under test works on real paths: give up every privilege that would let a faulty one reach beyond the scratch directory.
  if(getuid() == 0) {
    const int nobody = 65534;
    if(chmod(t, 0711) || chown(S.c_str(), nobody, nobody) || chdir(S.c_str()) || setgroups(0, nullptr) || setgid(nobody) || setuid(nobody) || getuid() == 0 || access(S.c_str(), W_OK|X_OK)) { fprintf(stderr, "cannot give up privileges\n"); _exit(3); }
    prctl(PR_SET_DUMPABLE, 1);   // sanitizer reports read /proc/self
  }
  signal(SIGXFSZ, SIG_IGN); evfs_init();
}
static void wipe(const std::string &d) {   // empties a directory below the scratch directory
  DIR *p = opendir(d.c_str()); if(!p) return; std::vector<std::pair<std::string, bool>> v;
  while(dirent *e = readdir(p)) { std::string n = e->d_name; if(n == "." || n == "..") continue; struct stat s; std::string f = d + "/" + n; if(lstat(f.c_str(), &s)) continue; v.push_back({f, S_ISDIR(s.st_mode)}); }
  closedir(p); for(auto &x : v) { if(x.second) { wipe(x.first); rmdir(x.first.c_str()); } else unlink(x.first.c_str()); }
}
static std::string slurp(const std::string &f) { FILE *p = fopen(f.c_str(), "rb"); std::string s; if(!p) return s; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static void spit(const std::string &f, const std::string &s) { FILE *p = fopen(f.c_str(), "wb"); if(p) { fwrite(s.data(), 1, s.size(), p); fclose(p); } }
static std::string tree(const std::string &d, const std::string &rel = "") {
  DIR *p = opendir(d.c_str()); if(!p) return "?"; std::vector<std::string> v; while(dirent *e = readdir(p)) { std::string n = e->d_name; if(n != "." && n != "..") v.push_back(n); } closedir(p);
  std::sort(v.begin(), v.end()); std::string o;
  for(auto &n : v) { struct stat s; std::string f = d + "/" + n; if(lstat(f.c_str(), &s)) continue; if(S_ISDIR(s.st_mode)) o += rel + "/" + n + "/\n" + tree(f, rel + "/" + n); else { std::string c = slurp(f); o += rel + "/" + n + " " + std::to_string(c.size()) + ":" + quote(c) + "\n"; } }
  return o;
}
static std::string tree(const NodeP &n, const std::string &rel = "") {
  std::string o; for(auto &k : n->kids) if(k.second->dir) o += rel + "/" + k.first + "/\n" + tree(k.second, rel + "/" + k.first); else o += rel + "/" + k.first + " " + std::to_string(k.second->data.size()) + ":" + quote(std::string((const char *)k.second->data.data(), k.second->data.size())) + "\n";
  return o;
}
static const std::vector<int> FLAGS = { EVFS_READ, EVFS_READ, EVFS_RDWR, EVFS_RDWR, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_READ|EVFS_OPEN_OR_NEW, EVFS_WRITE|EVFS_NO_EXIST, EVFS_RDWR|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OVERWRITE, EVFS_WRITE|EVFS_OVERWRITE, EVFS_WRITE,
  EVFS_WRITE|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_APPEND, EVFS_WRITE|EVFS_APPEND, EVFS_RDWR|EVFS_APPEND|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_APPEND|EVFS_NO_EXIST, EVFS_WRITE|EVFS_APPEND|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OVERWRITE|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OPEN_OR_NEW|EVFS_NO_EXIST };
static void set_cfg(int cmd, unsigned v) { REQUIRE(evfs_vfs_ctrl_ex(cmd, &v, "stdio") == EVFS_OK, "vfs_ctrl"); }
static void fresh() { evfs_register_stdio(true); set_cfg(EVFS_CMD_SET_READONLY, 0); set_cfg(EVFS_CMD_SET_NO_DIR_DOTS, 0); if(chdir(S.c_str())) pbt::fail("chdir"); wipe(S); }
static std::string any_path(Case &c) {
  std::string s = c.chance(60) ? "/" : ""; size_t n = s.empty() ? 1 + c.below(3) : c.weighted({5, 50, 35, 10});
  for(size_t i = 0; i < n; i++) { if(!s.empty() && s.back() != '/') s += "/"; if(c.chance(7)) s += "./"; s += c.pick(FsDiff::names()); } return s;
}
static void fill(Case &c, MemFs &m) {
  int t = 0; for(auto &x : FsDiff::names()) { t++; if(c.chance(40)) continue; if(t % 2) { std::string d = c.chars("abc\n", 0, 60); spit(S + "/" + x, d); m.put("/" + x, d.data(), d.size()); }
    else { mkdir((S + "/" + x).c_str(), 0777); m.mk("/" + x, true); for(auto &y : FsDiff::names()) if(c.chance(40)) { spit(S + "/" + x + "/" + y, "below"); m.put("/" + x + "/" + y, "below", 5); } } }
}
static void config(FsDiff &d, Case &c, MemFs &m) {
  d.prefix_a = S; d.exact = false; d.mtime = false; d.type_only = true; d.dir_atomic = true; d.fctrl = false; d.sync_first = true; d.min_io = 1; d.max_io = c.chance(10) ? 9000 : 200;
  d.path = [&]() { return any_path(c); }; d.flags = [&]() { return c.pick(FLAGS); };
  d.open_ok = [&](const std::string &p) { NodeP n = m.at(m.resolve(p.c_str())); return !n || !n->opens; };
  d.opened_hook = [](FsDiff::Slot &s) { if((s.flags & EVFS_APPEND) && s.a) { REQUIRE(evfs_file_seek(s.a, 0, EVFS_SEEK_TO) == EVFS_OK, "seek"); evfs_file_seek(s.b, 0, EVFS_SEEK_TO); } };
  d.fop_ok = [](FsDiff::Slot &s, int op) { return op == 0 ? (s.flags & EVFS_READ) != 0 : op == 6 ? (s.flags & (EVFS_WRITE|EVFS_APPEND)) != 0 : true; };
  d.odd_seek = true; d.seek_ok = [](FsDiff::Slot &s, long off, EvfsSeekDir o) { long t = o == EVFS_SEEK_TO ? off : o == EVFS_SEEK_REL ? evfs_file_tell(s.b) + off : evfs_file_size(s.b) - off; return t >= 0; };
  d.skip = [&](const std::string &p) { // the current directory, or a directory above it
    auto r = m.resolve(p.c_str()); auto &w = m.cwd; return r.size() <= w.size() && std::equal(r.begin(), r.end(), w.begin()); };
  d.rename_ok = [&](const std::string &, const std::string &q) { return !m.at(m.resolve(q.c_str())); };
}
static void model(Case &c, bool oom) {
  Lib lib; fresh(); MemFs m("mem"); m.reg(false); m.write_creates = true; m.missing_parent_err = EVFS_ERR_NO_PATH; fill(c, m);
  bool nodots = c.chance(40); if(nodots) { set_cfg(EVFS_CMD_SET_NO_DIR_DOTS, 1); }
  FsDiff d(c, "stdio", "mem"); config(d, c, m); d.no_dots = nodots; d.oom.on = oom; size_t n = 6 + c.size(50);
  for(size_t i = 0; i < n; i++) { d.step(); if(c.chance(6)) { d.sync_all(); std::string x = tree(S), y = tree(m.root); REQUIRE(x == y, "directory\n%s\nmodel\n%s", x.c_str(), y.c_str()); } }
  d.finish(); std::string x = tree(S), y = tree(m.root); REQUIRE(x == y, "directory\n%s\nmodel\n%s", x.c_str(), y.c_str());
  c.nontrivial(d.ok_mut >= 3 && d.ok_reads >= 1 && (!oom || d.oom.errors));
  if(chdir(S.c_str())) {} evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
static void model_full(Case &c) { model(c, false); }
static void model_oom(Case &c) { model(c, true); }
// the file system refuses to take more data: nothing may be lost without an error
static void full(Case &c) {
  Lib lib; fresh(); std::string f = S + "/f"; size_t limit = c.chance(50) ? c.size(9000) : c.size(300); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = limit;
  struct Restore { rlimit r; ~Restore() { setrlimit(RLIMIT_FSIZE, &r); } } restore{old};
  EvfsFile *fh = nullptr; int fl = c.pick({EVFS_RDWR|EVFS_OVERWRITE, EVFS_WRITE|EVFS_OVERWRITE, EVFS_WRITE|EVFS_APPEND}); REQUIRE(evfs_open(f.c_str(), &fh, fl) == EVFS_OK, "open"); REQUIRE(!setrlimit(RLIMIT_FSIZE, &lim), "setrlimit");
  c.note("file size limited to %zu", limit); std::string want; bool reported = false; size_t n = 1 + c.size(12);
  for(size_t i = 0; i < n && !reported; i++) switch(c.weighted({75, 25})) {
    case 0: { size_t w = 1 + c.size(c.chance(30) ? 6000 : 200); auto b = c.blob(w); c.note("write %zu", w); ptrdiff_t r = evfs_file_write(fh, b.data(), w); REQUIRE(r <= (ptrdiff_t)w, "write of %zu = %td", w, r); if(r != (ptrdiff_t)w) { c.note("= %td", r); reported = true; } else want.append((char *)b.data(), w); break; }
    default: { c.note("sync"); int r = evfs_file_sync(fh); if(r != EVFS_OK) { c.note("= %s", ENAME(r)); reported = true; } else { std::string g = slurp(f); REQUIRE(g == want, "after a successful sync the file holds %zu bytes, %zu were written", g.size(), want.size()); } break; }
  }
  int r = evfs_file_close(fh); c.note("close = %s", ENAME(r)); if(r != EVFS_OK) reported = true;
  std::string g = slurp(f); if(!reported) REQUIRE(g == want, "everything succeeded but the file holds %zu of %zu bytes", g.size(), want.size()); else REQUIRE(want.size() > limit || true, "error without a reason");
  REQUIRE(!reported || want.size() + 6300 > limit, "error reported although %zu bytes fit in %zu", want.size(), limit);
  c.nontrivial(reported && want.size() > 0);
  setrlimit(RLIMIT_FSIZE, &old); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
// write protection: nothing below the directory changes, everything can still be read
static void readonly(Case &c) {
  Lib lib; fresh(); MemFs m("mem"); m.reg(false); m.write_creates = true; m.missing_parent_err = EVFS_ERR_NO_PATH; fill(c, m);
  FsDiff d(c, "stdio", "mem"); config(d, c, m); d.open_ok = [&](const std::string &p) { NodeP n = m.at(m.resolve(p.c_str())); return !n || !n->opens; };
  size_t pre = c.below(10); for(size_t i = 0; i < pre; i++) d.step();
  d.sync_all(); std::string before = tree(S); set_cfg(EVFS_CMD_SET_READONLY, 1); m.readonly = true; c.note("write protected"); d.flags = [&]() { return c.chance(50) ? c.pick(FLAGS) : (int)c.below(64); };
  // changes must fail; opening for reading and reading must work as before
  int tried = 0; size_t n = 4 + c.size(30);
  for(size_t i = 0; i < n; i++) {
    auto some = [&]() { std::string r = any_path(c); return r.empty() || r[0] != '/' ? S + "/" + r : S + r; }; std::string p = some(), q = some(); NodeP x = m.at(m.resolve(p.substr(S.size()).c_str()));
    switch(c.below(9)) {
    case 0: { int fl = d.flags(); EvfsFile *f = nullptr; c.note("open %s flags %#x", quote(p).c_str(), fl); int s = evfs_open(p.c_str(), &f, fl); tried++;
      if(fl & ~EVFS_READ) REQUIRE(s < 0, "open with flags %#x succeeded while write protected", fl); else if(fl == EVFS_READ) REQUIRE((s == EVFS_OK) == (x && !x->dir), "open for reading = %s", ENAME(s));
      if(s == EVFS_OK) evfs_file_close(f); break; }
    case 1: { c.note("delete %s", quote(p).c_str()); tried++; int s = evfs_delete(p.c_str()); REQUIRE(s < 0, "delete = %s", ENAME(s)); break; }
    case 2: { c.note("rename %s %s", quote(p).c_str(), quote(q).c_str()); tried++; int s = evfs_rename(p.c_str(), q.c_str()); REQUIRE(s < 0, "rename = %s", ENAME(s)); break; }
    case 3: { c.note("mkdir %s", quote(p).c_str()); tried++; int s = evfs_make_dir(p.c_str()); REQUIRE(s < 0, "make_dir = %s", ENAME(s)); break; }
    case 4: { c.note("make_path %s", quote(p).c_str()); int s = evfs_make_path(p.c_str()); REQUIRE(s < 0 || (x && x->dir), "make_path = %s", ENAME(s)); break; }
    case 5: { FsDiff::Slot &s = d.f[c.below(3)]; if(!s.a) break; uint8_t b[40] = {1}; c.note("write to an open file"); tried++; ptrdiff_t r = evfs_file_write(s.a, b, 40); REQUIRE(r < 0, "write = %td", r); break; }
    case 6: { FsDiff::Slot &s = d.f[c.below(3)]; if(!s.a) break; c.note("truncate an open file"); tried++; int r = evfs_file_truncate(s.a, 1); REQUIRE(r < 0, "truncate = %s", ENAME(r)); break; }
    case 7: { EvfsFile *f = nullptr; if(!x || x->dir || x->opens || evfs_open(p.c_str(), &f, EVFS_READ) != EVFS_OK) break; c.note("copy %s", quote(p).c_str()); tried++; int r = evfs_copy_to_file(q.c_str(), f, NULL, 0); REQUIRE(r < 0, "copy_to_file = %s", ENAME(r)); evfs_file_close(f); break; }
    default: { FsDiff::Slot &s = d.f[c.below(3)]; if(!s.a) break; c.note("puts"); tried++; int r = evfs_file_printf(s.a, "%d", 5); REQUIRE(r < 0, "printf = %d", r); break; }
    }
  }
  size_t k = c.below(10); for(size_t i = 0; i < k; i++) { d.flags = []() { return (int)EVFS_READ; }; d.step(); }
  for(auto &s : d.f) if(s.a) { evfs_file_close(s.a); evfs_file_close(s.b); s.a = nullptr; }
  d.finish(); std::string after = tree(S); REQUIRE(before == after, "write protected tree changed from\n%s\nto\n%s", before.c_str(), after.c_str());
  set_cfg(EVFS_CMD_SET_READONLY, 0); c.nontrivial(tried >= 3 && !before.empty());
  if(chdir(S.c_str())) {} evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
// ------------------------------------------------------------ descriptions of host files
static int quiet(const char *, void *) { return 0; }
static void described(Case &c) {
  Lib lib; fresh(); struct It { bool dir; size_t size; time_t t; bool special; }; std::map<std::string, It> m; std::vector<std::string> dirs = {""}; size_t n = 2 + c.size(10);
  static const char *NM[] = {"a", ".hidden", "..x", "...", "b.txt", "long name.data", "Dir", "sub dir", "x+y", "UPPER", "q"};
  for(size_t i = 0; i < n; i++) { std::string p = c.pick(dirs) + "/" + c.pick(NM); if(m.count(p) || p.size() > 80) continue; It x; x.dir = c.chance(35); x.special = !x.dir && c.chance(10); x.size = x.special ? 0 : c.chance(20) ? c.size(100000) : c.size(300); x.t = c.chance(70) ? (time_t)c.below(2000000000) : (time_t)c.below(1ull << 33);
    if(x.dir) { mkdir((S + p).c_str(), 0777); dirs.push_back(p); } else if(x.special) { if(mknod((S + p).c_str(), (c.chance(50) ? S_IFSOCK : S_IFIFO) | 0600, 0)) continue; } else spit(S + p, std::string(x.size, 'x')); m[p] = x; c.note("%s%s %zu %ld", p.c_str(), x.dir ? "/" : "", x.size, (long)x.t); }
  for(auto i = m.rbegin(); i != m.rend(); ++i) { struct timespec ts[2] = {{0, 0}, {i->second.t, 0}}; if(utimensat(AT_FDCWD, (S + i->first).c_str(), ts, 0)) discard(); }
  std::string v = "stdio", jail; static RotateConfig rc; rc.chunk_size = 64; rc.max_chunks = 3; size_t shims = c.below(3), seen = 0;
  auto mask = [&](int cmd) { unsigned f = 0xFFFFFFFF; int s = evfs_vfs_ctrl_ex(cmd, &f, v.c_str()); REQUIRE(s == EVFS_OK && !(f & ~15u), "%s of %s = %s, %x", evfs_cmd_name(cmd), v.c_str(), ENAME(s), f); return f; };
  unsigned ms = mask(EVFS_CMD_GET_STAT_FIELDS), md = mask(EVFS_CMD_GET_DIR_FIELDS);
  for(size_t k = 0; k <= shims; k++) {
    if(k) { std::string nm = "s" + std::to_string(k); int s; switch(c.below(3)) {
      case 0: if(jail.empty()) { jail = S; s = evfs_register_jail(nm.c_str(), v.c_str(), S.c_str(), false); break; } // fall through
      case 1: s = evfs_register_trace(nm.c_str(), v.c_str(), quiet, nullptr, false); break;
      default: s = evfs_register_rotate(nm.c_str(), v.c_str(), &rc, false); } REQUIRE(s == EVFS_OK, "registering a shim = %s", ENAME(s)); v = nm; REQUIRE(mask(EVFS_CMD_GET_STAT_FIELDS) == ms && mask(EVFS_CMD_GET_DIR_FIELDS) == md, "a shim announces other fields"); }
    std::string pre = jail.empty() ? S : ""; unsigned nodots = c.chance(40); REQUIRE(evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &nodots, v.c_str()) == EVFS_OK, "no dir dots");
    auto check = [&](const char *what, const std::string &p, const EvfsInfo &i, unsigned f, const It &x) { seen++;
      if(f & EVFS_INFO_NAME) REQUIRE(i.name && p.substr(p.rfind('/') + 1) == i.name, "%s of %s gives the name %s", what, p.c_str(), i.name ? i.name : "(null)"); else REQUIRE(!i.name, "%s of %s gives a name", what, p.c_str());
      if(f & EVFS_INFO_SIZE) { if(!x.dir) REQUIRE((size_t)i.size == x.size, "%s of %s gives the size %ld, it is %zu", what, p.c_str(), (long)i.size, x.size); } else REQUIRE(i.size == 0, "%s of %s gives a size", what, p.c_str());
      if(f & EVFS_INFO_MTIME) REQUIRE(i.mtime == x.t, "%s of %s gives the time %ld, it is %ld", what, p.c_str(), (long)i.mtime, (long)x.t); else REQUIRE(i.mtime == 0, "%s of %s gives a time", what, p.c_str());
      if(f & EVFS_INFO_TYPE) REQUIRE(i.type == (x.dir ? EVFS_FILE_DIR : 0), "%s of %s gives the type %d", what, p.c_str(), i.type); else REQUIRE(i.type == 0, "%s of %s gives a type", what, p.c_str()); };
    for(auto &x : m) { EvfsInfo i; memset(&i, 0xA5, sizeof i); int s = evfs_stat_ex((pre + x.first).c_str(), &i, v.c_str()); REQUIRE(s == EVFS_OK, "stat %s on %s = %s", x.first.c_str(), v.c_str(), ENAME(s)); check("stat", x.first, i, ms, x.second); }
    for(auto &d : dirs) { EvfsDir *dh; std::string q = pre + d; int s = evfs_open_dir_ex(q.empty() ? "/" : q.c_str(), &dh, v.c_str()); REQUIRE(s == EVFS_OK, "open_dir %s = %s", q.c_str(), ENAME(s)); std::set<std::string> got; int dots = 0; EvfsInfo i;
      for(;;) { memset(&i, 0xA5, sizeof i); s = evfs_dir_read(dh, &i); if(s != EVFS_OK) break; REQUIRE(i.name, "an entry without a name"); std::string e = i.name; if(e == "." || e == "..") { dots++; REQUIRE(i.type == EVFS_FILE_DIR, "the type of %s is %d", e.c_str(), i.type); continue; } REQUIRE(m.count(d + "/" + e) && got.insert(e).second, "unknown or repeated entry %s", e.c_str()); check("listing", d + "/" + e, i, md, m[d + "/" + e]); }
      REQUIRE(s == EVFS_DONE, "dir_read = %s", ENAME(s)); evfs_dir_close(dh); size_t want = 0; for(auto &x : m) if(x.first.substr(0, x.first.rfind('/')) == d) want++; REQUIRE(got.size() == want, "%s has %zu entries, listed are %zu", d.c_str(), want, got.size()); REQUIRE(dots == (nodots ? 0 : 2), "%d dot entries", dots); }
    int cmd = c.pick({0, 1, 2, (int)EVFS_CMD_USER_DEFINED, -1, (int)EVFS_CMD_SET_ROTATE_TRIM, (int)EVFS_CMD_GET_RSRC_ADDR}); unsigned arg[4] = {7, 7, 7, 7}; int s = evfs_vfs_ctrl_ex(cmd, arg, v.c_str()); REQUIRE(s == EVFS_ERR_NO_SUPPORT && arg[0] == 7 && arg[1] == 7, "unknown command %d = %s", cmd, ENAME(s));
    for(auto &x : m) if(!x.second.dir && !x.second.special && c.chance(30)) { EvfsFile *f; s = evfs_open_ex((pre + x.first).c_str(), &f, EVFS_READ, v.c_str()); REQUIRE(s == EVFS_OK, "open %s = %s", x.first.c_str(), ENAME(s)); s = evfs_file_ctrl(f, cmd, arg); evfs_file_close(f); REQUIRE(s == EVFS_ERR_NO_SUPPORT && arg[0] == 7 && arg[1] == 7, "unknown file command %d = %s", cmd, ENAME(s)); break; }
  }
  set_cfg(EVFS_CMD_SET_NO_DIR_DOTS, 0); c.nontrivial(m.size() >= 2 && seen >= 4);
}
// ------------------------------------------------------------ long paths and short buffers
static NodeP walk_host(const std::string &d) {
  auto n = std::make_shared<MemNode>(); n->dir = true; DIR *p = opendir(d.c_str()); if(!p) pbt::fail("opendir"); V v; while(dirent *e = readdir(p)) v.push_back(e->d_name); closedir(p);
  for(auto &x : v) { if(x == "." || x == "..") continue; struct stat s; std::string f = d + "/" + x; if(lstat(f.c_str(), &s)) continue; if(S_ISDIR(s.st_mode)) { n->kids[x] = walk_host(f); continue; } auto k = std::make_shared<MemNode>(); std::string t = slurp(f); k->data.assign(t.begin(), t.end()); n->kids[x] = k; }
  return n;
}
static void limits_host(Case &c) {
  Lib lib; fresh(); MemFs model("model"); fill(c, model); size_t chains = c.weighted({30, 45, 25});
  for(size_t i = 0; i < chains; i++) { std::string p; size_t depth = 1 + c.below(5); for(size_t d = 0; d < depth; d++) { p += "/" + std::string(20 + c.below(90), (char)('d' + c.below(8))); if(model.at(p)) break; model.mk(p, true); REQUIRE(mkdir((S + p).c_str(), 0777) == 0, "mkdir"); }
    if(c.chance(50) && !model.at(p + "/deep")) { p += "/deep"; model.put(p, "deep down", 9); spit(S + p, "deep down"); } }
  Limits L(c, model); L.top = "stdio"; L.rel_only = true; L.real_root = S; L.raw = [&]() { std::string o; MemFs::dump(walk_host(S), "", o); return o; };
  static RotateConfig rc; rc.chunk_size = 64; rc.max_chunks = 3; size_t shims = c.below(4);
  for(size_t i = 0; i < shims; i++) { std::string nm = "s" + std::to_string(i); int s = 0;
    switch(c.weighted({50, 25, 25})) {
    case 0: { V d = L.any(true); std::string p = Limits::join(d); if(p.size() > 120 || L.extra + p.size() + S.size() > 150) { d.clear(); p = "/"; } std::string q = L.rel_only ? S + (d.empty() ? "" : p) : p; s = evfs_register_jail(nm.c_str(), L.top.c_str(), q.c_str(), false); c.note("jail in %s", quote(p).c_str()); L.vr = L.full(d); L.extra += q.size() + 1; L.rel_only = false; L.real_root.clear(); break; }
    case 1: s = evfs_register_trace(nm.c_str(), L.top.c_str(), [](const char *, void *) { return 0; }, nullptr, false); c.note("trace"); break;
    default: if(L.rot) continue; s = evfs_register_rotate(nm.c_str(), L.top.c_str(), &rc, false); c.note("rotate"); L.rot = true; L.opens = false; L.extra += 16; break;
    }
    REQUIRE(s == EVFS_OK, "registering a shim = %s", ENAME(s)); L.top = nm; }
  L.check_cwd(); size_t n = 4 + c.size(16); for(size_t i = 0; i < n; i++) L.step(); L.check_cwd(); L.same("all");
  c.nontrivial(L.longs >= 2 && L.refused < L.done && L.done >= 3); evfs_unregister_all(); if(chdir(S.c_str())) pbt::fail("chdir"); wipe(S);
}

// Failures on host files name what is the case.
static void codes_host(Case &c) {
  Lib lib; fresh(); MemFs m("mem"); fill(c, m); Truth t(m); evfs_register_jail("jail", "stdio", S.c_str(), false); bool jail = c.chance(40), ro = false; const char *v = jail ? "jail" : "stdio"; std::string pre = jail ? "" : S;
  bool locked = getuid() != 0 && c.chance(40); std::string L = S + "/locked"; if(locked) { mkdir(L.c_str(), 0700); spit(L + "/inside", "x"); chmod(L.c_str(), 0); }
  std::vector<std::string> all; auto list = [&]() { all.clear(); std::vector<std::pair<std::string, NodeP>> st = {{"", m.root}}; while(!st.empty()) { auto x = st.back(); st.pop_back(); for(auto &k : x.second->kids) { all.push_back(x.first + "/" + k.first); if(k.second->dir) st.push_back({all.back(), k.second}); } } }; list();
  size_t n = 3 + c.size(14), failures = 0; Codes seen;
  auto gen = [&]() -> std::string { if(all.empty()) return "/missing"; std::string x = c.pick(all), d = t.dir(x) ? x : x.substr(0, x.rfind('/')); switch(c.weighted({40, 26, 13, 13, 8})) { case 0: return x; case 1: return d + "/" + c.pick({"missing", "M.X"}); case 2: return d + "/missing/below"; case 3: return x + "/below"; default: return d + "/" + std::string(256 + c.below(30), 'n'); } };
  try { for(size_t i = 0; i < n; i++) {
    std::string p = gen(), q; int s, strict = 0; bool change = false; Codes ok; std::string what; NodeP np = m.at(p); bool under = locked && c.chance(12); if(under) { p = "/locked/" + std::string(c.pick({"inside", "other"})); np = nullptr; }
    bool lng = p.size() > 256;
    auto real = [&](const std::string &x) { return pre + x; }; std::string rp = real(p);
    switch(c.weighted({14, 14, 14, 8, 14, 14, 10, 20, 6})) {
    case 0: { EvfsInfo e; what = "stat"; ok = t.describe(p); s = evfs_stat_ex(rp.c_str(), &e, v); if(!np) strict = -1; break; }
    case 1: { EvfsFile *f = nullptr; what = "open"; ok = t.open(p, EVFS_READ); s = evfs_open_ex(rp.c_str(), &f, EVFS_READ, v); if(s == EVFS_OK) REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); if(!np) strict = -1; break; }
    case 2: { EvfsFile *f = nullptr; int fl = c.pick({EVFS_RDWR | EVFS_NO_EXIST, EVFS_WRITE | EVFS_NO_EXIST}); what = "exclusive open"; change = true; ok = t.open(p, fl); s = evfs_open_ex(rp.c_str(), &f, fl, v); if(s == EVFS_OK) { REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); if(ok.empty()) m.mk(p, false); } if(np && !np->dir) strict = EVFS_ERR_EXISTS; break; }
    case 3: { EvfsFile *f = nullptr; what = "open for writing"; change = true; ok = t.open(p, EVFS_RDWR); s = evfs_open_ex(rp.c_str(), &f, EVFS_RDWR, v); if(s == EVFS_OK) REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); if(!np) strict = -1; break; }
    case 4: what = "delete"; change = true; ok = t.remove(p); s = evfs_delete_ex(rp.c_str(), v); if(s == EVFS_OK && np && ok.empty()) m.at(p.substr(0, p.rfind('/')))->kids.erase(p.substr(p.rfind('/') + 1)); break;
    case 5: what = "make_dir"; change = true; ok = t.make_dir(p); s = evfs_make_dir_ex(rp.c_str(), v); if(s == EVFS_OK && ok.empty()) m.mk(p, true); if(np) strict = EVFS_ERR_EXISTS; break;
    case 6: { EvfsDir *d = nullptr; what = "open_dir"; ok = t.enter(p); s = evfs_open_dir_ex(rp.c_str(), &d, v); if(s == EVFS_OK) REQUIRE(evfs_dir_close(d) == EVFS_OK, "dir_close"); break; }
    case 7: { q = gen(); if(p == q) continue; what = "rename"; change = true; ok = t.rename(p, q); if(m.at(q)) continue; if(!ro && ok.empty() && !under && !lng && q.size() <= 256) continue; if(q.size() > 256) { ok.insert(EVFS_ERR_TOO_LONG); ok.insert(EVFS_ERR_OVERFLOW); } s = evfs_rename_ex(rp.c_str(), real(q).c_str(), v); break; }
    default: ro = !ro; set_cfg(EVFS_CMD_SET_READONLY, ro); c.note("read-only: %d", (int)ro); continue;
    }
    if(lng) { ok.insert(EVFS_ERR_TOO_LONG); ok.insert(EVFS_ERR_OVERFLOW); if(strict == -1) strict = 0; } if(under) { ok.insert(EVFS_ERR_AUTH); if(strict == -1) { strict = 0; REQUIRE(s == EVFS_ERR_AUTH || s == EVFS_ERR_DISABLED, "%s %s without permission = %s", what.c_str(), p.c_str(), ENAME(s)); } }
    c.note("%s %s%s%s = %s", what.c_str(), quote(p).c_str(), q.empty() ? "" : " to ", q.empty() ? "" : quote(q).c_str(), ENAME(s)); REQUIRE(s == EVFS_OK || s < 0, "%s = %d", what.c_str(), s);
    if(ro && change) { ok.insert(EVFS_ERR_DISABLED); REQUIRE(s == EVFS_ERR_DISABLED || (s < 0 && ok.count(s)), "%s %s on a read-only file system = %s", what.c_str(), quote(p).c_str(), ENAME(s)); failures++; seen.insert(s); continue; }
    if(s < 0) { failures++; seen.insert(s); if(ok.empty()) pbt::fail("%s %s = %s, although nothing prevents it", what.c_str(), quote(p).c_str(), ENAME(s));
      if(strict == -1) REQUIRE(ok.count(s), "%s %s = %s instead of %s", what.c_str(), quote(p).c_str(), ENAME(s), show(ok).c_str());
      if(strict < -1) REQUIRE(s == strict, "%s %s, which exists = %s", what.c_str(), quote(p).c_str(), ENAME(s));
      REQUIRE(s == EVFS_ERR || ok.count(s), "%s %s = %s, but what is the case is %s", what.c_str(), quote(p).c_str(), ENAME(s), show(ok).c_str()); }
    if(change) list();
  } } catch(...) { if(locked) chmod(L.c_str(), 0700); throw; }
  if(locked) chmod(L.c_str(), 0700); if(failures >= 2 && seen.size() >= 2) c.nontrivial();
}
// ------------------------------------------------------------ failing host calls
// In the variant 'hostfault' the library's calls of these host functions arrive here; the harness itself calls the real ones.
static struct { long at = -1; int err = EIO; int hits = 0; std::string which; std::set<FILE *> bad; size_t part = 0; int kind = 0; } hf;   // call number 'at' of the operation under way fails
static bool hf_fails(const char *name) { if(hf.at < 0 || hf.at-- != 0) return false; hf.at = -1; hf.hits++; hf.which = name; errno = hf.err; return true; }
extern "C" {
FILE *vp_fopen(const char *p, const char *m) { return hf_fails("fopen") ? nullptr : fopen(p, m); }
int vp_fclose(FILE *f) { bool x = hf_fails("fclose"); hf.bad.erase(f); int r = fclose(f); if(x) { errno = hf.err; return EOF; } return r; }
size_t vp_fread(void *b, size_t s, size_t n, FILE *f) { if(s != 1 || !hf_fails("fread")) return fread(b, s, n, f); size_t k = n ? hf.part % n : 0; size_t r = k ? fread(b, 1, k, f) : 0; hf.bad.insert(f); errno = hf.err; return r; }
size_t vp_fwrite(const void *b, size_t s, size_t n, FILE *f) { if(s != 1 || f == stdout || f == stderr || !hf_fails("fwrite")) return fwrite(b, s, n, f); size_t k = n ? hf.part % n : 0; size_t r = k ? fwrite(b, 1, k, f) : 0; hf.bad.insert(f); errno = hf.err; return r; }
int vp_fflush(FILE *f) { if(f && f != stdout && f != stderr && hf_fails("fflush")) { hf.bad.insert(f); return EOF; } return fflush(f); }
int vp_ferror(FILE *f) { return hf.bad.count(f) || ferror(f); }
void vp_clearerr(FILE *f) { hf.bad.erase(f); clearerr(f); }
int vp_fseek(FILE *f, long o, int w) { if(hf_fails("fseek")) return -1; return fseek(f, o, w); }
int vp_ftruncate(int fd, off_t n) { return hf_fails("ftruncate") ? -1 : ftruncate(fd, n); }
int vp_stat(const char *p, struct stat *s) { return hf_fails("stat") ? -1 : stat(p, s); }
DIR *vp_opendir(const char *p) { return hf_fails("opendir") ? nullptr : opendir(p); }
struct dirent *vp_readdir(DIR *d) { return hf_fails("readdir") ? nullptr : readdir(d); }
int vp_mkdir(const char *p, mode_t m) { return hf_fails("mkdir") ? -1 : mkdir(p, m); }
int vp_remove(const char *p) { return hf_fails("remove") ? -1 : remove(p); }
int vp_rename(const char *a, const char *b) { return hf_fails("rename") ? -1 : rename(a, b); }
int vp_chdir(const char *p) { return hf_fails("chdir") ? -1 : chdir(p); }
char *vp_getcwd(char *b, size_t n) { return hf_fails("getcwd") ? nullptr : getcwd(b, n); }
}
static void host_faults(Case &c) {
  Lib lib; hf.at = -1; hf.bad.clear(); hf.hits = 0; fresh(); std::map<std::string, std::string> files; std::set<std::string> dirs = {""}; struct H { EvfsFile *f = nullptr; std::string p; size_t pos = 0; bool rd = false, wr = false, app = false; } h[2];
  static const std::vector<const char *> NM = {"a", "b", "c", "d", "dir", "x.y"};
  auto parent = [](const std::string &p) { return p.substr(0, p.rfind('/')); };
  for(size_t i = 0, n = 2 + c.below(7); i < n; i++) { std::string d = c.chance(60) ? "" : *std::next(dirs.begin(), c.below(dirs.size())), p = d + "/" + c.pick(NM); if(files.count(p) || dirs.count(p)) continue; if(c.chance(35)) { mkdir((S + p).c_str(), 0777); dirs.insert(p); } else { std::string t = c.chars("abcdefg\n", 0, c.chance(15) ? 9000 : 80); spit(S + p, t); files[p] = t; } }
  auto gen = [&]() { std::string d = *std::next(dirs.begin(), c.below(dirs.size())); return c.chance(8) ? d + "/missing/" + c.pick(NM) : d + "/" + c.pick(NM); };
  auto opened = [&](const std::string &p) { for(auto &x : h) if(x.f && (x.p == p || x.p.compare(0, p.size() + 1, p + "/") == 0)) return true; return false; };
  auto empty = [&](const std::string &d) { for(auto &x : files) if(parent(x.first) == d) return false; for(auto &x : dirs) if(!x.empty() && parent(x) == d) return false; return true; };
  auto expect = [&]() { // the tree, in the same form as tree()
    std::function<std::string(const std::string &)> go = [&](const std::string &d) { std::map<std::string, bool> k; for(auto &x : files) if(parent(x.first) == d) k[x.first.substr(d.size() + 1)] = false; for(auto &x : dirs) if(!x.empty() && parent(x) == d) k[x.substr(d.size() + 1)] = true;
      std::string o; for(auto &x : k) { std::string p = d + "/" + x.first; if(x.second) o += p + "/\n" + go(p); else o += p + " " + std::to_string(files[p].size()) + ":" + quote(files[p]) + "\n"; } return o; }; return go(""); };
  auto compare = [&](const char *when) { for(auto &x : h) if(x.f) { int s = evfs_file_sync(x.f); REQUIRE(s == EVFS_OK || !x.wr, "sync without a fault = %s", ENAME(s)); } std::string x = tree(S), y = expect(); REQUIRE(x == y, "%s the directory has\n%sbut should have\n%s", when, x.c_str(), y.c_str()); };
  int fired = 0, reported = 0; size_t n = 4 + c.size(26);
  for(size_t i = 0; i < n; i++) {
    hf.bad.clear(); hf.hits = 0; hf.which = ""; hf.part = c.below(50); hf.err = c.pick({EIO, EIO, ENOMEM, EACCES, ENOSPC, EMFILE, EINTR}); long at = c.chance(55) ? (long)c.weighted({70, 15, 10, 5}) : -1; int before = 0; (void)before;
    std::string what, p, q; int s = 0; bool normal = true; int op = (int)c.weighted({16, 6, 12, 12, 5, 5, 5, 6, 6, 6, 6, 5, 4, 6});
    auto fail_ok = [&]() { bool ok = hf.hits || !normal; REQUIRE(s >= 0 || ok, "%s %s = %s although nothing failed", what.c_str(), p.c_str(), ENAME(s)); if(s < 0 && hf.hits) reported++;
      if(s < 0 && hf.hits && normal) { int m = hf.err == EIO ? EVFS_ERR_IO : hf.err == ENOMEM ? EVFS_ERR_ALLOC : hf.err == EACCES ? EVFS_ERR_AUTH : hf.err == ENOSPC ? EVFS_ERR_FS_FULL : EVFS_ERR; bool created = op == 0 && !files.count(p) && s == EVFS_ERR_NO_FILE; REQUIRE(s == EVFS_ERR || s == EVFS_ERR_IO || s == m || created, "%s %s with %s failing (%s) = %s", what.c_str(), p.c_str(), hf.which.c_str(), strerror(hf.err), ENAME(s)); }
      if(hf.hits) { fired++; c.note("%s %s, %s fails (%s) = %s", what.c_str(), p.c_str(), hf.which.c_str(), strerror(hf.err), s < 0 ? ENAME(s) : std::to_string(s).c_str()); } else c.note("%s %s %s= %s", what.c_str(), p.c_str(), q.c_str(), s < 0 ? ENAME(s) : std::to_string(s).c_str()); };
#define DO(e) do { hf.at = at; e; hf.at = -1; } while(0)
    H &x = h[c.below(2)];
    if(x.f) p = x.p;
    switch(op) {
    case 0: { if(x.f) break; p = gen(); if(opened(p)) break; int fl = c.pick({EVFS_RDWR, EVFS_READ, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OVERWRITE, EVFS_WRITE|EVFS_OVERWRITE, EVFS_RDWR|EVFS_NO_EXIST, EVFS_RDWR|EVFS_APPEND}); what = "open(" + std::to_string(fl) + ")";
      bool ex = files.count(p), isd = dirs.count(p), par = dirs.count(parent(p)); normal = par && !isd && (fl & EVFS_NO_EXIST ? !ex : fl & (EVFS_OPEN_OR_NEW|EVFS_OVERWRITE|EVFS_APPEND) ? true : ex);
      DO(s = evfs_open((S + p).c_str(), &x.f, fl)); fail_ok(); struct stat st;
      if(s == EVFS_OK) { REQUIRE(normal, "open %s = EVFS_OK", p.c_str()); if(fl & EVFS_OVERWRITE) files[p] = ""; else files[p]; x.p = p; x.app = fl & EVFS_APPEND; x.pos = 0; x.rd = fl & EVFS_READ; x.wr = fl & EVFS_WRITE; if(x.app) REQUIRE(evfs_file_seek(x.f, 0, EVFS_SEEK_TO) == EVFS_OK, "seek"); }
      else { x.f = nullptr; if(normal && hf.hits && !ex && (fl & EVFS_OPEN_OR_NEW) && !stat((S + p).c_str(), &st)) files[p] = ""; } break; }
    case 1: { if(!x.f) break; what = "close"; bool wr = x.wr; (void)wr; EvfsFile *f = x.f; x.f = nullptr; DO(s = evfs_file_close(f)); if(hf.hits) REQUIRE(s < 0, "%s failed but close = %d", hf.which.c_str(), s); fail_ok(); break; }
    case 2: { if(!x.f || !x.rd) break; size_t k = 1 + c.size(200); what = "read " + std::to_string(k); std::vector<char> b(k); ptrdiff_t r; DO(r = evfs_file_read(x.f, b.data(), k)); s = (int)r; std::string &t = files[x.p]; size_t left = x.pos < t.size() ? t.size() - x.pos : 0, want = std::min(left, k);
      REQUIRE(r <= (ptrdiff_t)want, "read of %zu, %zu left = %td", k, left, r); if(r >= 0 && (size_t)r < want) REQUIRE(hf.hits, "short read"); if(r > 0) REQUIRE(!memcmp(b.data(), t.data() + x.pos, r), "read the wrong data"); if(hf.hits && want && r == 0) pbt::fail("%s failed but the read tells the end of the file", hf.which.c_str()); if(r > 0) x.pos += r; fail_ok(); break; }
    case 3: { if(!x.f || !x.wr) break; size_t k = 1 + c.size(c.chance(15) ? 6000 : 100); what = "write " + std::to_string(k); auto b = c.blob(k); ptrdiff_t r; DO(r = evfs_file_write(x.f, b.data(), k)); s = (int)r; REQUIRE(r <= (ptrdiff_t)k && r != 0, "write of %zu = %td", k, r); if(r > 0 && (size_t)r < k) REQUIRE(hf.hits, "short write");
      if(r > 0) { std::string &t = files[x.p]; size_t at = x.app ? t.size() : x.pos; if(t.size() < at + r) t.resize(at + r); memcpy(&t[at], b.data(), r); x.pos = at + r; } fail_ok(); break; }
    case 4: { if(!x.f) break; std::string &t = files[x.p]; long to = (long)c.below(t.size() + 30); EvfsSeekDir o = c.pick({EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); if(o == EVFS_SEEK_REV && to > (long)t.size()) to = t.size(); what = "seek"; DO(s = evfs_file_seek(x.f, o == EVFS_SEEK_TO ? to : o == EVFS_SEEK_REL ? to - (long)x.pos : (long)t.size() - to, o)); if(s == EVFS_OK) { if(hf.hits) pbt::fail("%s failed but seek = EVFS_OK", hf.which.c_str()); x.pos = to; } fail_ok(); break; }
    case 5: { if(!x.f || !x.wr) break; std::string &t = files[x.p]; size_t to = c.below(t.size() + 1); what = "truncate"; DO(s = evfs_file_truncate(x.f, to)); if(s == EVFS_OK) { if(hf.hits) pbt::fail("%s failed but truncate = EVFS_OK", hf.which.c_str()); t.resize(to); } fail_ok(); if(s == EVFS_OK) { x.pos = std::min(x.pos, t.size()); REQUIRE(evfs_file_seek(x.f, x.pos, EVFS_SEEK_TO) == EVFS_OK, "seek"); } break; }
    case 6: { if(!x.f) break; what = "sync"; DO(s = evfs_file_sync(x.f)); if(hf.hits) REQUIRE(s < 0, "%s failed but sync = %d", hf.which.c_str(), s); fail_ok(); if(s == EVFS_OK && x.wr) { std::string g = slurp(S + x.p); REQUIRE(g == files[x.p], "after a sync the file holds %zu bytes, %zu were written", g.size(), files[x.p].size()); } break; }
    case 7: { p = gen(); what = "mkdir"; normal = dirs.count(parent(p)) && !dirs.count(p) && !files.count(p); DO(s = evfs_make_dir((S + p).c_str())); if(s == EVFS_OK) { if(hf.hits) pbt::fail("%s failed but make_dir = EVFS_OK", hf.which.c_str()); REQUIRE(normal, "make_dir of an existing path"); dirs.insert(p); } fail_ok(); break; }
    case 8: { p = gen(); if(opened(p)) break; what = "delete"; bool d = dirs.count(p); normal = files.count(p) || (d && empty(p)); DO(s = evfs_delete((S + p).c_str())); if(s == EVFS_OK) { if(hf.hits) pbt::fail("%s failed but delete = EVFS_OK", hf.which.c_str()); REQUIRE(normal, "deleted %s", p.c_str()); if(d) dirs.erase(p); else files.erase(p); } fail_ok(); break; }
    case 9: { p = gen(); q = gen(); if(opened(p) || opened(q) || files.count(q) || dirs.count(q) || dirs.count(p)) break; what = "rename"; normal = files.count(p) && dirs.count(parent(q)); DO(s = evfs_rename((S + p).c_str(), (S + q).c_str())); if(s == EVFS_OK) { if(hf.hits) pbt::fail("%s failed but rename = EVFS_OK", hf.which.c_str()); REQUIRE(normal, "renamed %s", p.c_str()); files[q] = files[p]; files.erase(p); } fail_ok(); break; }
    case 10: { // a listing, one fault somewhere in it
      p = *std::next(dirs.begin(), c.below(dirs.size())); if(c.chance(15)) p = gen(); what = "list"; normal = dirs.count(p); long dat = at < 0 ? -1 : (long)c.below(9); EvfsDir *d = nullptr; bool find = c.chance(30); set_cfg(EVFS_CMD_SET_NO_DIR_DOTS, c.below(2)); hf.at = dat; s = evfs_open_dir((S + p).c_str(), &d); if(s < 0) { hf.at = -1; fail_ok(); break; }
      if(hf.hits) pbt::fail("%s failed but open_dir = EVFS_OK", hf.which.c_str()); std::set<std::string> got; EvfsInfo e; int rounds = 0, told = 0; for(;;) { int was = hf.hits; int r = find ? evfs_dir_find(d, "*", &e) : evfs_dir_read(d, &e); if(hf.hits > was) { REQUIRE(r < 0, "%s failed in the listing of %s but it tells %s", hf.which.c_str(), p.c_str(), r == EVFS_DONE ? "the end" : "an entry"); s = r; told++; } else REQUIRE(r >= 0, "listing = %s although nothing failed", ENAME(r)); if(r == EVFS_DONE) break; if(r == EVFS_OK) { REQUIRE(e.name, "no name"); std::string nm = e.name; if(nm != "." && nm != "..") REQUIRE(got.insert(nm).second, "%s twice", nm.c_str()); } REQUIRE(++rounds < 200, "endless listing"); }
      hf.at = -1; std::set<std::string> want; for(auto &y : files) if(parent(y.first) == p) want.insert(y.first.substr(p.size() + 1)); for(auto &y : dirs) if(!y.empty() && parent(y) == p) want.insert(y.substr(p.size() + 1)); REQUIRE(got == want, "the listing of %s has %zu entries instead of %zu", p.c_str(), got.size(), want.size()); REQUIRE(evfs_dir_close(d) == EVFS_OK, "dir_close"); (void)told; fail_ok(); break; }
    case 11: { p = gen(); what = "stat"; EvfsInfo e; normal = files.count(p) || dirs.count(p); for(auto &y : h) if(y.f && y.p == p) evfs_file_sync(y.f); DO(s = evfs_stat((S + p).c_str(), &e)); if(s == EVFS_OK) { if(hf.hits) pbt::fail("%s failed but stat = EVFS_OK", hf.which.c_str()); REQUIRE(normal, "stat of a missing file"); if(files.count(p)) REQUIRE((size_t)e.size == files[p].size() && !(e.type & EVFS_FILE_DIR), "wrong size %ld", (long)e.size); else REQUIRE(e.type & EVFS_FILE_DIR, "not a directory"); } fail_ok(); break; }
    case 12: { p = *std::next(dirs.begin(), c.below(dirs.size())); if(c.chance(20)) p = gen(); normal = dirs.count(p); what = "chdir"; char was[4096], now[4096]; if(!getcwd(was, sizeof was)) pbt::fail("getcwd"); DO(s = evfs_set_cur_dir((S + p).c_str())); if(!getcwd(now, sizeof now)) pbt::fail("getcwd"); if(s == EVFS_OK) { if(hf.hits) pbt::fail("%s failed but set_cur_dir = EVFS_OK", hf.which.c_str()); REQUIRE(S + p == now, "current directory %s", now); } else REQUIRE(!strcmp(was, now), "set_cur_dir = %s but the current directory is %s", ENAME(s), now);
      fail_ok(); hf.hits = 0; char b[1024]; StringRange r = RANGE_FROM_ARRAY(b); normal = true; what = "get_cur_dir"; DO(s = evfs_get_cur_dir(&r)); if(s == EVFS_OK) { if(hf.hits) pbt::fail("%s failed but get_cur_dir = EVFS_OK", hf.which.c_str()); REQUIRE(!strcmp(b, now), "get_cur_dir %s", b); } fail_ok(); if(chdir(S.c_str())) pbt::fail("chdir"); break; }
    default: { p = gen() + (c.chance(50) ? "/" + std::string(c.pick(NM)) : ""); std::vector<std::string> pre; bool file = false; for(size_t k = p.find('/', 1);; k = p.find('/', k + 1)) { std::string y = p.substr(0, k); pre.push_back(y); if(files.count(y)) file = true; if(k == std::string::npos) break; } normal = !file; what = "make_path"; hf.at = at < 0 ? -1 : (long)c.below(8); s = evfs_make_path((S + p).c_str()); hf.at = -1; struct stat st;
      if(s == EVFS_OK) { REQUIRE(normal, "made a path through a file"); for(auto &y : pre) dirs.insert(y); } else for(auto &y : pre) if(!dirs.count(y) && !files.count(y) && !stat((S + y).c_str(), &st)) { REQUIRE(hf.hits, "make_path = %s", ENAME(s)); dirs.insert(y); } fail_ok(); break; }
    }
    if(hf.hits || c.chance(10)) compare(what.c_str());
  }
  for(auto &x : h) if(x.f) { EvfsFile *f = x.f; x.f = nullptr; REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); } compare("at the end"); set_cfg(EVFS_CMD_SET_NO_DIR_DOTS, 0);
  c.nontrivial(fired >= 2 && reported >= 1); if(chdir(S.c_str())) {} evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
const pbt::Prop pbt::props[] = {
  {"E33.host", model_oom, 60000, 1500000, 5, 20, ""},
  {"S09.model", model_full, 60000, 1500000, 5, 20, ""},
  {"S09.full", full, 300000, 4000000, 5, 20, ""},
  {"S09.faults", host_faults, 20000, 400000, 5, 20, ""},
  {"I33.host", described, 20000, 400000, 5, 20, ""},
  {"S10.stdio", readonly, 60000, 1200000, 5, 20, ""},
  {"E34.host", codes_host, 15000, 300000, 5, 20, ""},
  {"P05.host", limits_host, 30000, 400000, 5, 30, ""},
  {nullptr, nullptr, 0, 0, 0, 0, nullptr}
};
