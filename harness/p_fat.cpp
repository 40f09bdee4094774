// The FatFs driver and its image files against an in-memory model.
#include "fsdiff.h"
extern "C" {
#include "ff.h"
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
}
using namespace pbt;
typedef std::vector<uint8_t> Bytes;
static std::string vol(int drv) { return std::to_string(drv) + ":"; }
void pbt::harness_setup() { evfs_init(); }
static void dump_fs(const char *vfs, const std::string &dir, const std::string &rel, std::string &o, int depth = 0) {
  EvfsDir *dh = nullptr; int s = evfs_open_dir_ex(dir.c_str(), &dh, vfs); REQUIRE(s == EVFS_OK, "open_dir %s = %s", quote(dir).c_str(), ENAME(s)); REQUIRE(depth < 40, "directory loop");
  std::vector<std::pair<std::string, bool>> v; EvfsInfo i; size_t guard = 0; while((s = evfs_dir_read(dh, &i)) == EVFS_OK) { REQUIRE(guard++ < 5000, "listing does not end"); std::string n = i.name; if(n != "." && n != "..") v.push_back({n, !!(i.type & EVFS_FILE_DIR)}); } REQUIRE(s == EVFS_DONE, "listing = %s", ENAME(s)); evfs_dir_close(dh);
  std::sort(v.begin(), v.end());
  for(auto &e : v) { std::string f = dir + (dir.back() == '/' ? "" : "/") + e.first;
    if(e.second) { o += rel + "/" + e.first + "/\n"; dump_fs(vfs, f, rel + "/" + e.first, o, depth + 1); }
    else { EvfsFile *fh = nullptr; s = evfs_open_ex(f.c_str(), &fh, EVFS_READ, vfs); REQUIRE(s == EVFS_OK, "open %s = %s", quote(f).c_str(), ENAME(s)); std::string d; char b[700]; ptrdiff_t k; while((k = evfs_file_read(fh, b, sizeof b)) > 0) d.append(b, (size_t)k); REQUIRE(k == 0, "read %s = %s", quote(f).c_str(), ENAME(k)); REQUIRE((size_t)evfs_file_size(fh) == d.size(), "size of %s", quote(f).c_str()); evfs_file_close(fh); o += rel + "/" + e.first + " " + std::to_string(d.size()) + ":" + d + "\n"; } }
}
static const std::vector<std::string> &names() { static const std::vector<std::string> n = {"a", "b", "c.txt", "dd", "E e", "..x", "a longer name.data", "x+y"}; return n; }
static std::string any_path(Case &c) {
  std::string s = c.chance(60) ? "/" : ""; size_t n = s.empty() ? 1 + c.below(3) : c.weighted({5, 50, 35, 10});
  for(size_t i = 0; i < n; i++) { if(!s.empty() && s.back() != '/' && s.back() != '\\') s += c.chance(8) ? "\\" : c.chance(5) ? "//" : "/"; if(c.chance(7)) s += "./"; s += c.pick(names()); } return s;
}
static const std::vector<int> FLAGS = { EVFS_READ, EVFS_READ, EVFS_RDWR, EVFS_RDWR, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_READ|EVFS_OPEN_OR_NEW, EVFS_WRITE|EVFS_NO_EXIST, EVFS_RDWR|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OVERWRITE, EVFS_WRITE|EVFS_OVERWRITE, EVFS_WRITE,
  EVFS_WRITE|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_APPEND, EVFS_WRITE|EVFS_APPEND, EVFS_RDWR|EVFS_APPEND|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_APPEND|EVFS_NO_EXIST, EVFS_WRITE|EVFS_APPEND|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OVERWRITE|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OPEN_OR_NEW|EVFS_NO_EXIST };
// Formatted images of several sizes, made once by the library itself
static const Bytes &blank(long size) {
  static std::map<long, Bytes> cache; auto it = cache.find(size); if(it != cache.end()) return it->second;
  MemFs h("blankhost"); h.reg(true); int s = fatfs_make_image("/img", 0, (evfs_off_t)size); REQUIRE(s == EVFS_OK, "make_image of %ld bytes = %s", size, ENAME(s)); return cache[size] = h.at("/img")->data;
}
struct Vol {
  MemFs host{"host"}; int drv = 0; bool mounted = false;
  void prepare(const Bytes &img) { host.reg(true); host.style = RootStyle::Posix; host.put("/img", img); }
  template<class F> int maybe(Oom *o, Case *c, const char *op, F f) { return o ? (int)o->call(*c, op, f) : f(); }
  int mount(Oom *o = nullptr, Case *c = nullptr) { int s = maybe(o, c, "mount_image", [&] { return fatfs_mount_image("/img", (uint8_t)drv); }); mounted = s == EVFS_OK; if(mounted) { int r = maybe(o, c, "register", [&] { return evfs_register_fatfs("fat", (uint8_t)drv, false); }); REQUIRE(r == EVFS_OK, "register_fatfs = %s", ENAME(r)); } return s; }
  void unmount() { if(!mounted) return; mounted = false; evfs_unregister(evfs_find_vfs("fat")); fatfs_unmount_image((uint8_t)drv); }
  ~Vol() { host.fail_at = -1; unmount(); evfs_unregister_all(); }
};
static void config(FsDiff &d, Case &c, MemFs &m, Vol &v) {
  d.exact = false; d.mtime = false; d.dir_atomic = true; d.fctrl = false; d.sync_first = true; d.stat_name = false; d.min_io = 1; d.max_io = c.chance(20) ? 9000 : 200; d.strip_a = vol(v.drv); d.strip_b = "0:";
  d.path = [&]() { return any_path(c); }; d.flags = [&]() { return c.pick(FLAGS); };
  d.alter_a = [&](std::string p) { // drive prefix and letter case of names which exist
    if(c.chance(25)) { std::string o; size_t i = 0; std::string pre; while(i <= p.size()) { size_t j = p.find_first_of("/\\", i); std::string e = p.substr(i, j == std::string::npos ? j : j - i); if(j == std::string::npos) { pre = p; } else pre = p.substr(0, j);
        if(!e.empty() && e != "." && m.at(m.resolve(pre.c_str()))) for(auto &ch : e) if(c.chance(50)) ch = (char)(islower((unsigned char)ch) ? toupper((unsigned char)ch) : tolower((unsigned char)ch)); o += e; if(j == std::string::npos) break; o += p[j]; i = j + 1; } p = o; }
    if(c.chance(15)) p = vol(v.drv) + p; return p; };
  d.open_ok = [&](const std::string &p) { NodeP n = m.at(m.resolve(p.c_str())); return !n || !n->opens; };
  d.fop_ok = [](FsDiff::Slot &s, int op) { return op == 0 ? (s.flags & EVFS_READ) != 0 : op == 1 || op == 6 ? (s.flags & EVFS_WRITE) != 0 : op == 2 ? !(s.flags & EVFS_APPEND) : true; };
  d.seek_ok = [](FsDiff::Slot &s, long off, EvfsSeekDir o) { long t = o == EVFS_SEEK_TO ? off : o == EVFS_SEEK_REL ? evfs_file_tell(s.b) + off : evfs_file_size(s.b) - off; return t >= 0 && t <= evfs_file_size(s.b); };
  d.trunc_ok = [](FsDiff::Slot &s, long n) { return n <= evfs_file_size(s.b) && evfs_file_tell(s.b) <= n; };
  d.skip = [&](const std::string &p) { auto r = m.resolve(p.c_str()); auto &w = m.cwd; if(r.size() <= w.size() && std::equal(r.begin(), r.end(), w.begin())) return true; NodeP n = m.at(r); return n && n->opens > 0; };
  d.rename_ok = [&](const std::string &p, const std::string &q) { auto a = m.resolve(p.c_str()), b = m.resolve(q.c_str()); return !(b.size() >= a.size() && std::equal(a.begin(), a.end(), b.begin())); };
}
static std::string other_trunc(Case &c, FsDiff &d) { // truncation beyond the end or below the position
  for(auto &s : d.f) if(s.a && (s.flags & EVFS_WRITE) && !(s.flags & EVFS_APPEND) && c.chance(60)) {
    long sz = evfs_file_size(s.a); if(c.chance(50)) { long n = sz + c.size(600); c.note("truncate %s from %ld to %ld", quote(s.p).c_str(), sz, n); int r = evfs_file_truncate(s.a, (evfs_off_t)n); long t = evfs_file_size(s.a); REQUIRE(t == sz || (r == EVFS_OK && t == n), "truncating %ld bytes to %ld gives %ld bytes", sz, n, t); if(t != sz) evfs_file_truncate(s.b, (evfs_off_t)t); }
    else { long n = (long)c.below((uint64_t)sz + 1); c.note("truncate %s to %ld, at %ld", quote(s.p).c_str(), n, (long)evfs_file_tell(s.a)); int r = evfs_file_truncate(s.a, (evfs_off_t)n); d.cmp("truncate", r, evfs_file_truncate(s.b, (evfs_off_t)n)); long t = evfs_file_tell(s.a); REQUIRE(t == n || t == evfs_file_tell(s.b), "position %ld after truncating to %ld", t, n); evfs_file_seek(s.b, (evfs_off_t)t, EVFS_SEEK_TO); evfs_file_seek(s.a, (evfs_off_t)t, EVFS_SEEK_TO); d.cmp("tell", evfs_file_tell(s.a), std::min<long>(t, evfs_file_size(s.a))); evfs_file_seek(s.b, evfs_file_tell(s.a), EVFS_SEEK_TO); d.cmp("size", evfs_file_size(s.a), evfs_file_size(s.b)); }
    return "";
  }
  return "";
}
static void compare(Vol &v, MemFs &m, const char *when) { std::string x, y = m.dump(); dump_fs("fat", vol(v.drv) + "/", "", x); REQUIRE(x == y, "%s:\n%s\nmodel:\n%s", when, quote(x).c_str(), quote(y).c_str()); }
static void model(Case &c, bool oom) {
  const Bytes &img = blank(c.pick({262144L, 524288L})); Lib lib; Vol v; v.drv = (int)c.below(2); v.prepare(img); v.host.partial = c.chance(25); v.host.partial_rng = c.byte() + 1;
  MemFs m("mem"); m.reg(false); m.style = RootStyle::Dos; m.append_creates = true; Oom o; o.on = oom; { o.snapshot = [&] { auto &b = v.host.at("/img")->data; return std::to_string(std::hash<std::string_view>()(std::string_view((const char *)b.data(), b.size()))); }; int s = v.mount(&o, &c); REQUIRE(s == EVFS_OK, "mounting a formatted image = %s", ENAME(s)); }
  size_t sessions = 1 + c.below(3); int muts = 0, reads = 0, hits = 0;
  for(size_t k = 0; k < sessions; k++) {
    FsDiff d(c, "fat", "mem"); config(d, c, m, v); d.oom.on = oom; d.oom.snapshot = [&] { auto &b = v.host.at("/img")->data; return std::to_string(std::hash<std::string_view>()(std::string_view((const char *)b.data(), b.size()))); }; size_t n = 6 + c.size(40); for(size_t i = 0; i < n; i++) { d.step(); if(c.chance(8)) other_trunc(c, d); } d.finish(); muts += d.ok_mut; reads += d.ok_reads; hits += d.oom.errors;
    c.note("unmount"); if(c.chance(30)) compare(v, m, "before unmounting"); v.unmount(); REQUIRE(v.host.open_files == 0, "the image is still open"); v.drv = (int)c.below(2); int s = v.mount(); REQUIRE(s == EVFS_OK, "mounting again = %s", ENAME(s)); m.cwd.clear(); compare(v, m, "after mounting again");
  }
  c.nontrivial(muts >= 3 && reads >= 1 && (!oom || hits >= 1));
  v.unmount(); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
static void model_full(Case &c) { model(c, false); }
static void model_oom(Case &c) { model(c, true); }

// Two volumes in use at the same time
static void two(Case &c) {
  const Bytes &img = blank(262144L); Lib lib; MemFs host("host"), m0("m0"), m1("m1"); host.reg(true); host.style = RootStyle::Posix; host.partial = c.chance(25); host.partial_rng = c.byte() + 1; Vol v[2]; v[1].drv = 1; MemFs *m[2] = {&m0, &m1}; const char *nm[2] = {"fat0", "fat1"}, *file[2] = {"/img0", "/img1"};
  struct Off { const char **nm; ~Off() { for(int k = 0; k < 2; k++) { Evfs *x = evfs_find_vfs(nm[k]); if(x && !strcmp(x->vfs_name, nm[k])) evfs_unregister(x); fatfs_unmount_image((uint8_t)k); } evfs_unregister_all(); } } off{nm};
  for(int k = 0; k < 2; k++) { host.put(file[k], img); m[k]->reg(false); m[k]->style = RootStyle::Dos; m[k]->append_creates = true; int s = fatfs_mount_image(file[k], (uint8_t)k); REQUIRE(s == EVFS_OK, "mounting %s = %s", file[k], ENAME(s)); s = evfs_register_fatfs(nm[k], (uint8_t)k, false); REQUIRE(s == EVFS_OK, "register_fatfs = %s", ENAME(s)); }
  { FsDiff d0(c, "fat0", "m0"), d1(c, "fat1", "m1"); FsDiff *d[2] = {&d0, &d1}; for(int k = 0; k < 2; k++) config(*d[k], c, *m[k], v[k]);
    size_t n = 8 + c.size(50), turns = 0; int last = 0; for(size_t i = 0; i < n; i++) { int k = (int)c.below(2); if(k != last) { turns++; last = k; c.note("on volume %d", k); } d[k]->step(); }
    d0.finish(); d1.finish(); c.nontrivial(turns >= 3 && d0.ok_mut >= 1 && d1.ok_mut >= 1); }
  for(int k = 0; k < 2; k++) { std::string x, y = m[k]->dump(); dump_fs(nm[k], vol(k) + "/", "", x); REQUIRE(x == y, "volume %d holds\n%s\nmodel:\n%s", k, quote(x).c_str(), quote(y).c_str()); }
}

// Image creation and mounting
static void image(Case &c) {
  Lib lib; MemFs h("host"); h.reg(true); h.partial = c.chance(30); h.partial_rng = c.byte() + 1; h.put("/keep", "abc", 3); h.mk("/dir", true); std::string before = h.dump();
  std::string path = c.pick({"/img", "/img", "img", "/dir/img", "/keep", "/none/img", "/dir"}); int drv = c.pick({0, 0, 1, 1, 2, 3, 10, 11, 200, 255});
  long size = c.pick({0L, -1L, 1L, 511L, 65536L}); switch(c.weighted({20, 25, 35, 20})) { case 0: break; case 1: size = 1 + (long)c.below(140000); break; case 2: size = 131072 + (long)c.below(200000); break; default: size = 262144 + (long)c.below(1500000); }
  bool fault = c.chance(40); if(fault) { h.fail_ops = {"open", "read", "write", "seek", "sync", "close"}; h.fail_at = 1 + c.size(20); h.fail_sticky = c.chance(20); if(!h.fail_sticky) h.fail_ops.erase("sync"); } // asking for a size syncs as well, without reporting
  c.note("make_image %s on volume %d, %ld bytes%s", path.c_str(), drv, size, fault ? ", with a fault" : "");
  int s = fatfs_make_image(path.c_str(), (uint8_t)drv, (evfs_off_t)size); bool hit = h.failed; std::string at = h.failed_op; h.fail_at = -1; h.failed = false; bool bad_place = path == "/keep" || path == "/none/img" || path == "/dir";
  REQUIRE(h.open_files == 0, "%d files are still open", h.open_files);
  if(s != EVFS_OK) { REQUIRE(hit || drv > 1 || bad_place || size < 262144, "make_image of %ld bytes = %s", size, ENAME(s)); std::string after = h.dump(); REQUIRE(after == before || (hit && h.fail_sticky), "a failed make_image leaves %zu bytes behind", after.size() - before.size()); }
  else { REQUIRE(!hit && drv < 2 && !bad_place, "make_image of %s on volume %d succeeds%s", path.c_str(), drv, hit ? (" despite a failed " + at).c_str() : ""); NodeP n = h.at(h.resolve(path.c_str())); REQUIRE(n && (long)n->data.size() == size, "the image has %zu of %ld bytes", n ? n->data.size() : 0, size); }
  // mounting
  if(s == EVFS_OK && c.chance(80)) {
    Bytes orig = h.at(h.resolve(path.c_str()))->data; int v = (int)c.below(2); bool mf = c.chance(40); if(mf) { h.op_no = 0; h.fail_ops = {"open", "read", "seek"}; h.fail_at = 1 + c.size(6); h.fail_sticky = c.chance(20); }
    int m = fatfs_mount_image(path.c_str(), (uint8_t)v); c.note("mount on volume %d = %s", v, ENAME(m)); bool mh = h.failed; h.fail_at = -1;
    REQUIRE((m == EVFS_OK) == !mh, "mounting a formatted image of %ld bytes = %s%s", size, ENAME(m), mh ? " despite a fault" : ""); REQUIRE(h.at(h.resolve(path.c_str()))->data == orig, "mounting changes the image"); if(mh) { REQUIRE(h.open_files == 0, "failed mount leaves the image open"); m = fatfs_mount_image(path.c_str(), (uint8_t)v); REQUIRE(m == EVFS_OK, "mounting after a failed mount = %s", ENAME(m)); }
    REQUIRE(evfs_register_fatfs("fat", (uint8_t)v, false) == EVFS_OK, "register_fatfs"); std::string x; dump_fs("fat", vol(v) + "/", "", x); REQUIRE(x.empty(), "a new image contains %s", quote(x).c_str());
    EvfsFile *f = nullptr; std::string d(1 + c.size(3000), 'q'); int o = evfs_open_ex("new", &f, EVFS_WRITE | EVFS_NO_EXIST, "fat"); REQUIRE(o == EVFS_OK, "open on a new image = %s", ENAME(o)); ptrdiff_t k = evfs_file_write(f, d.data(), d.size()); REQUIRE(k == (ptrdiff_t)d.size(), "write of %zu bytes = %td", d.size(), k); o = evfs_file_close(f); REQUIRE(o == EVFS_OK, "close = %s", ENAME(o));
    evfs_unregister(evfs_find_vfs("fat")); fatfs_unmount_image((uint8_t)v); REQUIRE(h.open_files == 0, "the image is still open"); v = (int)c.below(2); REQUIRE(fatfs_mount_image(path.c_str(), (uint8_t)v) == EVFS_OK, "mount again"); evfs_register_fatfs("fat", (uint8_t)v, false); x.clear(); dump_fs("fat", vol(v) + "/", "", x); std::string w = "/new " + std::to_string(d.size()) + ":" + d + "\n"; REQUIRE(x == w, "contents %s", quote(x).c_str()); evfs_unregister(evfs_find_vfs("fat")); fatfs_unmount_image((uint8_t)v);
    c.nontrivial(true);
  } else if(c.chance(60)) { // things that are not images
    Bytes g = c.blob(c.size(3000)); if(c.chance(30) && g.size() >= 512) { g[510] = 0x55; g[511] = 0xaa; } h.put("/garbage", g); int v = c.pick({0, 1, 0, 1, 2, 10, 255}); std::string q = c.pick({"/garbage", "/nofile", "/dir"}); c.note("mount %s on volume %d", q.c_str(), v);
    int m = fatfs_mount_image(q.c_str(), (uint8_t)v); REQUIRE(m != EVFS_OK, "mounting %s on volume %d succeeds", q.c_str(), v); REQUIRE(h.open_files == 0, "failed mount leaves a file open"); REQUIRE(h.at("/garbage")->data == g, "mounting changes the file"); if(v < 2) { fatfs_unmount_image((uint8_t)v); REQUIRE(evfs_register_fatfs("fat", (uint8_t)v, false) == EVFS_OK, "register_fatfs"); EvfsFile *f = nullptr; REQUIRE(evfs_open_ex("x", &f, EVFS_READ, "fat") != EVFS_OK, "a file opens on a volume without image"); }
    else REQUIRE(evfs_register_fatfs("fat", (uint8_t)v, false) != EVFS_OK, "a file system is registered for volume %d", v);
    c.nontrivial(v < 2);
  } else c.nontrivial(hit);
  for(int v = 0; v < 2; v++) fatfs_unmount_image((uint8_t)v);
  evfs_unregister_all(); REQUIRE(h.open_files == 0, "open files"); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
// Errors of the file which holds the image
static void faults(Case &c) {
  const Bytes &img = blank(262144L); Lib lib; Vol v; v.drv = (int)c.below(2); v.prepare(img); REQUIRE(v.mount() == EVFS_OK, "mount"); std::map<std::string, std::string> kept; std::set<std::string> dirs; std::set<std::string> doubt; MemFs &h = v.host; h.partial = c.chance(25); h.partial_rng = c.byte() + 1; auto N = [&]() { return c.pick(names()); };
  size_t n = 3 + c.size(20); long at = c.below(n); bool hit = false; int done = 0, errs = 0; const char *F = "fat";
  auto arm = [&]() { h.op_no = 0; h.failed = false; h.fail_ops = c.pick({std::set<std::string>{"read"}, std::set<std::string>{"write"}, std::set<std::string>{"seek"}, std::set<std::string>{"read", "write", "seek", "sync"}, std::set<std::string>{"sync"}}); h.fail_at = 1 + c.size(c.chance(50) ? 8 : 60); h.fail_sticky = c.chance(30); c.note("fault at operation %ld%s", h.fail_at, h.fail_sticky ? ", permanent" : ""); };
  for(size_t i = 0; i < n && !hit; i++) {
    if((long)i == at) arm(); bool bad = false; std::set<std::string> touched; std::string p = N(); bool in_dir = c.chance(40); std::string dir = in_dir && !dirs.empty() ? *std::next(dirs.begin(), (long)c.below(dirs.size())) : ""; if(!dir.empty()) p = dir + "/" + p; bool is_dir = dirs.count(p) > 0;
    auto ck = [&](const char *what, ptrdiff_t r) { c.note("%s %s = %ld", what, quote(p).c_str(), (long)r); if(r < 0) { REQUIRE(h.failed, "%s = %s without a reason", what, ENAME(r)); bad = true; errs++; } else if(!bad && (!strcmp(what, "close") || !strcmp(what, "sync") || !strcmp(what, "delete") || !strcmp(what, "make_dir") || !strcmp(what, "rename"))) { REQUIRE(!h.failed || errs || (h.failed_op != "write" && h.failed_op != "sync"), "a failed %s is not reported", h.failed_op.c_str()); REQUIRE(!MemFs::unsynced(h.at("/img")), "after %s the image file has data which is not synced", what); } return r >= 0; };
    switch(c.weighted({40, 12, 10, 10, 20, 8})) {
    case 0: { if(is_dir) break; touched.insert(p); std::string d; EvfsFile *f = nullptr; bool app = c.chance(30) && kept.count(p); if(app) d = kept[p]; if(!ck("open", evfs_open_ex(p.c_str(), &f, app ? EVFS_RDWR | EVFS_APPEND : EVFS_RDWR | EVFS_OVERWRITE, F))) break;
      size_t w = 1 + c.below(6); for(size_t j = 0; j < w; j++) { auto b = c.blob(1 + c.size(c.chance(20) ? 4000 : 600)); size_t o = 0; while(o < b.size()) { ptrdiff_t k = evfs_file_write(f, b.data() + o, b.size() - o); if(!ck("write", k)) break; REQUIRE(k > 0, "write = 0"); o += (size_t)k; } d.append((char *)b.data(), o); if(bad) break; if(c.chance(15)) ck("sync", evfs_file_sync(f)); }
      if(!bad && c.chance(25)) { size_t t = c.below(d.size() + 1); if(ck("truncate", evfs_file_truncate(f, (evfs_off_t)t))) d.resize(t); }
      if(!bad && c.chance(30)) { size_t t = c.below(d.size() + 1); if(ck("seek", evfs_file_seek(f, (evfs_off_t)t, EVFS_SEEK_TO))) { std::string g(d.size() - t + 10, 0); ptrdiff_t k = evfs_file_read(f, &g[0], g.size()); if(ck("read", k)) REQUIRE(g.compare(0, (size_t)k, d, t, std::string::npos) == 0, "reads %td bytes at %zu: %s, expected %s", k, t, quote(g.substr(0, (size_t)k)).c_str(), quote(d.substr(t)).c_str()); } }
      ck("close", evfs_file_close(f)); if(!bad) { kept[p] = d; done++; } break; }
    case 1: { if(is_dir || !kept.count(p)) break; touched.insert(p); if(ck("delete", evfs_delete_ex(p.c_str(), F))) { kept.erase(p); done++; } break; }
    case 2: { if(is_dir || kept.count(p)) break; touched.insert(p); if(ck("make_dir", evfs_make_dir_ex(p.c_str(), F))) { dirs.insert(p); done++; } break; }
    case 3: { std::string q = N(); if(!kept.count(p) || kept.count(q) || dirs.count(q)) break; touched.insert(p); touched.insert(q); if(ck("rename", evfs_rename_ex(p.c_str(), q.c_str(), F))) { kept[q] = kept[p]; kept.erase(p); done++; } break; }
    case 4: { if(kept.empty()) break; auto it = std::next(kept.begin(), (long)c.below(kept.size())); p = it->first; EvfsFile *f = nullptr; if(!ck("open", evfs_open_ex(p.c_str(), &f, EVFS_READ, F))) break; std::string g; size_t st = 1 + c.size(700); std::string b(st, 0); int tries = 0; for(;;) { ptrdiff_t k = evfs_file_read(f, &b[0], st); if(!ck("read", k)) { if(tries++ > 2) break; continue; } if(k == 0) break; g.append(b, 0, (size_t)k); }
      REQUIRE(it->second.compare(0, g.size(), g) == 0 && (bad || g == it->second), "%s reads %s, expected %s", quote(p).c_str(), quote(g).c_str(), quote(it->second).c_str()); int cl = evfs_file_close(f); if(!bad) ck("close", cl); bad = false; break; }
    default: { EvfsDir *dh = nullptr; p = "/"; if(!ck("open_dir", evfs_open_dir_ex(p.c_str(), &dh, F))) { bad = false; break; } std::set<std::string> e, w; EvfsInfo in; int s; while((s = evfs_dir_read(dh, &in)) == EVFS_OK) e.insert(in.name); evfs_dir_close(dh); if(s != EVFS_DONE) ck("dir_read", s); for(auto &x : kept) if(x.first.find('/') == std::string::npos) w.insert(x.first); for(auto &x : dirs) if(x.find('/') == std::string::npos) w.insert(x); if(!bad) REQUIRE(e == w, "a complete listing has %zu of %zu entries", e.size(), w.size());
      p = N(); int st = evfs_stat_ex(p.c_str(), &in, F); if(st == EVFS_OK) { REQUIRE(w.count(p), "stat finds %s", quote(p).c_str()); if(kept.count(p)) REQUIRE((size_t)in.size == kept[p].size(), "stat size"); } else if(!h.failed) REQUIRE(!w.count(p), "stat %s = %s", quote(p).c_str(), ENAME(st)); else REQUIRE(!w.count(p) || st != EVFS_ERR_NO_FILE, "an error makes %s look missing", quote(p).c_str()); bad = false; break; }
    }
    if(bad) { hit = true; doubt = touched; }
  }
  bool seen = h.failed; h.fail_at = -1; h.partial = false; c.note("mount again"); v.unmount(); REQUIRE(h.open_files == 0, "the image is still open"); REQUIRE(v.mount() == EVFS_OK, "mount after errors");
  for(auto &k : kept) { if(doubt.count(k.first)) continue; EvfsFile *f = nullptr; int s = evfs_open_ex(k.first.c_str(), &f, EVFS_READ, F); REQUIRE(s == EVFS_OK, "%s, written without errors: open = %s", quote(k.first).c_str(), ENAME(s)); std::string g(k.second.size() + 10, 0); ptrdiff_t r = evfs_file_read(f, &g[0], g.size()); REQUIRE(r == (ptrdiff_t)k.second.size() && !g.compare(0, (size_t)r, k.second), "%s, written without errors, reads %td bytes", quote(k.first).c_str(), r); evfs_file_close(f); }
  for(auto &d : dirs) REQUIRE(doubt.count(d) || evfs_existing_dir_ex(d.c_str(), F), "directory %s is lost", quote(d).c_str());
  c.nontrivial(seen && done >= 2); v.unmount(); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
// A volume without free space
static void full(Case &c) {
  const Bytes &img = blank(262144L); Lib lib; Vol v; v.drv = (int)c.below(2); v.prepare(img); REQUIRE(v.mount() == EVFS_OK, "mount"); const char *F = "fat"; std::vector<std::string> path; std::vector<std::string> data; long capacity = -1; bool filled = false;
  for(int round = 0; round < 2; round++) { path.clear(); data.clear(); long total = 0; filled = false; size_t nf = 1 + c.below(4); struct O { EvfsFile *f; size_t i; }; std::vector<O> open;
    for(size_t i = 0; i < nf; i++) { std::string p = "file" + std::to_string(i); EvfsFile *f = nullptr; int s = evfs_open_ex(p.c_str(), &f, EVFS_RDWR | EVFS_OVERWRITE, F); REQUIRE(s == EVFS_OK, "open = %s", ENAME(s)); path.push_back(p); data.push_back(""); open.push_back({f, i}); }
    int errs = 0; for(size_t g = 0; g < 400 && errs < 3; g++) { O &o = open[c.below(open.size())]; std::string b; size_t n = 1 + (c.chance(70) ? c.below(30000) : c.below(600)); char ch = (char)('a' + c.below(26)); b.assign(n, ch); for(size_t k = 0; k < n; k += 7) b[k] = (char)(k >> 3); ptrdiff_t w = evfs_file_write(o.f, b.data(), n); c.note("write %zu to %zu = %ld", n, o.i, (long)w);
      REQUIRE(w != 0, "a write on a full volume returns 0"); if(w < 0) { REQUIRE(w == EVFS_ERR_FS_FULL, "write on a full volume = %s", ENAME(w)); errs++; filled = true; } else { REQUIRE(w <= (ptrdiff_t)n, "write"); data[o.i].append(b, 0, (size_t)w); total += w; if(w < (ptrdiff_t)n) filled = true; }
      REQUIRE((size_t)evfs_file_size(o.f) == data[o.i].size(), "size %ld after writing %zu bytes", (long)evfs_file_size(o.f), data[o.i].size()); }
    REQUIRE(filled, "%ld bytes fit", total); for(auto &o : open) { int s = evfs_file_close(o.f); REQUIRE(s == EVFS_OK, "close on a full volume = %s", ENAME(s)); }
    long cl = 0; for(auto &d : data) cl += (long)((d.size() + 511) / 512); if(capacity < 0) capacity = cl; REQUIRE(cl == capacity, "%ld sectors fit at first, %ld after deleting everything", capacity, cl);
    if(c.chance(50)) { v.unmount(); REQUIRE(v.mount() == EVFS_OK, "mount"); }
    for(size_t i = 0; i < nf; i++) { EvfsFile *f = nullptr; REQUIRE(evfs_open_ex(path[i].c_str(), &f, EVFS_READ, F) == EVFS_OK, "open"); std::string g(data[i].size() + 10, 0); ptrdiff_t k = evfs_file_read(f, &g[0], g.size()); REQUIRE(k == (ptrdiff_t)data[i].size() && !g.compare(0, (size_t)k, data[i]), "file %zu: %td of %zu bytes", i, k, data[i].size()); evfs_file_close(f); }
    { // nothing can be made, nothing half made stays
      if(c.chance(50)) { int s = evfs_make_dir_ex("newdir", F); REQUIRE(s < 0, "make_dir on a full volume = %s", ENAME(s)); REQUIRE(!evfs_existing_dir_ex("newdir", F), "half made directory"); } }
    size_t cut = c.below(nf); if(c.chance(40)) { EvfsFile *f = nullptr; REQUIRE(evfs_open_ex(path[cut].c_str(), &f, EVFS_RDWR, F) == EVFS_OK, "open"); long t = (long)c.below(data[cut].size() + 1); REQUIRE(evfs_file_truncate(f, (evfs_off_t)t) == EVFS_OK && evfs_file_size(f) == t, "truncate on a full volume"); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); data[cut].resize((size_t)t); }
    for(auto &p : path) { int s = evfs_delete_ex(p.c_str(), F); REQUIRE(s == EVFS_OK, "delete on a full volume = %s", ENAME(s)); } if(c.chance(50)) { v.unmount(); REQUIRE(v.mount() == EVFS_OK, "mount"); }
  }
  c.nontrivial(filled); v.unmount(); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
// A read-only instance changes nothing
static void readonly(Case &c) {
  const Bytes &img = blank(262144L); Lib lib; Vol v; v.drv = (int)c.below(2); v.prepare(img); REQUIRE(v.mount() == EVFS_OK, "mount"); const char *F = "fat"; for(int i = 0; i < 3; i++) { std::string p = names()[(size_t)i]; EvfsFile *f = nullptr; if(i == 1) { evfs_make_dir_ex(p.c_str(), F); p += "/in"; } REQUIRE(evfs_open_ex(p.c_str(), &f, EVFS_WRITE | EVFS_NO_EXIST, F) == EVFS_OK, "open"); auto b = c.blob(1 + c.size(700)); evfs_file_write(f, b.data(), b.size()); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); }
  EvfsFile *held = nullptr; if(c.chance(50)) { REQUIRE(evfs_open_ex(names()[0].c_str(), &held, EVFS_RDWR, F) == EVFS_OK, "open"); } if(held) evfs_file_sync(held);
  unsigned on = 1; REQUIRE(evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, F) == EVFS_OK, "set read only"); Bytes snap = v.host.at("/img")->data; size_t n = 3 + c.size(20); int tries = 0;
  for(size_t i = 0; i < n; i++) { std::string p = any_path(c); switch(c.below(7)) {
    case 0: { EvfsFile *f = nullptr; int fl = c.pick(FLAGS); int s = evfs_open_ex(p.c_str(), &f, fl, F); c.note("open %s flags %#x = %s", quote(p).c_str(), fl, ENAME(s)); if(fl & ~EVFS_READ) { REQUIRE(s < 0, "open %s with flags %#x succeeds while read only", quote(p).c_str(), fl); tries++; } if(s == EVFS_OK) { char b[10]; evfs_file_read(f, b, 10); REQUIRE(evfs_file_write(f, "x", 1) < 0, "write"); evfs_file_close(f); } break; }
    case 1: c.note("delete %s", quote(p).c_str()); REQUIRE(evfs_delete_ex(p.c_str(), F) < 0, "delete succeeds while read only"); tries++; break;
    case 2: { std::string r = any_path(c); c.note("rename %s", quote(p).c_str()); REQUIRE(evfs_rename_ex(p.c_str(), r.c_str(), F) < 0, "rename succeeds while read only"); tries++; break; }
    case 3: c.note("make_dir %s", quote(p).c_str()); REQUIRE(evfs_make_dir_ex(p.c_str(), F) < 0, "make_dir succeeds while read only"); tries++; break;
    case 4: if(held) { c.note("write"); REQUIRE(evfs_file_write(held, "zz", 2) < 0, "write succeeds while read only"); tries++; } break;
    case 5: if(held) { c.note("truncate"); REQUIRE(evfs_file_truncate(held, 0) < 0, "truncate succeeds while read only"); tries++; } break;
    default: { EvfsInfo in; evfs_stat_ex(p.c_str(), &in, F); evfs_existing_dir_ex(p.c_str(), F); std::string x; dump_fs(F, vol(v.drv) + "/", "", x); break; } } 
    REQUIRE(v.host.at("/img")->data == snap, "the image changes while read only"); }
  if(held) evfs_file_close(held); REQUIRE(v.host.at("/img")->data == snap, "the image changes while read only"); unsigned off = 0; REQUIRE(evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &off, F) == EVFS_OK, "unset read only"); REQUIRE(evfs_delete_ex(names()[0].c_str(), F) == EVFS_OK, "delete after read only mode");
  c.nontrivial(tries >= 2); v.unmount(); evfs_unregister_all();
}
const pbt::Prop pbt::props[] = {
  {"F23.model", model_full, 20000, 300000, 5, 20, ""},
  {"E33.fat", model_oom, 20000, 300000, 5, 20, ""},
  {"F23.two", two, 16000, 200000, 5, 20, ""},
  {"F23.image", image, 12000, 150000, 5, 20, ""},
  {"F23.faults", faults, 20000, 300000, 5, 20, ""},
  {"F23.full", full, 3000, 30000, 5, 20, ""},
  {"S10.fat", readonly, 12000, 100000, 5, 20, ""},
  {nullptr, nullptr, 0, 0, 0, 0, nullptr}
};
