// The littlefs driver and its image files, over a stand-in for littlefs itself.
#include "fsdiff.h"
#include "lfs_mock.h"
extern "C" {
#include "evfs/littlefs_fs.h"
#include "evfs/littlefs_image.h"
}
using namespace pbt;
typedef std::vector<uint8_t> Bytes;
void pbt::harness_setup() { evfs_init(); }
static const char *L = "lfs";
static void clean_mock() { LfsMock::violation().clear(); LfsMock::fail_at() = -1; LfsMock::calls() = 0; LfsMock::failed() = false; }
static void no_violation() { REQUIRE(LfsMock::violation().empty(), "the driver breaks a precondition of littlefs: %s", LfsMock::violation().c_str()); }
static const std::vector<std::string> &names() { static const std::vector<std::string> n = {"a", "b", "c.txt", "dd", "E e", "..x", "a longer name.data", "x+y"}; return n; }
static std::string any_path(Case &c) {
  std::string s = c.chance(60) ? "/" : ""; size_t n = s.empty() ? 1 + c.below(3) : c.weighted({5, 50, 35, 10});
  for(size_t i = 0; i < n; i++) { if(!s.empty() && s.back() != '/' && s.back() != '\\') s += c.chance(8) ? "\\" : c.chance(5) ? "//" : "/"; if(c.chance(7)) s += "./"; if(c.chance(6)) s += c.pick({"a/../", "../", "dd/..\\"}); s += c.chance(2) ? std::string(100 + c.below(100), 'n') : c.pick(names()); } return s;
}
static const std::vector<int> FLAGS = { EVFS_READ, EVFS_READ, EVFS_RDWR, EVFS_RDWR, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_READ|EVFS_OPEN_OR_NEW, EVFS_WRITE|EVFS_NO_EXIST, EVFS_RDWR|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OVERWRITE, EVFS_WRITE|EVFS_OVERWRITE, EVFS_WRITE,
  EVFS_WRITE|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_APPEND|EVFS_OPEN_OR_NEW, EVFS_WRITE|EVFS_APPEND|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_APPEND|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OVERWRITE|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OPEN_OR_NEW|EVFS_NO_EXIST };
// A volume in an image file or on a device of its own
struct Vol {
  MemFs host{"host"}; bool image = true, mounted = false; lfs_t lfs; LittlefsImage img; struct lfs_config cfg; Bytes ram; std::string path = "/img";
  static int r_read(const lfs_config *c, lfs_block_t b, lfs_off_t o, void *p, lfs_size_t n) { auto v = (Vol *)c->context; memcpy(p, &v->ram[b * c->block_size + o], n); return 0; }
  static int r_prog(const lfs_config *c, lfs_block_t b, lfs_off_t o, const void *p, lfs_size_t n) { auto v = (Vol *)c->context; memcpy(&v->ram[b * c->block_size + o], p, n); return 0; }
  static int r_erase(const lfs_config *c, lfs_block_t b) { auto v = (Vol *)c->context; std::fill_n(v->ram.begin() + b * c->block_size, c->block_size, 0xff); return 0; }
  static int r_sync(const lfs_config *) { return 0; }
  Vol() { memset(&lfs, 0, sizeof lfs); memset(&img, 0, sizeof img); clean_mock(); }
  void geometry(Case &c, bool in_image) { image = in_image; memset(&cfg, 0, sizeof cfg); cfg.read_size = c.pick({1, 16, 64}); cfg.prog_size = c.pick({1, 16, 64}); cfg.block_size = c.pick({512, 4096}); cfg.block_count = cfg.block_size == 512 ? 400 : 50; cfg.cache_size = 512; cfg.lookahead_size = 16; cfg.block_cycles = -1;
    if(image) { cfg.context = &img; cfg.read = littlefs_image_read; cfg.prog = littlefs_image_prog; cfg.erase = littlefs_image_erase; cfg.sync = littlefs_image_sync; } else { cfg.context = this; cfg.read = r_read; cfg.prog = r_prog; cfg.erase = r_erase; cfg.sync = r_sync; } }
  template<class F> int maybe(Oom *o, Case *c, const char *op, F f) { return o ? (int)o->call(*c, op, f) : f(); }
  int make(Oom *o = nullptr, Case *c = nullptr) { if(image) { host.reg(true); host.style = RootStyle::Posix; return maybe(o, c, "make_image", [&] { return littlefs_make_image(path.c_str(), &cfg); }); } ram.assign(cfg.block_size * cfg.block_count, 0xff); lfs_t t; return lfs_format(&t, &cfg); }
  int mount(Oom *o = nullptr, Case *c = nullptr) { int s = maybe(o, c, "mount_image", [&] { return image ? littlefs_mount_image(path.c_str(), &cfg, &lfs) : lfs_mount(&lfs, &cfg); }); mounted = s == EVFS_OK; if(mounted) { int r = maybe(o, c, "register", [&] { return evfs_register_littlefs(L, &lfs, false); }); REQUIRE(r == EVFS_OK, "register_littlefs = %s", ENAME(r)); } return s; }
  void unmount() { if(!mounted) return; mounted = false; evfs_unregister(evfs_find_vfs(L)); if(image) littlefs_unmount_image(&lfs); else lfs_unmount(&lfs); }
  std::string dump() { return LfsMock::dump(LfsMock::fs(&lfs)->root); }
  void done() { host.fail_at = -1; LfsMock::fail_at() = -1; unmount(); evfs_unregister_all(); REQUIRE(host.open_files == 0, "the image is still open"); no_violation(); REQUIRE(LfsMock::live() == 0, "%d littlefs objects are still open", LfsMock::live()); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live()); }
  ~Vol() { host.fail_at = -1; LfsMock::fail_at() = -1; unmount(); evfs_unregister_all(); LfsMock::live() = 0; }
};
static void config(FsDiff &d, Case &c, MemFs &m) {
  d.exact = false; d.mtime = false; d.dir_atomic = true; d.fctrl = false; d.sync_first = true; d.stat_name = false; d.min_io = 1; d.max_io = c.chance(20) ? 4000 : 200;
  d.path = [&]() { std::string p = any_path(c); size_t n = p.size(); for(auto &x : m.cwd) n += x.size() + 1; return n < 230 ? p : std::string("/a"); }; d.flags = [&]() { return c.pick(FLAGS); };
  d.open_ok = [&](const std::string &p) { NodeP n = m.at(m.resolve(p.c_str())); return !n || !n->opens; };
  d.skip = [&](const std::string &p) { auto r = m.resolve(p.c_str()); auto &w = m.cwd; if(r.size() <= w.size() && std::equal(r.begin(), r.end(), w.begin())) return true; NodeP n = m.at(r); return n && n->opens > 0; };
  d.rename_ok = [&](const std::string &p, const std::string &q) { auto a = m.resolve(p.c_str()), b = m.resolve(q.c_str()); return !m.at(b) && !(b.size() >= a.size() && std::equal(a.begin(), a.end(), b.begin())); };
  d.fop_ok = [](FsDiff::Slot &s, int op) { return op == 0 ? (s.flags & EVFS_READ) != 0 : op == 1 || op == 6 ? (s.flags & EVFS_WRITE) != 0 : true; };
  d.opened_hook = [](FsDiff::Slot &s) { if(s.flags & EVFS_APPEND) { evfs_file_seek(s.a, 0, EVFS_SEEK_TO); evfs_file_seek(s.b, 0, EVFS_SEEK_TO); } }; // the first position of an appending file is not specified
  d.odd_seek = true; d.seek_ok = [](FsDiff::Slot &s, long off, EvfsSeekDir o) { long t = o == EVFS_SEEK_TO ? off : o == EVFS_SEEK_REL ? evfs_file_tell(s.b) + off : evfs_file_size(s.b) - off; return t >= 0; };
  d.after = [](const char *) { no_violation(); };
}
// Accesses which the open mode excludes fail and change nothing
static void wrong_mode(Case &c, FsDiff &d) {
  FsDiff::Slot &s = d.f[c.below(3)]; if(!s.a) return; char b[5]; long t = evfs_file_tell(s.a), z = evfs_file_size(s.a);
  if(!(s.flags & EVFS_READ)) { c.note("read from %s", quote(s.p).c_str()); ptrdiff_t k = evfs_file_read(s.a, b, 5); REQUIRE(k < 0, "read of a file open only for writing = %td", k); }
  else if(!(s.flags & EVFS_WRITE)) { c.note("write to %s", quote(s.p).c_str()); ptrdiff_t k = c.chance(50) ? evfs_file_write(s.a, "12345", 5) : evfs_file_truncate(s.a, 1); REQUIRE(k < 0, "change of a file open only for reading = %td", k); }
  no_violation(); REQUIRE(evfs_file_tell(s.a) == t && evfs_file_size(s.a) == z, "position or size change");
}
static void model(Case &c, bool oom) {
  Lib lib; Vol v; Oom o; o.on = oom; o.snapshot = [&] { return v.host.dump(); }; v.geometry(c, c.chance(65)); { int s = v.make(&o, &c); REQUIRE(s == EVFS_OK, "make = %s", ENAME(s)); } v.host.partial = c.chance(25); v.host.partial_rng = c.byte() + 1;
  MemFs m("mem"); m.reg(false); { int s = v.mount(&o, &c); REQUIRE(s == EVFS_OK, "mounting a formatted volume = %s", ENAME(s)); }
  size_t sessions = 1 + c.below(3); int muts = 0, reads = 0, hits = 0;
  for(size_t k = 0; k < sessions; k++) {
    unsigned dots = c.chance(40); if(dots) { REQUIRE(evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &dots, L) == EVFS_OK, "set no dir dots"); }
    FsDiff d(c, L, "mem"); config(d, c, m); d.no_dots = dots; d.oom.on = oom; d.oom.snapshot = [&] { return v.dump(); }; size_t n = 6 + c.size(40);
    for(size_t i = 0; i < n; i++) { d.step(); if(c.chance(8)) wrong_mode(c, d); }
    d.finish(); muts += d.ok_mut; reads += d.ok_reads; hits += d.oom.errors;
    c.note("unmount"); if(c.chance(30)) { std::string x = v.dump(), y = m.dump(); REQUIRE(x == y, "before unmounting:\n%s\nmodel:\n%s", quote(x).c_str(), quote(y).c_str()); } v.unmount(); REQUIRE(v.host.open_files == 0, "the image is still open"); int s = v.mount(); REQUIRE(s == EVFS_OK, "mounting again = %s", ENAME(s)); m.cwd.clear();
    std::string x = v.dump(), y = m.dump(); REQUIRE(x == y, "after mounting again:\n%s\nmodel:\n%s", quote(x).c_str(), quote(y).c_str());
  }
  c.nontrivial(muts >= 3 && reads >= 1 && (!oom || hits >= 1)); v.done();
}
static void model_full(Case &c) { model(c, false); }
static void model_oom(Case &c) { model(c, true); }
// Image creation and mounting
static void image(Case &c) {
  Lib lib; Vol v; MemFs &h = v.host; v.geometry(c, true); h.reg(true); h.partial = c.chance(30); h.partial_rng = c.byte() + 1; h.put("/keep", "abc", 3); h.mk("/dir", true); std::string before = h.dump();
  v.path = c.pick({"/img", "/img", "img", "/dir/img", "/keep", "/none/img", "/dir"}); bool bad_place = v.path == "/keep" || v.path == "/none/img" || v.path == "/dir";
  if(c.chance(15)) v.cfg.block_count = c.pick({2u, 3u, 20000000u}); long size = (long)v.cfg.block_size * v.cfg.block_count; bool huge = size > 2147483647L;
  bool fault = c.chance(45) && !huge; long bad_format = c.chance(15); if(fault) { h.fail_ops = {"open", "read", "write", "seek", "sync", "close"}; h.fail_at = 1 + c.size(30); h.fail_sticky = c.chance(20); }
  if(bad_format) LfsMock::fail_at() = 1;
  c.note("make_image %s, %u blocks of %u bytes%s", v.path.c_str(), v.cfg.block_count, v.cfg.block_size, fault ? ", with a fault" : "");
  int s = littlefs_make_image(v.path.c_str(), &v.cfg); bool hit = h.failed; std::string at = h.failed_op; bool sticky = h.fail_sticky; bool lf = LfsMock::failed(); h.fail_at = -1; h.failed = false; h.fail_sticky = false; clean_mock();
  REQUIRE(h.open_files == 0, "%d files are still open", h.open_files); REQUIRE(s != EVFS_OK || !v.img.fh, "the image structure refers to a closed file");
  if(s != EVFS_OK) { REQUIRE(hit || bad_place || huge || lf, "make_image = %s", ENAME(s)); std::string after = h.dump(); REQUIRE(after == before || (hit && sticky), "a failed make_image leaves %zu bytes behind", after.size() - before.size()); c.nontrivial(hit || lf || huge); }
  else { REQUIRE(!hit && !bad_place && !lf && !huge, "make_image of %s succeeds%s", v.path.c_str(), hit ? (" despite a failed " + at).c_str() : ""); NodeP n = h.at(h.resolve(v.path.c_str())); REQUIRE(n && (long)n->data.size() == size, "the image has %zu of %ld bytes", n ? n->data.size() : 0, size); }
  if(s == EVFS_OK) {
    Bytes orig = h.at(h.resolve(v.path.c_str()))->data; c.nontrivial(true);
    { int t = littlefs_make_image(v.path.c_str(), &v.cfg); REQUIRE(t != EVFS_OK || h.at(h.resolve(v.path.c_str()))->data == orig, "making an existing image changes it"); REQUIRE(h.at(h.resolve(v.path.c_str()))->data == orig, "making an existing image changes it"); REQUIRE(h.open_files == 0, "open files"); }
    bool mf = c.chance(40), wrong = c.chance(20), lfs_err = c.chance(15); struct lfs_config good = v.cfg; if(wrong) { if(c.chance(50)) v.cfg.block_count += 1 + (lfs_size_t)c.below(5); else v.cfg.block_size *= 2; }
    if(mf) { h.op_no = 0; h.fail_ops = {"open", "read", "seek"}; h.fail_at = 1 + c.size(8); h.fail_sticky = c.chance(20); } if(lfs_err) LfsMock::fail_at() = LfsMock::calls() + 1;
    int m = v.mount(); bool mh = h.failed; h.fail_at = -1; h.failed = false; bool ml = LfsMock::failed(); clean_mock(); c.note("mount = %s", ENAME(m));
    REQUIRE((m == EVFS_OK) == (!mh && !wrong && !ml), "mounting a formatted image = %s%s%s", ENAME(m), mh ? " despite a fault" : "", wrong ? " with another geometry" : ""); REQUIRE(h.at(h.resolve(v.path.c_str()))->data == orig, "mounting changes the image");
    if(m != EVFS_OK) { REQUIRE(h.open_files == 0, "a failed mount leaves the image open"); v.cfg = good; m = v.mount(); REQUIRE(m == EVFS_OK, "mounting after a failed mount = %s", ENAME(m)); }
    EvfsFile *f = nullptr; std::string d(1 + c.size(900), 'q'); if(size > 20000) { int o = evfs_open_ex("new", &f, EVFS_WRITE | EVFS_NO_EXIST, L); REQUIRE(o == EVFS_OK, "open on a new image = %s", ENAME(o)); ptrdiff_t k = evfs_file_write(f, d.data(), d.size()); REQUIRE(k == (ptrdiff_t)d.size(), "write of %zu bytes = %td", d.size(), k); o = evfs_file_close(f); REQUIRE(o == EVFS_OK, "close = %s", ENAME(o));
      v.unmount(); REQUIRE(h.open_files == 0, "the image is still open"); m = v.mount(); REQUIRE(m == EVFS_OK, "mount again = %s", ENAME(m)); std::string x = v.dump(); REQUIRE(x == "/new " + std::to_string(d.size()) + ":" + d + "\n", "contents %s", quote(x).c_str()); }
  } else if(c.chance(50)) { // things that are not images
    Bytes g = c.blob(c.size(3000)); if(c.chance(50) && !huge && size < 300000) g.resize((size_t)size); h.put("/garbage", g); v.path = c.pick({"/garbage", "/nofile", "/dir"}); c.note("mount %s", v.path.c_str()); int m = v.mount(); REQUIRE(m != EVFS_OK, "mounting %s succeeds", v.path.c_str()); REQUIRE(h.open_files == 0, "a failed mount leaves a file open"); REQUIRE(h.at("/garbage")->data == g, "mounting changes the file"); c.nontrivial(true);
  }
  v.done();
}
// The block device on an image file: done completely or reported
static void io(Case &c) {
  Lib lib; Vol v; MemFs &h = v.host; v.geometry(c, true); v.cfg.block_count = 1 + (lfs_size_t)c.below(20); size_t bs = v.cfg.block_size; h.reg(true); Bytes m = c.blob(200); m.resize(bs * v.cfg.block_count); h.put("/img", m); REQUIRE(evfs_open("/img", &v.img.fh, EVFS_RDWR) == EVFS_OK, "open"); h.partial = c.chance(50); h.partial_rng = c.byte() + 1;
  size_t n = 3 + c.size(25); long at = c.chance(60) ? (long)c.below(n) : -1; bool hit = false; int wr = 0; std::vector<bool> doubt(m.size());
  for(size_t i = 0; i < n; i++) { if((long)i == at) { h.op_no = 0; h.fail_ops = c.pick({std::set<std::string>{"seek"}, std::set<std::string>{"read", "write", "seek", "sync"}}); h.fail_at = 1 + (long)c.below(4); }
    lfs_block_t b = (lfs_block_t)c.below(v.cfg.block_count); lfs_off_t o = (lfs_off_t)c.below(bs); lfs_size_t k = 1 + (lfs_size_t)c.below(bs - o); bool before = h.failed; size_t p = b * bs + o; int s;
    switch(c.below(4)) {
    case 0: { Exact x(k); memset(x.p, 0x5a, k); s = v.cfg.read(&v.cfg, b, o, x.p, k); c.note("read %u+%u %u = %d", b, o, k, s); if(s == 0) { REQUIRE(h.failed == before, "read succeeds despite a failed %s", h.failed_op.c_str()); for(size_t j = 0; j < k; j++) REQUIRE(doubt[p + j] || x.p[j] == m[p + j], "block %u offset %zu reads %02x, not %02x", b, o + j, x.p[j], m[p + j]); } break; }
    case 1: { auto d = c.blob(k); s = v.cfg.prog(&v.cfg, b, o, d.data(), k); c.note("prog %u+%u %u = %d", b, o, k, s); wr++; if(s == 0) { REQUIRE(h.failed == before, "prog succeeds despite a failed %s", h.failed_op.c_str()); for(size_t j = 0; j < k; j++) { m[p + j] = d[j]; doubt[p + j] = false; } } else for(size_t j = 0; j < k; j++) doubt[p + j] = true; break; }
    case 2: s = v.cfg.erase(&v.cfg, b); c.note("erase %u = %d", b, s); for(size_t j = 0; j < bs; j++) doubt[b * bs + j] = true; break;
    default: s = v.cfg.sync(&v.cfg); c.note("sync = %d", s); if(s == 0) REQUIRE(h.failed == before, "sync succeeds despite a failed %s", h.failed_op.c_str()); break; }
    if(s) { REQUIRE(s < 0 && h.failed, "= %d without a reason", s); } hit |= h.failed; auto &d = h.at("/img")->data; REQUIRE(d.size() == m.size(), "the image grows to %zu bytes", d.size()); for(size_t j = 0; j < m.size(); j++) REQUIRE(doubt[j] || d[j] == m[j], "byte %zu of the image is %02x, not %02x", j, d[j], m[j]); }
  c.nontrivial(wr >= 2 && (at < 0 || hit)); h.fail_at = -1; evfs_file_close(v.img.fh); v.done();
}
// Errors of littlefs or of the file which holds the image
static void faults(Case &c) {
  Lib lib; Vol v; v.geometry(c, c.chance(75)); { int s = v.make(); REQUIRE(s == EVFS_OK, "make = %s", ENAME(s)); } REQUIRE(v.mount() == EVFS_OK, "mount"); std::map<std::string, std::string> kept; std::set<std::string> dirs; std::set<std::string> doubt; MemFs &h = v.host; h.partial = c.chance(25); h.partial_rng = c.byte() + 1; auto N = [&]() { return c.pick(names()); };
  size_t n = 3 + c.size(20); long at = (long)c.below(n); bool hit = false; int done = 0; bool by_lfs = !v.image || c.chance(60); auto failed = [&]() { return h.failed || LfsMock::failed(); };
  auto arm = [&]() { if(by_lfs) { LfsMock::fail_at() = LfsMock::calls() + 1 + c.size(12); LfsMock::fail_err() = c.pick({(int)LFS_ERR_CORRUPT, (int)LFS_ERR_NOMEM, (int)LFS_ERR_IO, (int)LFS_ERR_NOSPC}); c.note("littlefs fails"); return; } h.op_no = 0; h.failed = false; h.fail_ops = c.pick({std::set<std::string>{"read"}, std::set<std::string>{"write"}, std::set<std::string>{"seek"}, std::set<std::string>{"read", "write", "seek", "sync"}, std::set<std::string>{"sync"}}); h.fail_at = 1 + c.size(c.chance(50) ? 8 : 60); h.fail_sticky = c.chance(30); c.note("fault at operation %ld%s", h.fail_at, h.fail_sticky ? ", permanent" : ""); };
  for(size_t i = 0; i < n && !hit; i++) {
    if((long)i == at) arm(); bool bad = false; std::set<std::string> touched; std::string p = N(); bool in_dir = c.chance(40); std::string dir = in_dir && !dirs.empty() ? *std::next(dirs.begin(), (long)c.below(dirs.size())) : ""; if(!dir.empty()) p = dir + "/" + p; bool is_dir = dirs.count(p) > 0;
    auto ck = [&](const char *what, ptrdiff_t r) { c.note("%s %s = %ld", what, quote(p).c_str(), (long)r); no_violation(); if(r < 0) { REQUIRE(failed(), "%s = %s without a reason", what, ENAME(r)); REQUIRE(r != EVFS_ERR_NO_FILE && r != EVFS_ERR_EXISTS, "%s = %s after a fault", what, ENAME(r)); bad = true; } else if(!bad && v.image && (!strcmp(what, "close") || !strcmp(what, "sync") || !strcmp(what, "delete") || !strcmp(what, "make_dir") || !strcmp(what, "rename"))) REQUIRE(!MemFs::unsynced(h.at("/img")), "after %s the image file has data which is not synced", what); return r >= 0; };
    switch(c.weighted({40, 12, 10, 10, 20, 12})) {
    case 0: { if(is_dir) break; touched.insert(p); std::string d; EvfsFile *f = nullptr; bool app = c.chance(30) && kept.count(p); if(app) d = kept[p]; if(!ck("open", evfs_open_ex(p.c_str(), &f, app ? EVFS_RDWR | EVFS_APPEND : EVFS_RDWR | EVFS_OVERWRITE, L))) break;
      size_t w = 1 + c.below(6); for(size_t j = 0; j < w && !bad; j++) { auto b = c.blob(1 + c.size(600)); ptrdiff_t k = evfs_file_write(f, b.data(), b.size()); if(!ck("write", k)) break; REQUIRE(k == (ptrdiff_t)b.size(), "write of %zu bytes = %td", b.size(), k); d.append((char *)b.data(), b.size()); if(c.chance(15)) ck("sync", evfs_file_sync(f)); }
      if(!bad && c.chance(25)) { size_t t = c.below(d.size() + 1); if(ck("truncate", evfs_file_truncate(f, (evfs_off_t)t))) d.resize(t); }
      if(!bad && c.chance(30)) { size_t t = c.below(d.size() + 1); bool rev = c.chance(40); if(ck("seek", evfs_file_seek(f, (evfs_off_t)(rev ? d.size() - t : t), rev ? EVFS_SEEK_REV : EVFS_SEEK_TO))) { REQUIRE(evfs_file_tell(f) == (evfs_off_t)t, "tell %ld, not %zu", (long)evfs_file_tell(f), t); std::string g(d.size() - t + 10, 0); ptrdiff_t k = evfs_file_read(f, &g[0], g.size()); if(ck("read", k)) REQUIRE(k == (ptrdiff_t)(d.size() - t) && g.compare(0, (size_t)k, d, t, std::string::npos) == 0, "reads %td bytes at %zu", k, t); } }
      ck("close", evfs_file_close(f)); if(!bad) { REQUIRE(!failed() , "a failed %s is not reported", LfsMock::failed() ? LfsMock::failed_call().c_str() : h.failed_op.c_str()); kept[p] = d; done++; } break; }
    case 1: { if(is_dir || !kept.count(p)) break; touched.insert(p); if(ck("delete", evfs_delete_ex(p.c_str(), L))) { kept.erase(p); done++; } break; }
    case 2: { if(is_dir || kept.count(p)) break; touched.insert(p); if(ck("make_dir", evfs_make_dir_ex(p.c_str(), L))) { dirs.insert(p); done++; } break; }
    case 3: { std::string q = N(); if(!kept.count(p) || kept.count(q) || dirs.count(q)) break; touched.insert(p); touched.insert(q); if(ck("rename", evfs_rename_ex(p.c_str(), q.c_str(), L))) { kept[q] = kept[p]; kept.erase(p); done++; } break; }
    case 4: { if(kept.empty()) break; auto it = std::next(kept.begin(), (long)c.below(kept.size())); p = it->first; EvfsFile *f = nullptr; if(!ck("open", evfs_open_ex(p.c_str(), &f, EVFS_READ, L))) { bad = false; break; } std::string g; size_t st = 1 + c.size(700); std::string b(st, 0); int tries = 0; for(;;) { ptrdiff_t k = evfs_file_read(f, &b[0], st); if(!ck("read", k)) { if(tries++ > 2) break; continue; } if(k == 0) break; g.append(b, 0, (size_t)k); }
      REQUIRE(it->second.compare(0, g.size(), g) == 0 && (bad || g == it->second), "%s reads %s, expected %s", quote(p).c_str(), quote(g).c_str(), quote(it->second).c_str()); ck("close", evfs_file_close(f)); bad = false; break; }
    default: { EvfsDir *dh = nullptr; p = "/"; if(!ck("open_dir", evfs_open_dir_ex(p.c_str(), &dh, L))) { bad = false; break; } std::set<std::string> e, w; EvfsInfo in; int s; while((s = evfs_dir_read(dh, &in)) == EVFS_OK) { std::string nm = in.name; if(nm != "." && nm != "..") e.insert(nm); }
      if(s == EVFS_DONE && c.chance(40)) { if(ck("rewind", evfs_dir_rewind(dh))) { e.clear(); while((s = evfs_dir_read(dh, &in)) == EVFS_OK) { std::string nm = in.name; if(nm != "." && nm != "..") e.insert(nm); } } } ck("dir_close", evfs_dir_close(dh)); if(s != EVFS_DONE) ck("dir_read", s); for(auto &x : kept) if(x.first.find('/') == std::string::npos) w.insert(x.first); for(auto &x : dirs) if(x.find('/') == std::string::npos) w.insert(x); if(!bad) REQUIRE(e == w, "a complete listing has %zu of %zu entries", e.size(), w.size());
      p = N(); bool was = failed(); int st = evfs_stat_ex(p.c_str(), &in, L); if(st == EVFS_OK) { REQUIRE(w.count(p), "stat finds %s", quote(p).c_str()); if(kept.count(p)) REQUIRE((size_t)in.size == kept[p].size(), "stat size"); } else if(failed() == was) REQUIRE(!w.count(p), "stat %s = %s", quote(p).c_str(), ENAME(st)); else REQUIRE(!w.count(p) || st != EVFS_ERR_NO_FILE, "an error makes %s look missing", quote(p).c_str()); bad = false; break; }
    }
    if(bad || failed()) { hit = true; doubt = touched; }
  }
  bool seen = failed(); h.fail_at = -1; h.failed = false; h.partial = false; clean_mock(); c.note("mount again"); v.unmount(); REQUIRE(h.open_files == 0, "the image is still open"); { int s = v.mount(); REQUIRE(s == EVFS_OK, "mount after errors = %s", ENAME(s)); }
  for(auto &k : kept) { if(doubt.count(k.first)) continue; EvfsFile *f = nullptr; int s = evfs_open_ex(k.first.c_str(), &f, EVFS_READ, L); REQUIRE(s == EVFS_OK, "%s, written without errors: open = %s", quote(k.first).c_str(), ENAME(s)); std::string g(k.second.size() + 10, 0); ptrdiff_t r = evfs_file_read(f, &g[0], g.size()); REQUIRE(r == (ptrdiff_t)k.second.size() && !g.compare(0, (size_t)r, k.second), "%s, written without errors, reads %td bytes", quote(k.first).c_str(), r); evfs_file_close(f); }
  for(auto &d : dirs) REQUIRE(doubt.count(d) || evfs_existing_dir_ex(d.c_str(), L), "directory %s is lost", quote(d).c_str());
  c.nontrivial(seen && done >= 2); v.done();
}
// A read-only instance changes nothing
static void readonly(Case &c) {
  Lib lib; Vol v; v.geometry(c, c.chance(50)); REQUIRE(v.make() == EVFS_OK, "make"); REQUIRE(v.mount() == EVFS_OK, "mount"); for(int i = 0; i < 3; i++) { std::string p = names()[(size_t)i]; EvfsFile *f = nullptr; if(i == 1) { evfs_make_dir_ex(p.c_str(), L); p += "/in"; } REQUIRE(evfs_open_ex(p.c_str(), &f, EVFS_WRITE | EVFS_NO_EXIST, L) == EVFS_OK, "open"); auto b = c.blob(1 + c.size(700)); evfs_file_write(f, b.data(), b.size()); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); }
  EvfsFile *held = nullptr; if(c.chance(50)) { REQUIRE(evfs_open_ex(names()[0].c_str(), &held, EVFS_RDWR, L) == EVFS_OK, "open"); }
  unsigned on = 1; REQUIRE(evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, L) == EVFS_OK, "set read only"); std::string snap = v.dump(); size_t n = 3 + c.size(20); int tries = 0;
  for(size_t i = 0; i < n; i++) { std::string p = any_path(c); switch(c.below(7)) {
    case 0: { EvfsFile *f = nullptr; int fl = c.pick(FLAGS); if(c.chance(10)) fl = EVFS_READ | EVFS_NO_EXIST; int s = evfs_open_ex(p.c_str(), &f, fl, L); c.note("open %s flags %#x = %s", quote(p).c_str(), fl, ENAME(s)); if(fl & ~EVFS_READ) { REQUIRE(s < 0, "open %s with flags %#x succeeds while read only", quote(p).c_str(), fl); tries++; } if(s == EVFS_OK) { char b[10]; evfs_file_read(f, b, 10); REQUIRE(evfs_file_write(f, "x", 1) < 0, "write"); evfs_file_close(f); } break; }
    case 1: c.note("delete %s", quote(p).c_str()); REQUIRE(evfs_delete_ex(p.c_str(), L) < 0, "delete succeeds while read only"); tries++; break;
    case 2: { std::string r = any_path(c); c.note("rename %s", quote(p).c_str()); REQUIRE(evfs_rename_ex(p.c_str(), r.c_str(), L) < 0, "rename succeeds while read only"); tries++; break; }
    case 3: c.note("make_dir %s", quote(p).c_str()); REQUIRE(evfs_make_dir_ex(p.c_str(), L) < 0, "make_dir succeeds while read only"); tries++; break;
    case 4: if(held) { c.note("write"); REQUIRE(evfs_file_write(held, "zz", 2) < 0, "write succeeds while read only"); tries++; } break;
    case 5: if(held) { c.note("truncate"); REQUIRE(evfs_file_truncate(held, 0) < 0, "truncate succeeds while read only"); tries++; } break;
    default: { EvfsInfo in; evfs_stat_ex(p.c_str(), &in, L); evfs_existing_dir_ex(p.c_str(), L); break; } }
    no_violation(); REQUIRE(v.dump() == snap, "the volume changes while read only"); }
  if(held) { evfs_file_close(held); } REQUIRE(v.dump() == snap, "the volume changes while read only"); unsigned off = 0; REQUIRE(evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &off, L) == EVFS_OK, "unset read only"); REQUIRE(evfs_delete_ex(names()[0].c_str(), L) == EVFS_OK, "delete after read only mode");
  c.nontrivial(tries >= 2); v.done();
}
const pbt::Prop pbt::props[] = {
  {"E33.lfs", model_oom, 15000, 200000, 5, 20, ""},
  {"E33.lfs.bare", model_oom, 15000, 200000, 5, 20, ""},
  {"L25.model", model_full, 15000, 200000, 5, 20, ""},
  {"L25.image", image, 15000, 150000, 5, 20, ""},
  {"L25.io", io, 15000, 150000, 5, 20, ""},
  {"L25.faults", faults, 20000, 300000, 5, 20, ""},
  {"S10.lfs", readonly, 12000, 100000, 5, 20, ""},
  {nullptr, nullptr, 0, 0, 0, 0, nullptr}
};
