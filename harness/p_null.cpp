// Calls with missing arguments are refused and change nothing.
#include "backend.h"
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/littlefs_image.h"
}
extern "C" time_t vp_time(time_t *t) { if(t) *t = now_time; return now_time; }
void pbt::harness_setup() { evfs_init(); setenv("TZ", "UTC0", 1); tzset(); }
static int sink(const char *, void *) { return 0; }
namespace {
enum Kind { INT, NO, ANY, PTR, STR };                    // refused with the bad-argument code; answers no; answers anything; no object; an empty name
struct Args { // hands out the arguments of a call, some of them missing
  unsigned mask = 0, n = 0; bool counting = false;
  template<class T> T *operator()(T *p) { return (mask >> n++ & 1) ? nullptr : p; }
};
struct Entry { const char *name; Kind kind; std::function<long(Args &)> f; };
struct World {
  EvfsFile *file = nullptr, *out = nullptr, *image = nullptr; EvfsDir *dir = nullptr, *dout = nullptr; Evfs *vfs = nullptr; const char *top, *path, *path2; EvfsInfo info; char buf[64], res[EVFS_MAX_PATH], xfer[128]; StringRange r, r2, r3; Evfs extra; RotateConfig rc; lfs_t lfs; struct lfs_config lcfg; LittlefsImage limg; uint8_t rsrc[1024];
  std::vector<Entry> e;
  static Evfs *find(const char *n) { return evfs_find_vfs(n); }
#define DEF(nm, k, ...) e.push_back({nm, k, [this](Args &a) -> long { (void)a; return (long)(__VA_ARGS__); }})
  World() {
    DEF("find_vfs", PTR, evfs_find_vfs(a(top))); DEF("vfs_name", STR, *evfs_vfs_name(a(vfs))); DEF("register", INT, evfs_register(a(&extra), true)); DEF("unregister", INT, evfs_unregister(a(vfs)));
    DEF("open", INT, evfs_open_ex(a(path), a(&out), flags, top)); DEF("stat", INT, evfs_stat_ex(a(path), a(&info), top)); DEF("existing_file", NO, evfs_existing_file_ex(a(path), top)); DEF("existing_dir", NO, evfs_existing_dir_ex(a(path), top));
    DEF("delete", INT, evfs_delete_ex(a(path), top)); DEF("rename", INT, evfs_rename_ex(a(path), a(path2), top)); DEF("make_dir", INT, evfs_make_dir_ex(a(path2), top)); DEF("make_path", INT, evfs_make_path_ex(a(path2), top)); DEF("make_path_range", INT, evfs_make_path_range_ex(a(&r), top));
    DEF("open_dir", INT, evfs_open_dir_ex(a(path), a(&dout), top)); DEF("get_cur_dir", INT, evfs_get_cur_dir_ex(a(&r2), top)); DEF("set_cur_dir", INT, evfs_set_cur_dir_ex(a(path), top));
    DEF("copy_to_file", INT, evfs_copy_to_file_ex(a(path2), a(file), flags & 1 ? nullptr : xfer, sizeof xfer, top)); DEF("vfs_open", INT, evfs_vfs_open(a(vfs), a(path), a(&out), flags)); DEF("vfs_open_dir", INT, evfs_vfs_open_dir(a(vfs), a(path), a(&dout)));
    DEF("path_root_component", NO, evfs_path_root_component_ex(a(path), a(&r2), top)); DEF("path_basename", INT, evfs_path_basename(a(path), a(&r2))); DEF("path_extname", INT, evfs_path_extname(a(path), a(&r2))); DEF("path_dirname", INT, evfs_path_dirname_ex(a(path), a(&r2), top));
    DEF("path_join", INT, evfs_path_join_ex(a(&r), a(&r3), a(&r2), top)); DEF("path_join_str", INT, evfs_path_join_str_ex(a(path), a(path2), a(&r2), top)); DEF("path_normalize", INT, evfs_path_normalize_ex(a(path), a(&r2), top)); DEF("path_absolute", INT, evfs_path_absolute_ex(a(path), a(&r2), top)); DEF("path_is_absolute", NO, evfs_path_is_absolute_ex(a(path), top));
    DEF("vfs_path_dirname", INT, evfs_vfs_path_dirname(a(vfs), a(path), a(&r2))); DEF("vfs_path_join", INT, evfs_vfs_path_join(a(vfs), a(&r), a(&r3), a(&r2))); DEF("vfs_path_join_str", INT, evfs_vfs_path_join_str(a(vfs), a(path), a(path2), a(&r2))); DEF("vfs_path_normalize", INT, evfs_vfs_path_normalize(a(vfs), a(path), a(&r2)));
    DEF("vfs_path_absolute", INT, evfs_vfs_path_absolute(a(vfs), a(path), a(&r2))); DEF("vfs_path_is_absolute", NO, evfs_vfs_path_is_absolute(a(vfs), a(path))); DEF("vfs_scan_path", INT, evfs_vfs_scan_path(a(vfs), path, a(&r2)));
    DEF("file_ctrl", INT, evfs_file_ctrl(a(file), EVFS_CMD_USER_DEFINED, buf)); DEF("file_close", INT, evfs_file_close(a(file))); DEF("file_read", INT, evfs_file_read(a(file), a(buf), len)); DEF("file_write", INT, evfs_file_write(a(file), a((const char *)buf), len)); DEF("file_truncate", INT, evfs_file_truncate(a(file), 1)); DEF("file_sync", INT, evfs_file_sync(a(file)));
    DEF("file_size", INT, evfs_file_size(a(file))); DEF("file_seek", INT, evfs_file_seek(a(file), 0, EVFS_SEEK_TO)); DEF("file_rewind", INT, evfs_file_rewind(a(file))); DEF("file_tell", INT, evfs_file_tell(a(file))); DEF("file_eof", ANY, evfs_file_eof(a(file)));
    DEF("file_printf", INT, evfs_file_printf(a(file), a((const char *)"%d"), 5)); DEF("file_puts", INT, evfs_file_puts(a(file), a((const char *)"text")));
    DEF("dir_close", INT, evfs_dir_close(a(dir))); DEF("dir_read", INT, evfs_dir_read(a(dir), a(&info))); DEF("dir_rewind", INT, evfs_dir_rewind(a(dir))); DEF("dir_find", INT, evfs_dir_find(a(dir), a((const char *)"*"), a(&info)));
    DEF("register_jail", INT, evfs_register_jail(a((const char *)"new"), a(top), a((const char *)"/"), true)); DEF("register_trace", INT, evfs_register_trace(a((const char *)"new"), a(top), a(sink), nullptr, true)); DEF("register_rotate", INT, evfs_register_rotate(a((const char *)"new"), a(top), a(&rc), true));
    DEF("register_tar_fs", INT, evfs_register_tar_fs(a((const char *)"new"), a(image), true)); DEF("register_tar_rsrc_fs", INT, evfs_register_tar_rsrc_fs(a((const char *)"new"), a(rsrc), sizeof rsrc, true)); DEF("register_romfs", INT, evfs_register_romfs(a((const char *)"new"), a(image), true)); DEF("register_rsrc_romfs", INT, evfs_register_rsrc_romfs(a((const char *)"new"), a((const uint8_t *)rsrc), sizeof rsrc, true));
    DEF("register_fatfs", INT, evfs_register_fatfs(a((const char *)"new"), 1, true)); DEF("register_littlefs", INT, evfs_register_littlefs(a((const char *)"new"), a(&lfs), true)); DEF("fatfs_make_image", INT, fatfs_make_image(a(path2), 1, 262144)); DEF("fatfs_mount_image", INT, fatfs_mount_image(a(path2), 1));
    DEF("littlefs_make_image", INT, littlefs_make_image(a(path2), a(&lcfg))); DEF("littlefs_mount_image", INT, littlefs_mount_image(a(path2), a(&lcfg), a(&lfs)));
  }
  int flags = 0; size_t len = 1;
};
}
static void missing(Case &c) {
  blank(); Lib lib; MemFs ref("mem"); Backend b; b.kind = (int)c.below(7); ref.reg(false); b.make(c, ref); now_time = 1800000000; std::string top = b.kind ? b.base : "mem"; bool rot = false; static RotateConfig rc; rc.chunk_size = 64; rc.max_chunks = 3;
  size_t ns = c.below(3); for(size_t i = 0; i < ns; i++) { std::string nm = "s" + std::to_string(i); int s; switch(c.below(rot ? 2 : 3)) { case 0: s = evfs_register_jail(nm.c_str(), top.c_str(), "/", false); break; case 1: s = evfs_register_trace(nm.c_str(), top.c_str(), sink, nullptr, false); break; default: rot = true; s = evfs_register_rotate(nm.c_str(), top.c_str(), &rc, false); } REQUIRE(s == EVFS_OK, "registering a shim = %s", ENAME(s)); top = nm; }
  c.note("kind %d, %zu shims", b.kind, ns); bool tar = b.kind == 3 || b.kind == 4;
  World w; memset(&w.extra, 0, sizeof w.extra); w.extra = ref.vfs; w.extra.vfs_name = "extra"; w.extra.next = nullptr; w.rc = rc; memset(&w.lfs, 0, sizeof w.lfs); memset(&w.limg, 0, sizeof w.limg); w.lcfg = b.kind == 2 ? b.cfg : lfs_config(); w.lcfg.block_size = 4096; w.lcfg.block_count = 16; w.lcfg.context = &w.limg; memset(w.rsrc, 0, sizeof w.rsrc);
  w.top = top.c_str(); w.vfs = evfs_find_vfs(w.top); std::string p = "/", pf; bool isdir = true; std::vector<std::pair<std::string, NodeP>> st = {{"", ref.root}}, all; while(!st.empty()) { auto x = st.back(); st.pop_back(); for(auto &k : x.second->kids) { if(b.arch.special.count(k.second.get())) continue; all.push_back({x.first + "/" + k.first, k.second}); if(k.second->dir) st.push_back(all.back()); } }
  for(auto &x : all) if(!x.second->dir && x.first.size() < 100) pf = x.first;
  if(!all.empty() && c.chance(80)) { auto x = c.pick(all); if(x.first.size() < 100) p = x.first; isdir = p == "/" || x.second->dir; } std::string q = c.chance(50) ? "/new name" : p; w.path = p.c_str(); w.path2 = q.c_str(); (void)isdir;
  if(!pf.empty()) { int s = evfs_open_ex(pf.c_str(), &w.file, b.kind <= 2 && c.chance(60) ? EVFS_RDWR : EVFS_READ, w.top); REQUIRE(s == EVFS_OK, "open %s = %s", pf.c_str(), ENAME(s)); REQUIRE(evfs_open_ex(pf.c_str(), &w.image, EVFS_READ, w.top) == EVFS_OK, "open again"); }
  if(!tar) REQUIRE(evfs_open_dir_ex("/", &w.dir, w.top) == EVFS_OK, "open_dir");
  auto names = [&]() { std::string o = evfs_default_vfs_name(); for(const char *n : {"mem", "host", "fat", "lfs", "arch", "s0", "s1", "new", "extra"}) o += std::string(",") + n + (evfs_find_vfs(n) ? "+" : "-"); return o; };
  long at = 0; if(w.file) { at = (long)c.below(20); REQUIRE(evfs_file_seek(w.file, (evfs_off_t)at, EVFS_SEEK_TO) == EVFS_OK || true, "seek"); at = (long)evfs_file_tell(w.file); }
  std::string regs = names(), cwd; { char d[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(d); if(evfs_get_cur_dir_ex(&r, w.top) == EVFS_OK) cwd = d; }
  std::string before = ref.dump(); auto img = b.host.dump(); Bytes ram = b.ram; ref.log_calls = b.host.log_calls = true;
  size_t n = 8 + c.size(60), kinds = 0; std::set<std::string> seen;
  for(size_t i = 0; i < n; i++) {
    auto &x = w.e[c.below(w.e.size())]; Args a; w.flags = c.pick({EVFS_READ, EVFS_RDWR, EVFS_WRITE | EVFS_NO_EXIST, EVFS_RDWR | EVFS_OVERWRITE, EVFS_RDWR | EVFS_OPEN_OR_NEW}); w.len = c.below(3) * 8; memset(w.res, 0x5a, sizeof w.res); w.r = {p.c_str(), p.c_str() + p.size()}; w.r3 = {q.c_str(), q.c_str() + q.size()}; w.r2 = {w.res, w.res + sizeof w.res}; w.out = nullptr; w.dout = nullptr; memset(&w.info, 0x5a, sizeof w.info); EvfsInfo was = w.info; memset(w.buf, 0x5b, sizeof w.buf);
    // the number of arguments is found by counting with all of them missing, which is itself such a call
    a.mask = ~0u; auto once = [&]() { size_t live = pbt::alloc_live(); ref.calls.clear(); b.host.calls.clear(); a.n = 0; long s = x.f(a); std::string mk; for(unsigned k = 0; k < a.n; k++) mk += (a.mask >> k & 1) ? '-' : 'x'; c.note("%s(%s) = %ld", x.name, mk.c_str(), s);
      switch(x.kind) { case INT: REQUIRE(s == EVFS_ERR_BAD_ARG, "%s(%s) = %s", x.name, mk.c_str(), ENAME(s)); break; case NO: case PTR: case STR: REQUIRE(s == 0, "%s(%s) = %ld", x.name, mk.c_str(), s); break; default: break; }
      REQUIRE(ref.calls.empty() && b.host.calls.empty(), "%s(%s) reached a file system: %s", x.name, mk.c_str(), (ref.calls.empty() ? b.host.calls : ref.calls)[0].op.c_str()); REQUIRE(pbt::alloc_live() == live, "%s(%s): %zu blocks were allocated, now %zu", x.name, mk.c_str(), live, pbt::alloc_live());
      REQUIRE(!w.out && !w.dout, "%s(%s) returned a handle", x.name, mk.c_str()); REQUIRE(!memcmp(&was, &w.info, sizeof was), "%s(%s) described something", x.name, mk.c_str()); for(char ch : w.res) REQUIRE(ch == 0x5a, "%s(%s) wrote to the result", x.name, mk.c_str()); for(char ch : w.buf) REQUIRE(ch == 0x5b, "%s(%s) wrote to the buffer", x.name, mk.c_str()); };
    once(); unsigned m = a.n; if(m > 1) { for(int k = 0; k < 2; k++) { a.mask = 1u << c.below(m); if(c.chance(25)) a.mask |= 1u << c.below(m); once(); } } else if(!m) pbt::fail("%s takes nothing", x.name);
    if(seen.insert(x.name).second && m > 1) kinds++;
  }
  ref.log_calls = b.host.log_calls = false; std::string now = names(); REQUIRE(now == regs, "registered and default file systems were %s, now %s", regs.c_str(), now.c_str());
  REQUIRE(ref.dump() == before && b.host.dump() == img && b.ram == ram, "stored content changed");
  { char d[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(d); if(evfs_get_cur_dir_ex(&r, w.top) == EVFS_OK) REQUIRE(cwd == d, "current directory %s, was %s", d, cwd.c_str()); }
  if(w.file) { REQUIRE((long)evfs_file_tell(w.file) == at, "position %ld, was %ld", (long)evfs_file_tell(w.file), at); auto &d = ref.at(pf)->data; std::string want(d.begin(), d.end()), got(want.size() + 1, '?'); REQUIRE(evfs_file_seek(w.file, 0, EVFS_SEEK_TO) == EVFS_OK, "seek"); size_t k = 0; ptrdiff_t r; while(k < want.size() && (r = evfs_file_read(w.file, &got[k], want.size() - k)) > 0) k += (size_t)r; got.resize(k); REQUIRE(got == want, "content changed"); REQUIRE(evfs_file_close(w.file) == EVFS_OK && evfs_file_close(w.image) == EVFS_OK, "close"); }
  if(w.dir) { EvfsInfo i; std::set<std::string> l, m; int s; while((s = evfs_dir_read(w.dir, &i)) == EVFS_OK) if(strcmp(i.name, ".") && strcmp(i.name, "..")) l.insert(i.name); REQUIRE(s == EVFS_DONE, "dir_read = %s", ENAME(s)); for(auto &k : ref.root->kids) m.insert(k.first); if(b.kind != 5 && b.kind != 6) REQUIRE(l == m, "the listing changed"); REQUIRE(evfs_dir_close(w.dir) == EVFS_OK, "dir_close"); }
  c.nontrivial(kinds >= 5);
}
const pbt::Prop pbt::props[] = { {"N35", missing, 20000, 400000, 10, 20, ""}, {nullptr, nullptr, 0, 0, 0, 0, nullptr} };
