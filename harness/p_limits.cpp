// Paths too long and buffers too short on every file system but the host's.
#include "backend.h"
#include "pathlimits.h"
extern "C" time_t vp_time(time_t *t) { if(t) *t = now_time; return now_time; }
void pbt::harness_setup() { evfs_init(); setenv("TZ", "UTC0", 1); tzset(); }
static int sink(const char *, void *) { return 0; }

static NodeP walk_fat(const std::string &p) {
  auto n = std::make_shared<MemNode>(); n->dir = true; DIR d; FILINFO fi; int r = f_opendir(&d, p.c_str()); REQUIRE(r == FR_OK, "f_opendir of %zu characters = %d", p.size(), r);
  while((r = f_readdir(&d, &fi)) == FR_OK && fi.fname[0]) { std::string q = p + "/" + fi.fname, nm = fi.fname; if(fi.fattrib & AM_DIR) { n->kids[nm] = walk_fat(q); continue; }
    auto f = std::make_shared<MemNode>(); FIL h; UINT k; uint8_t b[512]; REQUIRE(f_open(&h, q.c_str(), FA_READ) == FR_OK, "f_open"); while(f_read(&h, b, sizeof b, &k) == FR_OK && k) f->data.insert(f->data.end(), b, b + k); f_close(&h); n->kids[nm] = f; }
  f_closedir(&d); REQUIRE(r == FR_OK, "f_readdir = %d", r); return n;
}
static NodeP walk_lfs(lfs_t *l, const std::string &p) {
  auto n = std::make_shared<MemNode>(); n->dir = true; lfs_dir_t d; lfs_info fi; int r = lfs_dir_open(l, &d, p.empty() ? "/" : p.c_str()); REQUIRE(r == 0, "lfs_dir_open = %d", r);
  while((r = lfs_dir_read(l, &d, &fi)) > 0) { std::string q = p + "/" + fi.name, nm = fi.name; if(nm == "." || nm == "..") continue; if(fi.type == LFS_TYPE_DIR) { n->kids[nm] = walk_lfs(l, q); continue; }
    auto f = std::make_shared<MemNode>(); lfs_file_t h; uint8_t b[512]; lfs_ssize_t k; REQUIRE(lfs_file_open(l, &h, q.c_str(), LFS_O_RDONLY) == 0, "lfs_file_open"); while((k = lfs_file_read(l, &h, b, sizeof b)) > 0) f->data.insert(f->data.end(), b, b + k); lfs_file_close(l, &h); n->kids[nm] = f; }
  lfs_dir_close(l, &d); REQUIRE(r == 0, "lfs_dir_read = %d", r); return n;
}
static void limits(Case &c) {
  blank(); Lib lib; Backend b; b.kind = (int)c.weighted({26, 22, 22, 6, 6, 9, 9}); MemFs ref("mem"); if(b.kind == 0) ref.reg(false); b.make(c, ref); bool rw = b.kind <= 2, tar = b.kind == 3 || b.kind == 4;
  if(rw) { size_t chains = c.weighted({30, 45, 25}); for(size_t i = 0; i < chains; i++) { // directories which are too deep for the longest path
      std::string p; if(c.chance(40)) for(auto &k : ref.root->kids) if(k.second->dir) { p = "/" + k.first; break; } size_t depth = 1 + c.below(5);
      for(size_t d = 0; d < depth; d++) { p += "/" + std::string(20 + c.below(90), (char)('d' + c.below(8))); if(ref.at(p)) break; ref.mk(p, true); int s = b.kind == 1 ? f_mkdir(("0:" + p).c_str()) : b.kind == 2 ? lfs_mkdir(&b.lfs, p.c_str()) : 0; REQUIRE(s == 0, "making a directory = %d", s); }
      if(c.chance(50)) { p += "/deep"; if(ref.at(p)) continue; ref.put(p, "deep down", 9); if(b.kind == 1) { FIL h; UINT k; REQUIRE(f_open(&h, ("0:" + p).c_str(), FA_WRITE | FA_CREATE_NEW) == FR_OK && f_write(&h, "deep down", 9, &k) == FR_OK, "making a file"); f_close(&h); } else if(b.kind == 2) { lfs_file_t h; REQUIRE(lfs_file_open(&b.lfs, &h, p.c_str(), LFS_O_WRONLY | LFS_O_CREAT) == 0, "making a file"); lfs_file_write(&b.lfs, &h, "deep down", 9); lfs_file_close(&b.lfs, &h); } } } }
  MemFs model("model"); model.root = MemFs::clone(ref.root); Limits L(c, model); L.rw = rw; L.top = b.base;
  { EvfsInfo in; c.note("%s, %zu objects in the root, root is a %s", b.base.c_str(), ref.root->kids.size(), evfs_stat_ex("/", &in, b.base.c_str()) == EVFS_OK ? "directory" : "?"); }
  L.raw = [&]() { std::string o; NodeP n = b.kind == 0 ? ref.root : b.kind == 1 ? walk_fat("0:/") : walk_lfs(&b.lfs, ""); MemFs::dump(n, "", o); return o; };
  static RotateConfig rc; rc.chunk_size = 64; rc.max_chunks = 3; size_t shims = c.below(3);
  for(size_t i = 0; i < shims; i++) { std::string nm = "s" + std::to_string(i); int s = 0;
    switch(c.weighted({45, 30, 25})) {
    case 0: { V d; if(!tar) d = L.any(true); std::string p = Limits::join(d); if(p.size() > 150 || L.extra + p.size() > 150) { d.clear(); p = "/"; } s = evfs_register_jail(nm.c_str(), L.top.c_str(), p.c_str(), false); c.note("jail in %s", quote(p).c_str()); L.vr = L.full(d); L.extra += p.size() + 1; break; }
    case 1: s = evfs_register_trace(nm.c_str(), L.top.c_str(), sink, nullptr, false); c.note("trace"); break;
    default: if(L.rot) continue; s = evfs_register_rotate(nm.c_str(), L.top.c_str(), &rc, false); c.note("rotate"); L.rot = true; L.extra += 16; if(!rw) L.opens = false; break;
    }
    REQUIRE(s == EVFS_OK, "registering a shim = %s", ENAME(s)); L.top = nm; }
  if(L.rot) L.opens = false;
  L.check_cwd(); size_t n = 4 + c.size(16); for(size_t i = 0; i < n; i++) L.step(); L.check_cwd(); L.same("all");
  c.nontrivial(L.longs >= 2 && L.refused < L.done && L.done >= 3); if(L.refused) c.label("refused"); c.label(b.base.c_str());
  b.done();
}
const Prop pbt::props[] = { { "P05.limits", limits, 150000, 2000000, 5, 30, "" }, { nullptr, nullptr, 0, 0, 0, 0, nullptr } };
