// One file system of any kind behind a common interface: in memory, FatFs in an
// image, littlefs, and tar and romfs archives from files and from memory.
#ifndef BACKEND_H
#define BACKEND_H
#include "arch.h"
#include "lfs_mock.h"
extern "C" {
#include "ff.h"
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
#include "evfs/littlefs_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
}
static time_t now_time = 1700000000;
static const Bytes &blank() {
  static Bytes b; if(!b.empty()) return b;
  MemFs h("blankhost"); h.reg(true); int s = fatfs_make_image("/img", 0, 262144); REQUIRE(s == EVFS_OK, "make_image = %s", ENAME(s)); b = h.at("/img")->data; evfs_unregister(evfs_find_vfs("blankhost")); return b;
}
static const char *NAMES[] = {"a", "b.txt", "long name.data", "Dir", "sub dir", "x+y", "UPPER.TXT", "q"};

struct Backend {
  MemFs host{"host"}; int kind; Arch arch; EvfsFile *img = nullptr; bool fat = false, lmount = false; lfs_t lfs; struct lfs_config cfg; Bytes ram; std::string base;
  static int r_read(const lfs_config *c, lfs_block_t b, lfs_off_t o, void *p, lfs_size_t n) { auto v = (Backend *)c->context; memcpy(p, &v->ram[b * c->block_size + o], n); return 0; }
  static int r_prog(const lfs_config *c, lfs_block_t b, lfs_off_t o, const void *p, lfs_size_t n) { auto v = (Backend *)c->context; memcpy(&v->ram[b * c->block_size + o], p, n); return 0; }
  static int r_erase(const lfs_config *, lfs_block_t) { return 0; }
  static int r_sync(const lfs_config *) { return 0; }
  void make(Case &c, MemFs &ref) {
    host.reg(false); auto ok = [](int s, const char *w) { REQUIRE(s == EVFS_OK, "%s = %s", w, ENAME(s)); };
    ref.root->dir = true;
    if(kind <= 2) { // a generated tree
      size_t n = c.size(10); std::vector<std::string> dirs = {""}; time_t t = 400000000;
      for(size_t i = 0; i < n; i++) { std::string p = c.pick(dirs) + "/" + c.pick(NAMES); if(ref.at(p) || p.size() > 60) continue; bool clash = false; auto q = MemFs::split(p); NodeP par = ref.root; for(size_t k = 0; k + 1 < q.size(); k++) par = par->kids[q[k]]; for(auto &x : par->kids) if(!strcasecmp(x.first.c_str(), q.back().c_str())) clash = true; if(clash) continue;
        bool d = c.chance(35); NodeP x = ref.mk(p, d); if(d) dirs.push_back(p); else x->data = c.blob(c.size(700)); x->mtime = t += 3600 + (time_t)c.below(90000) * 2; c.note("%s%s %zu", p.c_str(), d ? "/" : "", x->data.size()); }
    } else if(kind <= 4) { arch.rsrc = kind == 4; gen_tar(c, arch, ref); } else { arch.rsrc = kind == 6; gen_rom(c, arch, ref); }
    if(kind >= 3 && arch.img.empty()) discard();
    switch(kind) {
    case 0: base = "mem"; break;
    case 1: base = "fat"; host.put("/img", blank()); evfs_register(evfs_find_vfs("host"), true); ok(fatfs_mount_image("/img", 0), "mount"); fat = true; ok(evfs_register_fatfs("fat", 0, false), "register"); break;
    case 2: base = "lfs"; memset(&lfs, 0, sizeof lfs); memset(&cfg, 0, sizeof cfg); cfg.read_size = cfg.prog_size = 16; cfg.block_size = 4096; cfg.block_count = 40; cfg.cache_size = 512; cfg.lookahead_size = 16; cfg.block_cycles = -1; ram.assign(4096 * 40, 0xff);
      cfg.context = this; cfg.read = r_read; cfg.prog = r_prog; cfg.erase = r_erase; cfg.sync = r_sync; { lfs_t t; lfs_format(&t, &cfg); } REQUIRE(lfs_mount(&lfs, &cfg) == 0, "mount"); lmount = true; ok(evfs_register_littlefs("lfs", &lfs, false), "register"); break;
    case 3: base = "arch"; host.put("/i", arch.img); ok(evfs_open_ex("/i", &img, EVFS_READ, "host"), "image"); ok(evfs_register_tar_fs("arch", img, false), "register"); break;
    case 4: base = "arch"; ok(evfs_register_tar_rsrc_fs("arch", arch.img.data(), arch.img.size(), false), "register"); break;
    case 5: base = "arch"; host.put("/i", arch.img); ok(evfs_open_ex("/i", &img, EVFS_READ, "host"), "image"); ok(evfs_register_romfs("arch", img, false), "register"); break;
    default: base = "arch"; ok(evfs_register_rsrc_romfs("arch", arch.img.data(), arch.img.size(), false), "register"); break;
    }
    if(kind == 1 || kind == 2) fill(ref.root, "");
  }
  void fill(const NodeP &n, const std::string &p) {
    for(auto &k : n->kids) { std::string f = p + "/" + k.first; now_time = k.second->mtime;
      if(k.second->dir) { int s = evfs_make_dir_ex(f.c_str(), base.c_str()); REQUIRE(s == EVFS_OK, "make_dir %s = %s", f.c_str(), ENAME(s)); fill(k.second, f); }
      else { EvfsFile *h; int s = evfs_open_ex(f.c_str(), &h, EVFS_WRITE | EVFS_NO_EXIST, base.c_str()); REQUIRE(s == EVFS_OK, "open %s = %s", f.c_str(), ENAME(s)); if(!k.second->data.empty()) REQUIRE(evfs_file_write(h, k.second->data.data(), k.second->data.size()) == (ptrdiff_t)k.second->data.size(), "write"); REQUIRE(evfs_file_close(h) == EVFS_OK, "close"); } }
  }
  void done() { evfs_unregister_all(); if(fat) { fatfs_unmount_image(0); fat = false; } if(lmount) { lfs_unmount(&lfs); lmount = false; } }
  ~Backend() { done(); LfsMock::live() = 0; LfsMock::violation().clear(); }
};
#endif
