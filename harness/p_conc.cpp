// Concurrency (builds with thread support): generated operation sequences for
// several threads under generated schedules.  The code runs under
// ThreadSanitizer; a deterministic scheduler decides every context switch.
#include "arch.h"
#include "coop.h"
extern "C" {
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
}
#ifdef CONC_LFS
extern "C" {
#include "evfs/littlefs_fs.h"
#include "evfs/littlefs_image.h"
}
#endif
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN_BUILD 1
#endif
#endif
#ifdef TSAN_BUILD
extern "C" { void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int); void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int); void AnnotateIgnoreSyncBegin(const char *, int); void AnnotateIgnoreSyncEnd(const char *, int); }
static void ign_on() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); AnnotateIgnoreSyncBegin("", 0); }
static void ign_off() { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); }
#else
static void ign_on() {} static void ign_off() {}
#endif
static void hook_enter(int k) { if(k == 1) sched::point(); else ign_on(); }
static void hook_leave() { ign_off(); }
void pbt::harness_setup() { evfs_init(); mem_hooks = {hook_enter, hook_leave}; }

static std::vector<sched::Preempt> gen_plan(Case &c, unsigned nt) {
  std::vector<sched::Preempt> p; size_t n = c.size(14); unsigned reach = c.pick({3u, 8u, 25u, 80u});
  for(size_t i = 0; i < n; i++) p.push_back({(unsigned)c.below(reach), (unsigned)c.below(nt)});
  return p;
}
static std::string plan_str(const std::vector<sched::Preempt> &p) { std::string s; for(auto &x : p) s += " +" + std::to_string(x.after) + "->" + std::to_string(x.to); return s; }

// ---------------------------------------------------------------- operations
struct Op { int k; int slot; std::string path, path2; int flags; long a; Bytes data; };
struct Thread {
  std::string vfs; std::vector<Op> ops; std::vector<std::string> out;
  EvfsFile *f[2] = {nullptr, nullptr}; EvfsDir *d = nullptr; std::string fail;
};
static std::string info_str(const EvfsInfo &i) { return std::to_string((long)i.size) + "/" + std::to_string((int)i.type); }
static std::string exec(Thread &t, const Op &o) {
  const char *v = t.vfs.c_str(); EvfsFile *&f = t.f[o.slot]; char b[900]; int s;
  switch(o.k) {
  case 0: if(f) { s = evfs_file_close(f); f = nullptr; } s = evfs_open_ex(o.path.c_str(), &f, o.flags, v); if(s != EVFS_OK) f = nullptr; return std::to_string(s);
  case 1: { if(!f) return "-"; ptrdiff_t k = evfs_file_read(f, b, (size_t)o.a); std::string r = std::to_string(k) + ":"; if(k > 0) r.append(b, (size_t)k); return r; }
  case 2: if(!f) return "-"; return std::to_string(evfs_file_write(f, o.data.data(), o.data.size()));
  case 3: if(!f) return "-"; s = evfs_file_seek(f, (evfs_off_t)o.a, (EvfsSeekDir)(o.flags % 3)); return std::to_string(s) + "@" + std::to_string((long)evfs_file_tell(f));
  case 4: if(!f) return "-"; return std::to_string((long)evfs_file_size(f)) + "," + std::to_string((long)evfs_file_tell(f)) + "," + std::to_string(evfs_file_eof(f));
  case 5: if(!f) return "-"; return std::to_string(evfs_file_truncate(f, (evfs_off_t)o.a));
  case 6: if(!f) return "-"; return std::to_string(evfs_file_sync(f));
  case 7: if(!f) return "-"; s = evfs_file_close(f); f = nullptr; return std::to_string(s);
  case 8: { EvfsInfo i; s = evfs_stat_ex(o.path.c_str(), &i, v); return std::to_string(s) + (s == EVFS_OK ? info_str(i) : ""); }
  case 9: return std::to_string(evfs_delete_ex(o.path.c_str(), v));
  case 10: return std::to_string(evfs_rename_ex(o.path.c_str(), o.path2.c_str(), v));
  case 11: return std::to_string(evfs_make_dir_ex(o.path.c_str(), v));
  case 12: { if(t.d) { evfs_dir_close(t.d); t.d = nullptr; } s = evfs_open_dir_ex(o.path.c_str(), &t.d, v); if(s != EVFS_OK) t.d = nullptr; return std::to_string(s); }
  case 13: { if(!t.d) return "-"; EvfsInfo i; s = evfs_dir_read(t.d, &i); return std::to_string(s) + (s == EVFS_OK ? std::string(i.name) + info_str(i) : ""); }
  case 14: { if(!t.d) return "-"; return std::to_string(evfs_dir_rewind(t.d)); }
  case 15: { StringRange r = RANGE_FROM_ARRAY(b); memset(b, 0, sizeof b); s = evfs_get_cur_dir_ex(&r, v); return std::to_string(s) + b; }
  case 16: { StringRange r = RANGE_FROM_ARRAY(b); memset(b, 0, sizeof b); s = evfs_path_absolute_ex(o.path.c_str(), &r, v); return std::to_string(s) + b; }
  case 17: return std::to_string(evfs_existing_file_ex(o.path.c_str(), v)) + std::to_string(evfs_existing_dir_ex(o.path.c_str(), v));
  case 18: { StringRange r = RANGE_FROM_ARRAY(b); memset(b, 0, sizeof b); s = evfs_path_normalize_ex(o.path.c_str(), &r, v); return std::to_string(s) + b; }
  default: return std::to_string(evfs_set_cur_dir_ex(o.path.c_str(), v));
  }
}
static void body(Thread *t) {
  for(auto &o : t->ops) {
    sched::point(); t->out.push_back(exec(*t, o));
    if(sched::held() && t->fail.empty()) t->fail = "a lock is held after the operation returned";
  }
  for(auto &f : t->f) if(f) { evfs_file_close(f); f = nullptr; }
  if(t->d) { evfs_dir_close(t->d); t->d = nullptr; }
}

static int sink_report(const char *, void *) { return 0; }
struct World {
  MemFs mem{"mem"}; int kind; Arch *arch; RotateConfig cfg; EvfsFile *img = nullptr; bool partial; uint64_t prng;
  World(int k, Arch *a, RotateConfig g, bool p, uint64_t pr) : kind(k), arch(a), cfg(g), partial(p), prng(pr) {}
  std::vector<std::string> names;
#ifdef CONC_LFS
  lfs_t lfs; LittlefsImage limg; struct lfs_config lcfg; Bytes ram; bool mounted = false;
  static int r_read(const lfs_config *c, lfs_block_t b, lfs_off_t o, void *p, lfs_size_t n) { auto v = (World *)c->context; memcpy(p, &v->ram[b * c->block_size + o], n); return 0; }
  static int r_prog(const lfs_config *c, lfs_block_t b, lfs_off_t o, const void *p, lfs_size_t n) { auto v = (World *)c->context; memcpy(&v->ram[b * c->block_size + o], p, n); return 0; }
  static int r_erase(const lfs_config *, lfs_block_t) { return 0; }
  static int r_sync(const lfs_config *) { return 0; }
  // a small volume in memory with one directory for each thread
  void setup_lfs(unsigned nt, const Bytes &seed) {
    memset(&lfs, 0, sizeof lfs); memset(&lcfg, 0, sizeof lcfg); lcfg.read_size = lcfg.prog_size = 16; lcfg.block_size = 4096; lcfg.block_count = 16; lcfg.cache_size = 512; lcfg.lookahead_size = 16; lcfg.block_cycles = -1; ram.assign(4096 * 16, 0xff);
    lcfg.context = this; lcfg.read = r_read; lcfg.prog = r_prog; lcfg.erase = r_erase; lcfg.sync = r_sync; lfs_t t; lfs_format(&t, &lcfg); REQUIRE(lfs_mount(&lfs, &lcfg) == 0, "mount"); mounted = true;
    REQUIRE(evfs_register_littlefs("lfs", &lfs, false) == EVFS_OK, "register littlefs");
    for(unsigned i = 0; i < nt; i++) { std::string d = "/t" + std::to_string(i); evfs_make_dir_ex(d.c_str(), "lfs"); evfs_make_dir_ex((d + "/dd").c_str(), "lfs"); EvfsFile *f; REQUIRE(evfs_open_ex((d + "/old").c_str(), &f, EVFS_WRITE | EVFS_OVERWRITE, "lfs") == EVFS_OK, "old"); if(!seed.empty()) evfs_file_write(f, seed.data(), seed.size()); evfs_file_close(f); }
    names = {"lfs"}; if(kind == 8) { REQUIRE(evfs_register_jail("j1", "lfs", "/", false) == EVFS_OK, "jail"); REQUIRE(evfs_register_trace("tr", "lfs", sink_report, nullptr, false) == EVFS_OK, "trace"); names = {"lfs", "lfs", "j1", "tr"}; }
  }
  std::string lfs_tree(unsigned i) { std::string o; ign_on(); auto &k = LfsMock::fs(&lfs)->root->kids; auto it = k.find("t" + std::to_string(i)); if(it != k.end()) o = LfsMock::dump(it->second); ign_off(); return o; }
  void done_lfs() { if(mounted) { lfs_unmount(&lfs); mounted = false; REQUIRE(LfsMock::violation().empty(), "the driver breaks a precondition of littlefs: %s", LfsMock::violation().c_str()); REQUIRE(LfsMock::live() == 0, "%d littlefs objects are still open", LfsMock::live()); } }
  ~World() { if(mounted) { evfs_unregister_all(); lfs_unmount(&lfs); LfsMock::live() = 0; LfsMock::violation().clear(); } }
#else
  void setup_lfs(unsigned, const Bytes &) {} std::string lfs_tree(unsigned) { return ""; } void done_lfs() {}
#endif
  void setup(unsigned nt, const Bytes &seed) {
    if(kind >= 7) { setup_lfs(nt, seed); return; }
    mem.reg(false); for(unsigned i = 0; i < nt; i++) { std::string d = "/t" + std::to_string(i); for(auto &p : {std::string(""), std::string("/j"), std::string("/j/k")}) { mem.mk(p + d, true); mem.put(p + d + "/old", seed); mem.mk(p + d + "/dd", true); } }
    names = {"mem"};
    auto ok = [](int s, const char *w) { REQUIRE(s == EVFS_OK, "register %s = %s", w, ENAME(s)); };
    switch(kind) {
    case 0: ok(evfs_register_jail("j1", "mem", "/j", false), "jail"); names = {"j1", "j1", "mem"}; break;
    case 1: ok(evfs_register_jail("j1", "mem", "/j", false), "jail"); ok(evfs_register_jail("j2", "j1", "/k", false), "jail"); names = {"j1", "j2", "j2", "mem"}; break;
    case 2: ok(evfs_register_trace("tr", "mem", sink_report, nullptr, false), "trace"); ok(evfs_register_jail("j1", "tr", "/j", true), "jail"); names = {"tr", "j1"}; break;
    case 3: ok(evfs_register_rotate("rot", "mem", &cfg, false), "rotate"); names = {"rot", "rot", "rot", "mem"}; break;
    case 4: ok(evfs_register_rotate("rot", "mem", &cfg, true), "rotate"); ok(evfs_register_jail("j1", "rot", "/j", false), "jail"); names = {"rot", "j1", "j1"}; break;
    default: {
      bool rsrc = arch->rsrc;
      if(rsrc) ok(arch->tar ? evfs_register_tar_rsrc_fs("arch", arch->img.data(), arch->img.size(), false) : evfs_register_rsrc_romfs("arch", arch->img.data(), arch->img.size(), false), "resource");
      else { mem.put("/image", arch->img); ok(evfs_open_ex("/image", &img, EVFS_READ, "mem"), "image"); ok(arch->tar ? evfs_register_tar_fs("arch", img, false) : evfs_register_romfs("arch", img, false), "archive"); }
      names = {"arch"};
      if(kind == 6) { ok(evfs_register_jail("j1", "arch", "/", false), "jail"); names = {"arch", "j1"}; }
      break; }
    }
    if(partial) { mem.partial = kind >= 5; mem.partial_rng = prng; }
  }
};
static void threads(Case &c, bool archive, bool lfs = false) {
  evfs_unregister_all();
  unsigned nt = 2 + (unsigned)c.below(3); int kind = lfs ? 7 + (int)c.below(2) : archive ? 5 + (int)c.below(2) : (int)c.below(5);
  Arch a; if(archive) { MemFs ref("ref"); ref.root->dir = true; a.rsrc = c.chance(35); if(c.chance(50)) gen_tar(c, a, ref); else gen_rom(c, a, ref); if(a.paths.empty() || a.img.empty()) discard(); }
  RotateConfig cfg; cfg.chunk_size = 32 + (uint32_t)c.below(40); cfg.max_chunks = 2 + (uint32_t)c.below(4);
  Bytes seed = c.blob(c.size(120));
  std::vector<std::string> apaths; for(auto &f : a.files) apaths.push_back(f.first); 
  std::vector<Thread> T(nt); size_t total = 0; bool chdir = c.chance(40);   // thread 0 changes the current directory
  World probe(kind, &a, cfg, false, 1); probe.setup(nt, seed); std::vector<std::string> names = probe.names; evfs_unregister_all(); probe.done_lfs();
  for(unsigned i = 0; i < nt; i++) {
    Thread &t = T[i]; t.vfs = c.pick(names); size_t n = 1 + c.size(archive ? 14 : 18); std::string dir = "/t" + std::to_string(i);
    static const std::vector<std::string> nm = {"old", "a", "b", "dd", "dd/x"};
    auto path = [&]() -> std::string {
      std::string p; if(archive) { p = !apaths.empty() && c.chance(60) ? c.pick(apaths) : c.pick(a.paths); if(c.chance(25) && (!chdir || i == 0)) p = p.substr(1); else if(c.chance(10)) p = "/." + p; if(p.empty()) p = "/"; if(p.size() > 240) p = "/"; return p; }
      p = dir + "/" + c.pick(nm); if(c.chance(25) && (!chdir || i == 0)) p = p.substr(1); else if(c.chance(8)) p = "/." + p; return p; };
    for(size_t k = 0; k < n; k++) {
      Op o; o.slot = (int)c.below(2); o.flags = 0; o.a = 0;
      if(archive) { o.k = c.pick({0, 0, 0, 1, 1, 1, 1, 1, 3, 4, 8, 8, 12, 13, 13, 15, 16, 17}); if(a.tar && (o.k == 12 || o.k == 13)) o.k = 1; }
      else o.k = c.pick({0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 13, 14, 15, 16, 17, 18});
      if(chdir && i == 0 && c.chance(25)) o.k = 19;
      if(chdir && i && c.chance(15)) o.k = 15;
      switch(o.k) {
      case 19: o.path = archive ? path() : c.pick({std::string("/"), dir, dir + "/dd", std::string(".."), dir.substr(1)}); break;
      case 0: o.path = path(); o.flags = archive ? EVFS_READ : c.pick({(int)EVFS_READ, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_RDWR|EVFS_OVERWRITE, EVFS_RDWR|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OPEN_OR_NEW|EVFS_APPEND, (int)EVFS_RDWR}); break;
      case 1: o.a = 1 + (long)c.size(archive ? 800 : 150); break;
      case 2: o.data = c.blob(1 + c.size(120)); break;
      case 3: o.a = (long)c.size(200); o.flags = (int)c.below(3); break;
      case 5: o.a = (long)c.size(150); break;
      case 10: o.path2 = path(); [[fallthrough]];
      default: o.path = path(); if(o.k == 12 && c.chance(60)) o.path = archive ? "/" : dir;
      }
      c.note("thread %u on %s: op %d slot %d %s %s flags %d arg %ld data %zu", i, t.vfs.c_str(), o.k, o.slot, o.path.c_str(), o.path2.c_str(), o.flags, o.a, o.data.size());
      t.ops.push_back(o); total++; if(o.k == 19) { o.k = 15; t.ops.push_back(o); }
    }
  }
  auto plan = gen_plan(c, nt); c.note("preemptions:%s", plan_str(plan).c_str());
  uint64_t prng = c.byte() + 1; (void)prng;
  // every thread alone
  std::vector<std::vector<std::string>> want(nt); std::vector<std::string> tree(nt);
  for(unsigned i = 0; i < nt; i++) {
    World w(kind, &a, cfg, false, 1); w.setup(nt, seed); Thread t; t.vfs = T[i].vfs; t.ops = T[i].ops;
    std::vector<std::function<void()>> one = {[&]() { body(&t); }}; sched::run(one, {}); if(const char *p = sched::problem()) fail("single thread: %s", p); if(!t.fail.empty()) fail("single thread: %s", t.fail.c_str());
    want[i] = t.out; ign_on(); for(auto &p : {std::string(""), std::string("/j"), std::string("/j/k")}) if(NodeP n = w.mem.at(p + "/t" + std::to_string(i))) w.mem.dump(n, p, tree[i]); ign_off(); if(lfs) tree[i] = w.lfs_tree(i);
    evfs_unregister_all(); w.done_lfs(); sched::check_quiet(); if(const char *p = sched::problem()) fail("unregistering: %s", p);
  }
  World w(kind, &a, cfg, false, 1); w.setup(nt, seed); std::vector<std::function<void()>> fs; for(auto &t : T) fs.push_back([&t]() { body(&t); });
  sched::run(fs, plan); unsigned np = sched::preemptions();
  if(const char *p = sched::problem()) fail("%s", p);
  std::set<std::string> cwds = {"0/"}; for(size_t k = 0; k < T[0].ops.size(); k++) if(T[0].ops[k].k == 15) cwds.insert(want[0][k]);
  for(unsigned i = 0; i < nt; i++) {
    if(!T[i].fail.empty()) fail("thread %u: %s", i, T[i].fail.c_str());
    for(size_t k = 0; k < T[i].ops.size(); k++) if(chdir && i && T[i].ops[k].k == 15) REQUIRE(cwds.count(T[i].out[k]), "thread %u sees the current directory %s, which was never set", i, T[i].out[k].c_str()); else if(T[i].out[k] != want[i][k]) fail("thread %u, operation %zu (kind %d on %s %s): result %s, alone it is %s", i, k, T[i].ops[k].k, T[i].vfs.c_str(), T[i].ops[k].path.c_str(), quote(T[i].out[k]).c_str(), quote(want[i][k]).c_str());
    std::string now; ign_on(); for(auto &p : {std::string(""), std::string("/j"), std::string("/j/k")}) if(NodeP n = w.mem.at(p + "/t" + std::to_string(i))) w.mem.dump(n, p, now); ign_off(); if(lfs) now = w.lfs_tree(i);
    REQUIRE(now == tree[i], "the files of thread %u differ from those it leaves when it runs alone", i);
  }
  REQUIRE(w.mem.open_files == (w.img ? 1 : 0) && w.mem.open_dirs == 0, "files left open");
  evfs_unregister_all(); w.done_lfs(); sched::check_quiet(); if(const char *p = sched::problem()) fail("unregistering: %s", p);
  if(np >= 3) c.label("preempted 3+"); c.label(("kind " + std::to_string(kind)).c_str());
  c.nontrivial(np >= 1 && total >= 2 * nt);
}
static void fs_threads(Case &c) { threads(c, false); }
static void arch_threads(Case &c) { threads(c, true); }
#ifdef CONC_LFS
static void lfs_threads(Case &c) { threads(c, false, true); }
#endif

// ---------------------------------------------------------------- registry
// Registration, removal and lookup from several threads: the history must be
// linearizable to the sequential behaviour of the registry.
constexpr int NV = 4;
struct Reg { std::vector<int> list; int def = -1; };   // indices of objects, newest first
struct ROp { int k, v; bool d; long res; unsigned long t0, t1; };
static Evfs V[NV]; static char VN[NV][4]; static int name_of[NV];
static int v_open(Evfs *v, const char *, EvfsFile *, int) { return -1000 - (int)(v - V); }
static int v_stat(Evfs *, const char *, EvfsInfo *) { return EVFS_ERR_NO_FILE; }
static long rapply(Reg &r, const ROp &o) {
  auto by_name = [&](int nm) { for(int x : r.list) if(name_of[x] == nm) return x; return -1; };
  switch(o.k) {
  case 0: { int ex = by_name(name_of[o.v]), v = ex >= 0 ? ex : o.v; if(r.list.empty()) { r.list = {v}; r.def = v; return EVFS_OK; }
    if(ex < 0) r.list.insert(r.list.begin(), v);
    if(o.d) r.def = v; else if(r.def == v) { for(int x : r.list) if(x != v) { r.def = x; break; } }
    return EVFS_OK; }
  case 1: { for(size_t i = 0; i < r.list.size(); i++) if(r.list[i] == o.v) { r.list.erase(r.list.begin() + (long)i); if(r.def == o.v) r.def = r.list.empty() ? -1 : r.list[0]; return EVFS_OK; } return EVFS_ERR_NO_VFS; }
  case 2: return by_name(name_of[o.v]);
  case 3: return r.def;                       // by opening on the default
  default: return r.def < 0 ? -1 : name_of[r.def];
  }
}
static long rexec(const ROp &o) {
  switch(o.k) {
  case 0: return evfs_register(&V[o.v], o.d);
  case 1: return evfs_unregister(&V[o.v]);
  case 2: { Evfs *p = evfs_find_vfs(VN[o.v]); return p ? p - V : -1; }
  case 3: { EvfsFile *f = nullptr; int s = evfs_open_ex("x", &f, EVFS_READ, nullptr); return s <= -1000 ? -1000 - s : s == EVFS_ERR_NO_VFS ? -1 : -2; }
  default: { const char *n = evfs_default_vfs_name(); if(!n || !*n) return -1; for(int i = 0; i < NV; i++) if(!strcmp(n, VN[i])) return name_of[i]; return -2; }
  }
}
static bool linearize(const std::vector<std::vector<ROp>> &h, std::vector<size_t> pos, Reg r, std::set<std::string> &dead) {
  bool done = true; for(size_t i = 0; i < h.size(); i++) if(pos[i] < h[i].size()) done = false;
  if(done) return true;
  std::string key; for(size_t p : pos) key += (char)p; key += '|'; for(int x : r.list) key += (char)('a' + x); key += (char)('A' + r.def + 1);
  if(dead.count(key)) return false;
  unsigned long first_end = ~0ul; for(size_t i = 0; i < h.size(); i++) if(pos[i] < h[i].size() && h[i][pos[i]].t1 < first_end) first_end = h[i][pos[i]].t1;
  for(size_t i = 0; i < h.size(); i++) if(pos[i] < h[i].size() && h[i][pos[i]].t0 <= first_end) {
    const ROp &o = h[i][pos[i]]; Reg q = r; if(rapply(q, o) != o.res) continue;
    auto p2 = pos; p2[i]++; if(linearize(h, p2, q, dead)) return true;
  }
  dead.insert(key); return false;
}
static const char *RN[] = {"register", "unregister", "find", "open on default", "default name"};
static void registry(Case &c) {
  evfs_unregister_all(); memset(V, 0, sizeof V);
  bool dup = c.chance(30);
  for(int i = 0; i < NV; i++) { name_of[i] = dup && i == NV - 1 ? 0 : i; snprintf(VN[i], 4, "v%d", name_of[i]); V[i].vfs_name = VN[i]; V[i].vfs_file_size = sizeof(EvfsFile); V[i].m_open = v_open; V[i].m_stat = v_stat; }
  Reg model; size_t pre = c.below(3);
  for(size_t i = 0; i < pre; i++) { ROp o{0, (int)c.below(NV), c.chance(50), 0, 0, 0}; c.note("before: register %d default %d", o.v, o.d); rexec(o); rapply(model, o); }
  unsigned nt = 2 + (unsigned)c.below(3); std::vector<std::vector<ROp>> h(nt); size_t mods = 0;
  for(unsigned i = 0; i < nt; i++) { size_t n = 1 + c.below(4); for(size_t k = 0; k < n; k++) { ROp o{(int)c.pick({0, 0, 0, 1, 1, 2, 2, 3, 4}), (int)c.below(NV), c.chance(50), 0, 0, 0}; mods += o.k < 2; h[i].push_back(o); c.note("thread %u: %s %d default %d", i, RN[o.k], o.v, o.d); } }
  auto plan = gen_plan(c, nt); c.note("preemptions:%s", plan_str(plan).c_str());
  std::vector<std::function<void()>> fs; std::vector<std::string> bad(nt);
  for(unsigned i = 0; i < nt; i++) fs.push_back([&h, &bad, i]() { for(auto &o : h[i]) { o.t0 = sched::stamp(); sched::point(); o.res = rexec(o); o.t1 = sched::stamp(); if(sched::held()) bad[i] = RN[o.k]; } });
  sched::run(fs, plan); unsigned np = sched::preemptions(); if(const char *p = sched::problem()) fail("%s", p);
  for(auto &b : bad) REQUIRE(b.empty(), "a lock is held after %s", b.c_str());
  // observe the final state
  std::vector<ROp> fin; for(int i = 0; i < NV; i++) fin.push_back({2, i, false, 0, 0, 0}); fin.push_back({3, 0, false, 0, 0, 0}); fin.push_back({4, 0, false, 0, 0, 0}); for(int i = 0; i < NV; i++) { fin.push_back({1, i, false, 0, 0, 0}); fin.push_back({3, 0, false, 0, 0, 0}); }
  for(auto &o : fin) { o.t0 = sched::stamp() + 1000000; o.res = rexec(o); o.t1 = o.t0; }
  for(size_t i = 0; i < fin.size(); i++) fin[i].t0 = fin[i].t1 = 1000000000ul + i;
  std::string hist; for(unsigned i = 0; i < nt; i++) for(auto &o : h[i]) { char b[120]; snprintf(b, sizeof b, " [%u: %s %d%s = %ld @%lu-%lu]", i, RN[o.k], o.v, o.d ? " default" : "", o.res, o.t0, o.t1); hist += b; }
  for(auto &o : fin) { char b[100]; snprintf(b, sizeof b, " [after: %s %d = %ld]", RN[o.k], o.v, o.res); hist += b; }
  auto all = h; all.push_back(fin); std::set<std::string> dead; std::vector<size_t> pos(all.size(), 0);
  REQUIRE(linearize(all, pos, model, dead), "no order of the operations explains the results:%s", hist.c_str());
  evfs_unregister_all(); sched::check_quiet(); c.nontrivial(np >= 1 && mods >= 2);
}
const pbt::Prop pbt::props[] = {
  {"C31.registry", registry, 60000, 1000000, 20, 30, ""},
  {"C31.fs", fs_threads, 40000, 300000, 20, 30, ""},
  {"C31.arch", arch_threads, 30000, 300000, 20, 30, ""},
  {"C31.slow", arch_threads, 20000, 300000, 20, 30, ""},
  {"C31.rotslow", fs_threads, 10000, 100000, 20, 30, ""},
#ifdef CONC_LFS
  {"C31.lfs", lfs_threads, 20000, 300000, 20, 30, ""},
  {"C31.lfsown", lfs_threads, 10000, 100000, 20, 30, ""},
#endif
  {"C31.c11", registry, 30000, 300000, 20, 30, ""},
  {nullptr, nullptr, 0, 0, 0, 0, nullptr}
};
