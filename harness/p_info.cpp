// What file systems and shims tell about files: announced information fields,
// time stamps, control commands and the names of codes.
#include "backend.h"
// The clock of the code under test
extern "C" time_t vp_time(time_t *t) { if(t) *t = now_time; return now_time; }
void pbt::harness_setup() { evfs_init(); setenv("TZ", "UTC0", 1); tzset(); }
static int sink(const char *, void *) { return 0; }

static unsigned mask(const char *vfs, int cmd) { unsigned m = 0xFFFFFFFF; int s = evfs_vfs_ctrl_ex(cmd, &m, vfs); REQUIRE(s == EVFS_OK, "%s of %s = %s", evfs_cmd_name(cmd), vfs, ENAME(s)); REQUIRE(!(m & ~15u), "%s announces the fields %x", vfs, m); return m; }
static void verify(const char *vfs, const std::string &what, const EvfsInfo &i, unsigned m, const std::string &name, const NodeP &n, bool root, bool times, bool dot) {
  if(m & EVFS_INFO_NAME) { REQUIRE(i.name, "%s of %s gives no name", what.c_str(), vfs); if(!root) REQUIRE(name == i.name, "%s of %s gives the name %s", what.c_str(), vfs, quote(i.name).c_str()); } else REQUIRE(!i.name, "%s of %s gives a name, which it does not announce", what.c_str(), vfs);
  if(m & EVFS_INFO_SIZE) { if(!n->dir) REQUIRE((size_t)i.size == n->data.size(), "%s of %s gives the size %ld, it is %zu", what.c_str(), vfs, (long)i.size, n->data.size()); } else REQUIRE(i.size == 0, "%s of %s gives a size, which it does not announce", what.c_str(), vfs);
  if(m & EVFS_INFO_MTIME) { if(times && !root && !dot) REQUIRE(i.mtime == n->mtime, "%s of %s gives the time %ld, it is %ld", what.c_str(), vfs, (long)i.mtime, (long)n->mtime); } else REQUIRE(i.mtime == 0, "%s of %s gives a time, which it does not announce", what.c_str(), vfs);
  if(m & EVFS_INFO_TYPE) REQUIRE(!!(i.type & EVFS_FILE_DIR) == n->dir && !(i.type & ~EVFS_FILE_DIR), "%s of %s gives the type %d", what.c_str(), vfs, i.type); else REQUIRE(i.type == 0, "%s of %s gives a type, which it does not announce", what.c_str(), vfs);
}
static void fields(Case &c) {
  blank(); Lib lib; Backend b; b.kind = (int)c.below(7); MemFs ref("mem"); if(b.kind == 0) ref.reg(false); b.make(c, ref); now_time = 1800000000;
  static RotateConfig rc; rc.chunk_size = 64; rc.max_chunks = 3;
  std::vector<std::string> all; for(auto &x : std::vector<std::string>{""}) all.push_back(x);
  { std::vector<std::pair<std::string, NodeP>> st = {{"", ref.root}}; while(!st.empty()) { auto x = st.back(); st.pop_back(); for(auto &k : x.second->kids) { if(b.arch.special.count(k.second.get())) continue; all.push_back(x.first + "/" + k.first); st.push_back({x.first + "/" + k.first, k.second}); } } }
  all.erase(std::remove_if(all.begin(), all.end(), [&](const std::string &p) { return !ref.at(p); }), all.end());
  bool tar = b.kind == 3 || b.kind == 4;
  std::string top = b.base, jail; size_t shims = c.below(4), checked = 0; unsigned ms = mask(top.c_str(), EVFS_CMD_GET_STAT_FIELDS), md = mask(top.c_str(), EVFS_CMD_GET_DIR_FIELDS);
  for(size_t level = 0; level <= shims; level++) {
    if(level) { std::string nm = "s" + std::to_string(level); int s;
      switch(c.below(3)) {
      case 0: { std::string r = "/"; if(jail.empty() && c.chance(60)) { std::vector<std::string> ds; for(auto &p : all) if(!p.empty() && ref.at(p)->dir) ds.push_back(p); if(!ds.empty() && !tar) { jail = c.pick(ds); r = jail; } } c.note("jail %s on %s at %s", nm.c_str(), top.c_str(), r.c_str()); s = evfs_register_jail(nm.c_str(), top.c_str(), r.c_str(), false); break; }
      case 1: c.note("trace %s on %s", nm.c_str(), top.c_str()); s = evfs_register_trace(nm.c_str(), top.c_str(), sink, nullptr, false); break;
      default: c.note("rotate %s on %s", nm.c_str(), top.c_str()); s = evfs_register_rotate(nm.c_str(), top.c_str(), &rc, false); break;
      }
      REQUIRE(s == EVFS_OK, "registering a shim = %s", ENAME(s)); top = nm;
      unsigned m2 = mask(top.c_str(), EVFS_CMD_GET_STAT_FIELDS), d2 = mask(top.c_str(), EVFS_CMD_GET_DIR_FIELDS); REQUIRE(m2 == ms && d2 == md, "%s announces the fields %x and %x, below it are %x and %x", top.c_str(), m2, d2, ms, md);
    }
    const char *v = top.c_str();
    for(auto &p : all) {
      if(!jail.empty() && p.compare(0, jail.size(), jail)) continue;
      if(!jail.empty() && p.size() > jail.size() && p[jail.size()] != '/') continue;
      std::string q = p.substr(jail.size()); NodeP n = ref.at(p); if(!n || (tar && n->dir)) continue; bool root = q.empty(); if(root) q = "/"; std::string nm = p.substr(p.rfind('/') + 1); if(p.empty()) nm = "/";
      if(q.size() > 200) continue;
      EvfsInfo i; memset(&i, 0xA5, sizeof i); int s = evfs_stat_ex(q.c_str(), &i, v); REQUIRE(s == EVFS_OK, "stat of %s on %s = %s", quote(q).c_str(), v, ENAME(s));
      verify(v, "stat of " + quote(q), i, ms, nm, n, root, true, false); checked++;
      if(n->dir && !tar) {
        EvfsDir *d; s = evfs_open_dir_ex(q.c_str(), &d, v); REQUIRE(s == EVFS_OK, "open_dir %s on %s = %s", quote(q).c_str(), v, ENAME(s));
        for(;;) { memset(&i, 0xA5, sizeof i); s = evfs_dir_read(d, &i); if(s != EVFS_OK) { REQUIRE(s == EVFS_DONE, "dir_read = %s", ENAME(s)); break; }
          REQUIRE((md & EVFS_INFO_NAME) && i.name, "an entry without a name"); std::string e = i.name; bool dot = e == "." || e == ".."; NodeP k = dot ? n : n->kids.count(e) ? n->kids[e] : nullptr; REQUIRE(k, "the entry %s does not exist", quote(e).c_str()); if(b.arch.special.count(k.get())) continue; 
          verify(v, "entry " + quote(e), i, md, e, k, false, true, dot); checked++; }
        REQUIRE(evfs_dir_close(d) == EVFS_OK, "dir_close");
      }
    }
    // commands no one knows
    unsigned arg[8]; memset(arg, 0x5A, sizeof arg); int cmd = c.pick({0, 1, 2, (int)EVFS_CMD_USER_DEFINED, EVFS_CMD_USER_DEFINED + 7, 0x7FFFFFFF, -1, (int)EVFS_CMD_SET_ROTATE_TRIM, (int)EVFS_CMD_GET_RSRC_ADDR});
    int s = evfs_vfs_ctrl_ex(cmd, arg, v); REQUIRE(s == EVFS_ERR_NO_SUPPORT, "unknown command %d on %s = %s", cmd, v, ENAME(s)); for(unsigned x : arg) REQUIRE(x == 0x5A5A5A5A, "an unknown command changes its argument");
    std::vector<std::string> fs; for(auto &p : all) if(!p.empty() && !ref.at(p)->dir && p.compare(0, jail.size(), jail) == 0 && p.size() > jail.size() && p[jail.size()] == '/' && p.size() < 200) fs.push_back(p.substr(jail.size()));
    if(!fs.empty()) { std::string p = c.pick(fs); EvfsFile *f; s = evfs_open_ex(p.c_str(), &f, EVFS_READ, v); REQUIRE(s == EVFS_OK, "open %s = %s", quote(p).c_str(), ENAME(s)); cmd = c.pick({0, 1, 2, (int)EVFS_CMD_USER_DEFINED + (b.kind == 0), EVFS_CMD_USER_DEFINED + 7, -1, (int)EVFS_CMD_SET_ROTATE_CFG, (int)EVFS_CMD_SET_ROTATE_TRIM});
      s = evfs_file_ctrl(f, cmd, arg); REQUIRE(s == EVFS_ERR_NO_SUPPORT, "unknown file command %d on %s = %s", cmd, v, ENAME(s)); for(unsigned x : arg) REQUIRE(x == 0x5A5A5A5A, "an unknown command changes its argument"); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); }
  }
  b.done(); c.nontrivial(checked >= 4 && all.size() >= 3);
}
// ------------------------------------------------------------ time stamps on FAT
static void fat_times(Case &c) {
  blank(); Lib lib; MemFs host("host"); host.reg(true); host.put("/img", blank()); struct Un { bool on = true; void off() { if(on) { evfs_unregister_all(); fatfs_unmount_image(0); } on = false; } ~Un() { off(); setenv("TZ", "UTC0", 1); tzset(); } } un;
  static const char *TZS[] = {"UTC0", "XXX-5:30", "YYY9", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3"};
  const char *tz = c.pick(TZS); setenv("TZ", tz, 1); tzset();
  int s = fatfs_mount_image("/img", 0); REQUIRE(s == EVFS_OK, "mount = %s", ENAME(s)); s = evfs_register_fatfs("fat", 0, true); REQUIRE(s == EVFS_OK, "register = %s", ENAME(s));
  std::map<std::string, std::pair<time_t, bool>> m; size_t n = 2 + c.size(14), changed = 0;   // path -> last change, directory
  auto step = [&]() { for(;;) { now_time = (time_t)c.range(365LL * 10 * 86400 + 4 * 86400, 4354819197LL - 2 * 86400); if(c.chance(50)) now_time = 1577836800 + (time_t)c.below(366u * 86400 * 10); struct tm a, b; time_t x; localtime_r(&now_time, &a); // outside of the hour that exists twice
      bool twice = false; for(long d : {-3600L, 3600L}) { x = now_time + d; localtime_r(&x, &b); if(a.tm_hour == b.tm_hour && a.tm_min == b.tm_min) twice = true; } if(!twice && a.tm_year >= 80 && a.tm_year < 80 + 128) break; } };
  for(size_t i = 0; i < n; i++) {
    step(); std::vector<std::string> files, dirs = {""}; for(auto &x : m) (x.second.second ? dirs : files).push_back(x.first);
    std::string p = c.pick(dirs) + "/" + c.pick(NAMES); bool have = m.count(p); if(p.size() > 60) continue; bool clash = false; for(auto &x : m) if(x.first != p && !strcasecmp(x.first.c_str(), p.c_str())) clash = true; if(clash) continue;
    int op = (int)c.weighted({30, 15, 20, 10, 10, 15}); EvfsFile *f;
    switch(op) {
    case 0: if(have) break; s = evfs_open(p.c_str(), &f, EVFS_RDWR | EVFS_NO_EXIST); REQUIRE(s == EVFS_OK, "create %s = %s", p.c_str(), ENAME(s)); if(c.chance(50)) { evfs_file_write(f, "data", 4); step(); } REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); c.note("create %s at %ld", p.c_str(), (long)now_time); m[p] = {now_time, false}; break;
    case 1: if(have) break; s = evfs_make_dir(p.c_str()); REQUIRE(s == EVFS_OK, "mkdir %s = %s", p.c_str(), ENAME(s)); c.note("mkdir %s at %ld", p.c_str(), (long)now_time); m[p] = {now_time, true}; break;
    case 2: if(files.empty()) break; p = c.pick(files); s = evfs_open(p.c_str(), &f, EVFS_RDWR); REQUIRE(s == EVFS_OK, "open %s = %s", p.c_str(), ENAME(s)); if(c.chance(50)) evfs_file_write(f, "more", 4); else { evfs_file_write(f, "1", 1); evfs_file_truncate(f, 1); } step(); if(c.chance(40)) { REQUIRE(evfs_file_sync(f) == EVFS_OK, "sync"); time_t t = now_time; step(); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); now_time = t; } else REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); c.note("change %s at %ld", p.c_str(), (long)now_time); m[p] = {now_time, false}; changed++; break;
    case 3: if(files.empty()) break; p = c.pick(files); s = evfs_open(p.c_str(), &f, EVFS_READ); REQUIRE(s == EVFS_OK, "open = %s", ENAME(s)); { char t[4]; evfs_file_read(f, t, 4); } evfs_file_close(f); break;
    case 4: if(files.empty() || have) break; { std::string o = c.pick(files); s = evfs_rename(o.c_str(), p.c_str()); REQUIRE(s == EVFS_OK, "rename %s %s = %s", o.c_str(), p.c_str(), ENAME(s)); c.note("rename %s %s", o.c_str(), p.c_str()); m[p] = m[o]; m.erase(o); break; }
    default: if(files.empty()) break; p = c.pick(files); REQUIRE(evfs_delete(p.c_str()) == EVFS_OK, "delete"); m.erase(p); break;
    }
  }
  if(c.chance(30)) { evfs_unregister(evfs_find_vfs("fat")); fatfs_unmount_image(0); s = fatfs_mount_image("/img", 0); REQUIRE(s == EVFS_OK, "mount again = %s", ENAME(s)); s = evfs_register_fatfs("fat", 0, true); REQUIRE(s == EVFS_OK, "register again = %s", ENAME(s)); }
  now_time = 1234567890; std::vector<std::string> dirs = {""}; size_t seen = 0; for(auto &x : m) if(x.second.second) dirs.push_back(x.first);
  for(auto &d : dirs) { EvfsDir *dh; s = evfs_open_dir(d.empty() ? "/" : d.c_str(), &dh); REQUIRE(s == EVFS_OK, "open_dir %s = %s", d.c_str(), ENAME(s)); EvfsInfo i;
    while((s = evfs_dir_read(dh, &i)) == EVFS_OK) { std::string p = d + "/" + i.name; if(!strcmp(i.name, ".") || !strcmp(i.name, "..")) continue; REQUIRE(m.count(p), "unknown entry %s", p.c_str()); long t = (long)m[p].first; if(m[p].second) { } REQUIRE(i.mtime == (t & ~1L), "%s was changed at %ld (TZ %s), listed with %ld", p.c_str(), t, tz, (long)i.mtime); seen++; }
    REQUIRE(s == EVFS_DONE, "dir_read = %s", ENAME(s)); evfs_dir_close(dh); }
  REQUIRE(seen == m.size(), "%zu entries of %zu", seen, m.size()); un.off(); c.nontrivial(m.size() >= 2 && changed >= 1);
}
// ------------------------------------------------------------ names of codes
static void code_names(Case &c) {
#define ONE(E, V) {#E, E},
  struct K { const char *n; long v; };
  static const K errs[] = { EVFS_ERR_LIST(ONE) }, cmds[] = { EVFS_CMD_LIST(ONE) };
  bool e = c.chance(60); long v = c.chance(70) ? (e ? c.range(-40, 20) : c.range(0, 2000)) : (long)(int32_t)c.range(INT32_MIN, INT32_MAX); if(!e && c.chance(60)) v = cmds[c.below(sizeof cmds / sizeof *cmds)].v;
  const char *want = "<unknown>"; if(e) { for(auto &k : errs) if(k.v == v) want = k.n; } else for(auto &k : cmds) if(k.v == v) want = k.n;
  const char *got = e ? evfs_err_name((int)v) : evfs_cmd_name((int)v); c.note("%s %ld is %s", e ? "error" : "command", v, got); REQUIRE(got && !strcmp(got, want), "%s %ld is named %s, expected %s", e ? "error" : "command", v, got ? got : "(null)", want); c.mix((uint64_t)v * 2 + e); c.nontrivial(*want != '<');
}
const pbt::Prop pbt::props[] = {
  {"I33.fields", fields, 100000, 1500000, 10, 20, ""},
  {"I33.times", fat_times, 30000, 400000, 10, 20, ""},
  {"I33.names", code_names, 200000, 1000000, 5, 10, ""},
  {nullptr, nullptr, 0, 0, 0, 0, nullptr}
};
