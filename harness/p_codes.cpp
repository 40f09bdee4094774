// The code of a failure names something that really is the case, on every kind
// of file system and below shims.
#include "backend.h"
#include "truth.h"
extern "C" time_t vp_time(time_t *t) { if(t) *t = now_time; return now_time; }
void pbt::harness_setup() { evfs_init(); setenv("TZ", "UTC0", 1); tzset(); }
static int sink(const char *, void *) { return 0; }
struct Stack { // a file system of any kind below up to two shims
  MemFs ref{"mem"}; Backend b; std::string top; std::vector<std::pair<std::string, NodeP>> all; bool arch = false, rot = false;
  void make(Case &c, int kind) {
    b.kind = kind; if(kind == 0) ref.reg(false); b.make(c, ref); now_time = 1800000000; top = b.base; arch = kind >= 3;
    static RotateConfig rc; rc.chunk_size = 64; rc.max_chunks = 3; size_t n = c.below(3);
    for(size_t i = 0; i < n; i++) { std::string nm = "s" + std::to_string(i); int s;
      switch(c.below(rot ? 2 : 3)) { case 0: s = evfs_register_jail(nm.c_str(), top.c_str(), "/", false); break; case 1: s = evfs_register_trace(nm.c_str(), top.c_str(), sink, nullptr, false); break; default: rot = true; s = evfs_register_rotate(nm.c_str(), top.c_str(), &rc, false); break; }
      REQUIRE(s == EVFS_OK, "registering a shim = %s", ENAME(s)); top = nm; }
    list(); c.note("kind %d, %zu shims", kind, n);
  }
  void list() { all.clear(); std::vector<std::pair<std::string, NodeP>> st = {{"", ref.root}}; while(!st.empty()) { auto x = st.back(); st.pop_back(); for(auto &k : x.second->kids) { if(b.arch.special.count(k.second.get())) continue; all.push_back({x.first + "/" + k.first, k.second}); st.push_back({x.first + "/" + k.first, k.second}); } } }
  std::string gen(Case &c) {
    if(all.empty() || c.chance(4)) return "/"; auto x = c.pick(all); std::string d = x.second->dir ? x.first : x.first.substr(0, x.first.rfind('/')), n = c.pick({"missing", "no such file", "M.X"});
    switch(c.weighted({40, 30, 15, 15})) { case 0: return x.first; case 1: return d + "/" + n; case 2: return d + "/" + n + "/below"; default: return x.first + "/below"; }
  }
};
static void codes(Case &c) {
  blank(); Lib lib; Stack k; k.make(c, (int)c.below(7)); Truth t(k.ref); const char *v = k.top.c_str(); bool tar = k.b.kind == 3 || k.b.kind == 4, ro = false; size_t n = 2 + c.size(14), failures = 0, kinds = 0; Codes seen;
  for(size_t i = 0; i < n; i++) {
    std::string p = k.gen(c), q; int s, strict = 0; bool change = false; Codes ok; std::string what; NodeP np = k.ref.at(p);
    if(p.size() > 100 || (tar && np && np->dir && p != "/")) continue;   // directories of a tar archive need not have an entry
    switch(c.weighted({14, 14, 14, 8, 14, 14, 10, 6, 20, 6})) {
    case 0: { EvfsInfo e; what = "stat"; s = evfs_stat_ex(p.c_str(), &e, v); ok = t.describe(p); if(!tar && !np) strict = -1; break; }
    case 1: { EvfsFile *f = nullptr; what = "open"; ok = t.open(p, EVFS_READ); s = evfs_open_ex(p.c_str(), &f, EVFS_READ, v); if(s == EVFS_OK) REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); if(!tar && !np && p != "/") strict = -1; break; }
    case 2: { EvfsFile *f = nullptr; int fl = c.pick({EVFS_RDWR | EVFS_NO_EXIST, EVFS_WRITE | EVFS_NO_EXIST}); what = "exclusive open"; change = true; ok = t.open(p, fl); if(k.rot && ok.empty() && !ro) continue; s = evfs_open_ex(p.c_str(), &f, fl, v); if(s == EVFS_OK) { REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); if(ok.empty() && k.b.kind) k.ref.mk(p, false); } if(np && !np->dir) strict = EVFS_ERR_EXISTS; break; }
    case 3: { EvfsFile *f = nullptr; what = "open for writing"; change = true; ok = t.open(p, EVFS_RDWR); if(k.rot && !np) continue; s = evfs_open_ex(p.c_str(), &f, EVFS_RDWR, v); if(s == EVFS_OK) REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); if(!np && p != "/") strict = -1; break; }
    case 4: what = "delete"; change = true; ok = t.remove(p); s = evfs_delete_ex(p.c_str(), v); if(s == EVFS_OK && np && k.b.kind && ok.empty()) { std::string d = p.substr(0, p.rfind('/')), e = p.substr(p.rfind('/') + 1); k.ref.at(d)->kids.erase(e); } break;
    case 5: what = "make_dir"; change = true; ok = t.make_dir(p); s = evfs_make_dir_ex(p.c_str(), v); if(s == EVFS_OK && k.b.kind && ok.empty()) k.ref.mk(p, true); if(np && p != "/") strict = EVFS_ERR_EXISTS; break;
    case 6: { if(tar) continue; EvfsDir *d = nullptr; what = "open_dir"; ok = t.enter(p); s = evfs_open_dir_ex(p.c_str(), &d, v); if(s == EVFS_OK) REQUIRE(evfs_dir_close(d) == EVFS_OK, "dir_close"); if(!ok.empty()) strict = -1; break; }
    case 7: { if(tar) continue; what = "set_cur_dir"; ok = t.enter(p); s = evfs_set_cur_dir_ex(p.c_str(), v); if(s == EVFS_OK) REQUIRE(evfs_set_cur_dir_ex("/", v) == EVFS_OK, "back to the root"); break; }
    case 8: { q = k.gen(c); if(q.size() > 100 || p == q) continue; what = "rename"; change = true; ok = t.rename(p, q); if(k.arch || ro || !ok.empty()) s = evfs_rename_ex(p.c_str(), q.c_str(), v); else continue; if(s == EVFS_OK && !k.arch && !ro) { c.note("rename %s to %s = EVFS_OK", quote(p).c_str(), quote(q).c_str()); goto end; } break; }
    default: if(k.b.kind == 0 || k.arch) continue; { unsigned on = ro = !ro; s = evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, k.b.base.c_str()); c.note("read-only: %d", (int)ro); REQUIRE(s == EVFS_OK, "SET_READONLY = %s", ENAME(s)); } continue;
    }
    c.note("%s %s%s%s = %s", what.c_str(), quote(p).c_str(), q.empty() ? "" : " to ", q.empty() ? "" : quote(q).c_str(), ENAME(s)); REQUIRE(s == EVFS_OK || s < 0, "%s = %d", what.c_str(), s);
    if(change && k.arch) { REQUIRE(s == EVFS_ERR_NO_SUPPORT, "%s %s on an archive = %s", what.c_str(), quote(p).c_str(), ENAME(s)); failures++; continue; }
    if(change && ro) { Codes o = ok; o.insert(EVFS_ERR_DISABLED); REQUIRE(s < 0 && o.count(s), "%s %s on a read-only file system = %s", what.c_str(), quote(p).c_str(), ENAME(s)); if(ok.empty()) REQUIRE(s == EVFS_ERR_DISABLED, "%s %s, prevented only by the file system being read-only = %s", what.c_str(), quote(p).c_str(), ENAME(s)); failures++; seen.insert(s); continue; }
    if(s < 0) { failures++; seen.insert(s); if(ok.empty()) { if(s == EVFS_ERR_FS_FULL) continue; pbt::fail("%s %s = %s, although nothing prevents it", what.c_str(), quote(p).c_str(), ENAME(s)); }
      if(strict == -1) REQUIRE(ok.count(s), "%s %s = %s instead of %s", what.c_str(), quote(p).c_str(), ENAME(s), show(ok).c_str());
      if(strict < -1) REQUIRE(s == strict, "%s %s, which exists = %s", what.c_str(), quote(p).c_str(), ENAME(s));
      REQUIRE(s == EVFS_ERR || ok.count(s), "%s %s = %s, but what is the case is %s", what.c_str(), quote(p).c_str(), ENAME(s), show(ok).c_str()); }
    if(change) k.list();
  }
end:
  (void)kinds; if(failures >= 2 && seen.size() + (k.arch ? 1 : 0) >= 2) c.nontrivial(); k.b.done();
}
// An operation which only a fault below keeps from succeeding names that fault or none.
static const std::vector<std::pair<int, int>> LFS_CODES = {{LFS_ERR_IO, EVFS_ERR_IO}, {LFS_ERR_CORRUPT, EVFS_ERR_CORRUPTION}, {LFS_ERR_NOENT, EVFS_ERR_NO_FILE}, {LFS_ERR_EXIST, EVFS_ERR_EXISTS}, {LFS_ERR_NOTDIR, EVFS_ERR_NO_PATH}, {LFS_ERR_ISDIR, EVFS_ERR_IS_DIR}, {LFS_ERR_NOTEMPTY, EVFS_ERR_NOT_EMPTY},
  {LFS_ERR_FBIG, EVFS_ERR_OVERFLOW}, {LFS_ERR_INVAL, EVFS_ERR_BAD_ARG}, {LFS_ERR_NOSPC, EVFS_ERR_FS_FULL}, {LFS_ERR_NOMEM, EVFS_ERR_ALLOC}, {LFS_ERR_NAMETOOLONG, EVFS_ERR_TOO_LONG}, {LFS_ERR_BADF, EVFS_ERR}, {LFS_ERR_NOATTR, EVFS_ERR}};
static void faults(Case &c) {
  blank(); Lib lib; Stack k; int kind = c.pick({0, 0, 0, 1, 1, 2, 2, 2, 3, 5}); k.make(c, kind); const char *v = k.top.c_str(); bool ro = k.arch; if(k.rot) discard();
  std::vector<std::string> fs, ds = {"/"}; for(auto &x : k.all) { NodeP n = k.ref.at(x.first); if(!n || x.first.size() > 100) continue; if(!n->dir) fs.push_back(x.first); else if(kind != 3) ds.push_back(x.first); }
  if(fs.empty()) discard();
  std::string p = c.pick(fs), d = c.pick(ds), nw = (d == "/" ? "" : d) + "/new one"; EvfsFile *f = nullptr; EvfsDir *dh = nullptr; EvfsInfo info; if(k.ref.at(nw)) discard();
  int op = (int)c.below(ro ? 7 : 15), s = 0; int e; const char *what = ""; MemFs &m = kind == 0 ? k.ref : k.b.host; char buf[700]; memset(buf, 'w', sizeof buf);
  if(op >= 3 && op <= 5) REQUIRE((s = evfs_open_ex(p.c_str(), &f, EVFS_READ, v)) == EVFS_OK, "open %s = %s", quote(p).c_str(), ENAME(s));
  if(op >= 11) REQUIRE((s = evfs_open_ex(p.c_str(), &f, EVFS_RDWR, v)) == EVFS_OK, "open %s = %s", quote(p).c_str(), ENAME(s));
  if(op >= 13) REQUIRE((s = (int)evfs_file_write(f, buf, 1 + c.below(600))) > 0, "write = %s", ENAME(s));
  if(op == 6) { if(kind == 3) discard(); REQUIRE((s = evfs_open_dir_ex(d.c_str(), &dh, v)) == EVFS_OK, "open_dir = %s", ENAME(s)); }
  bool lfs = kind == 2; Codes ok = {EVFS_ERR};
  if(lfs) { auto x = c.pick(LFS_CODES); e = x.second; LfsMock::failed() = false; LfsMock::fail_err() = x.first; LfsMock::fail_at() = LfsMock::calls() + 1 + (long)c.below(4); ok.insert(e); c.note("littlefs fails with %d", x.first); }
  else { e = any_error(c); m.fail_err = e; m.failed = false; m.fail_ops.clear(); m.fail_sticky = false; if(kind) m.fail_ops = {"read", "write", "seek", "sync"}; m.op_no = 0; m.fail_at = 1 + (long)c.below(kind == 1 ? 6 : 3); ok.insert(e); if(kind) ok.insert(EVFS_ERR_IO); c.note("failing below with %s", ENAME(e)); if(kind == 1) { ok.erase(e); ok.insert(EVFS_ERR_IO); ok.insert(EVFS_ERR); } }
  switch(op) {
  case 0: what = "stat"; s = evfs_stat_ex(p.c_str(), &info, v); break;
  case 1: what = "open"; s = evfs_open_ex(p.c_str(), &f, EVFS_READ, v); break;
  case 2: if(kind == 3) discard(); what = "open_dir"; s = evfs_open_dir_ex(d.c_str(), &dh, v); break;
  case 3: what = "read"; s = (int)evfs_file_read(f, buf, 1 + c.below(600)); break;
  case 4: what = "seek"; s = evfs_file_seek(f, (evfs_off_t)c.below(k.ref.at(p)->data.size() + 1), EVFS_SEEK_TO); break;
  case 5: what = "close"; s = evfs_file_close(f); f = nullptr; break;
  case 6: what = "dir_read"; s = evfs_dir_read(dh, &info); break;
  case 7: what = "exclusive open"; s = evfs_open_ex(nw.c_str(), &f, EVFS_WRITE | EVFS_NO_EXIST, v); break;
  case 8: what = "make_dir"; s = evfs_make_dir_ex(nw.c_str(), v); break;
  case 9: what = "delete"; s = evfs_delete_ex(p.c_str(), v); break;
  case 10: what = "rename"; s = evfs_rename_ex(p.c_str(), nw.c_str(), v); break;
  case 11: what = "write"; s = (int)evfs_file_write(f, buf, 1 + c.below(600)); break;
  case 12: what = "truncate"; s = evfs_file_truncate(f, (evfs_off_t)c.below(k.ref.at(p)->data.size() + 1)); break;
  case 13: what = "sync"; s = evfs_file_sync(f); break;
  default: what = "close"; s = evfs_file_close(f); f = nullptr; break;
  }
  bool hit = lfs ? LfsMock::failed() : m.failed; std::string at = lfs ? LfsMock::failed_call() : m.failed_op;
  m.fail_at = -1; LfsMock::fail_at() = -1; c.note("%s %s = %s%s%s", what, quote(op == 2 || op == 6 ? d : op >= 7 && op <= 8 ? nw : p).c_str(), s > 0 ? "a count" : ENAME(s), hit ? ", failed: " : "", hit ? at.c_str() : "");
  if(s < 0) { REQUIRE(hit, "%s = %s without a reason", what, ENAME(s)); REQUIRE(ok.count(s), "%s = %s, although %s failed with %s", what, ENAME(s), at.c_str(), lfs && e == EVFS_ERR ? "an error without a code" : ENAME(e)); c.nontrivial(); }
  if(f) evfs_file_close(f); if(dh) evfs_dir_close(dh);
  k.b.done();
}
const pbt::Prop pbt::props[] = { {"E34.codes", codes, 20000, 400000, 10, 20, ""}, {"E34.faults", faults, 50000, 300000, 10, 20, ""}, {nullptr, nullptr, 0, 0, 0, 0, nullptr} };
