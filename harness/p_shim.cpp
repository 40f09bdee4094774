// Jail and trace shims: containment, transparency, reporting.
#include "fsdiff.h"
extern "C" {
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
}
using namespace pbt;
void pbt::harness_setup() { evfs_init(); }

typedef std::vector<std::string> Comps;
static std::string joinc(const Comps &c) { std::string s; for(auto &x : c) s += "/" + x; return s.empty() ? "/" : s; }
static bool has_prefix(const Comps &c, const Comps &p) { return c.size() >= p.size() && std::equal(p.begin(), p.end(), c.begin()); }

// random initial tree written below prefix p1 of m1 (and p2 of m2)
static void populate(Case &c, MemFs *m1, const std::string &p1, MemFs *m2, const std::string &p2) {
  size_t n = c.size(8); time_t t = 1000;
  m1->mk(p1, true); if(m2) m2->mk(p2, true);
  for(size_t i = 0; i < n; i++) {
    std::string s; size_t k = 1 + c.below(3); for(size_t j = 0; j < k; j++) s += "/" + c.pick(FsDiff::names());
    bool dir = c.chance(40); std::vector<uint8_t> d; if(!dir) d = c.blob(c.size(120));
    // nothing below an ordinary file
    NodeP x = m1->at(p1); bool bad = false; for(auto &e : MemFs::split(s)) { if(!x->dir) { bad = true; break; } auto it = x->kids.find(e); if(it == x->kids.end()) break; x = it->second; if(!x->dir) { bad = true; break; } }
    if(bad || m1->at(p1 + s)) continue;
    c.note("initial %s%s %zu", s.c_str(), dir ? "/" : "", d.size());
    NodeP a = m1->mk(p1 + s, dir); a->data = d; a->mtime = t; if(m2) { NodeP b = m2->mk(p2 + s, dir); b->data = d; b->mtime = t; } t += 77;
  }
}

// ------------------------------------------------------------ J11 containment
static std::string evil_path(Case &c, bool dos) {
  std::string s;
  switch(c.weighted({50, 35, 15})) { case 0: s = c.pick({"/", "//", "\\", "/./", "/../", "/../../"}); break; case 1: break; default: s = dos ? c.pick({"0:", "1:/", "a:\\", "0:..\\", "Z:../"}) : c.pick({"..", "../", "..\\", "0:/", "./"}); }
  size_t n = c.size(c.chance(15) ? 70 : 9);
  for(size_t i = 0; i < n; i++) {
    switch(c.weighted({30, 30, 10, 12, 8, 10})) {
      case 0: s += c.pick(FsDiff::names()); break;
      case 1: s += ".."; break;
      case 2: s += "."; break;
      case 3: s += c.pick({"...", "..a", "a..", ".. ", " ..", "etc", "secret", "j", "x"}); break;
      case 4: s += std::string(1 + c.size(60), 'n'); break;
      default: break;
    }
    s += c.pick({"/", "/", "/", "\\", "//", "\\/"});
  }
  if(c.chance(60)) while(!s.empty() && is_sep(s.back()) && s.size() > 1) s.pop_back();
  return s;
}
static Comps lex(const Comps &cwd, const std::string &path, bool dos) {
  const char *p = path.c_str(); Comps out;
  if(dos && isalnum((unsigned char)p[0]) && p[1] == ':') p += 2;
  if(!is_sep(*p)) out = cwd;
  for(auto &s : MemFs::split(p)) { if(s == ".") continue; if(s == "..") { if(!out.empty()) out.pop_back(); continue; } out.push_back(s); }
  return out;
}
static void contain(Case &c) {
  Lib lib;
  bool dos = c.chance(30); MemFs m("mem"); m.style = dos ? RootStyle::Dos : RootStyle::Posix;
  m.reg(true);
  static const char *ROOTS[] = { "/j", "/home/j", "/a/b/c", "j", "home/../home/./j", "/home//j/", "/home/j/..", "/.." };
  static const char *DROOTS[] = { "0:/j", "/home/j", "0:home\\j", "j", "0:\\home\\.\\j\\", "0:/home/j/..", "a:/x/j", "\\j" };
  std::string spec = dos ? DROOTS[c.below(8)] : ROOTS[c.below(8)];
  if(c.chance(12)) { size_t n = c.below(260); spec = "/" + std::string(n, 'R'); }
  m.mk("/cw", true); if(c.chance(50)) m.cwd = {"cw"};
  Comps R = m.resolve(spec.c_str());
  m.mk("/", true); NodeP top = m.root; (void)top;
  populate(c, &m, joinc(R), nullptr, "");
  m.mk("/secret", true); m.put("/secret/key", "k", 1); m.put("/etc", "e", 1); m.put("/home/x", "h", 1);
  int nest = c.chance(25) ? 1 : 0;
  c.note("jail root %s = %s (%s), nested %d", quote(spec).c_str(), joinc(R).c_str(), dos ? "dos" : "posix", nest);
  Exact rs(spec), nm(std::string("jail")), on(std::string("mem"));
  int rv = evfs_register_jail(nm.p, on.p, rs.p, false);
  size_t rlen = joinc(R).size() + (dos ? 2 : 0);
  if(rlen + 2 < EVFS_MAX_PATH && spec.size() + 10 < EVFS_MAX_PATH) REQUIRE(rv == EVFS_OK, "registering a jail at %s = %s", spec.c_str(), ENAME(rv));
  if(rv != EVFS_OK) { REQUIRE(rv < 0 && !evfs_find_vfs("jail"), "failed registration left the jail behind"); return; }
  Comps J = R;    // root of the jail under test
  const char *V = "jail";
  if(nest) {
    const char *sub = c.pick({"/a", "dd/b", "../../secret", "/"}); REQUIRE(evfs_register_jail("jail2", "jail", sub, false) == EVFS_OK, "nested jail");
    Comps k = lex({}, sub, dos); J.insert(J.end(), k.begin(), k.end()); V = "jail2"; rlen += 2 + strlen(sub);
    m.mk(joinc(J), true);
  }
  Comps cwd; m.log_calls = true;
  size_t n = 1 + c.size(18); int interesting = 0;
  std::vector<EvfsFile *> fs; std::vector<EvfsDir *> ds;
  for(size_t i = 0; i < n; i++) {
    std::string p = evil_path(c, dos); Exact pb(p); const char *pp = pb.p;
    int op = (int)c.below(11); m.calls.clear(); Comps want = lex(cwd, p, dos); std::string q; Comps want2; int s = 0; const char *on = "";
    if((op == 2 || op == 3) && want.empty()) continue;   // the root itself is not removed or renamed
    std::string before = MemFs::clone(m.root) ? std::string() : ""; NodeP snap = MemFs::clone(m.root);
    c.note("op %d path %s -> %s", op, quote(p).c_str(), joinc(want).c_str());
    EvfsInfo info; char buf[EVFS_MAX_PATH]; bool single = true;
    switch(op) {
      case 0: { EvfsFile *f = nullptr; on = "open"; int fl = c.pick({EVFS_READ, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_WRITE|EVFS_OVERWRITE, EVFS_WRITE|EVFS_NO_EXIST}); s = evfs_open_ex(pp, &f, fl, V); if(s == 0) { if((fl & EVFS_WRITE) && !(fl & EVFS_READ)) evfs_file_write(f, "zz", 2); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); } break; }
      case 1: on = "stat"; s = evfs_stat_ex(pp, &info, V); break;
      case 2: on = "delete"; s = evfs_delete_ex(pp, V); break;
      case 3: { q = evil_path(c, dos); want2 = lex(cwd, q, dos); if(want2.empty()) continue; c.note("  to %s", quote(q).c_str()); Exact qb(q); on = "rename"; s = evfs_rename_ex(pp, qb.p, V); break; }
      case 4: on = "mkdir"; s = evfs_make_dir_ex(pp, V); break;
      case 5: single = false; on = "stat"; s = evfs_make_path_ex(pp, V); break;
      case 6: { EvfsDir *d = nullptr; on = "opendir"; s = evfs_open_dir_ex(pp, &d, V); if(s == 0) { while(evfs_dir_read(d, &info) == EVFS_OK) {} evfs_dir_close(d); } break; }
      case 7: case 8: { single = false; on = "setcwd"; s = evfs_set_cur_dir_ex(pp, V); break; }
      case 9: { single = false; size_t k = c.below(EVFS_MAX_PATH) + 1; Exact o(k); StringRange r = o.r(); s = evfs_get_cur_dir_ex(&r, V);
        if(s == EVFS_OK) { REQUIRE(o.terminated(), "current directory not terminated"); Comps g = lex({}, o.str(), dos); REQUIRE(g == cwd, "current directory %s, expected %s", quote(o.str()).c_str(), joinc(cwd).c_str()); }
        else REQUIRE(k <= joinc(cwd).size() + 4 || k < 4, "get_cur_dir into %zu bytes = %s", k, ENAME(s));
        continue; }
      default: { single = false; Exact o(EVFS_MAX_PATH); StringRange r = o.r(); s = evfs_path_absolute_ex(pp, &r, V); if(s == EVFS_OK) { Comps g = lex({}, o.str(), dos); REQUIRE(g == want, "absolute path of %s is %s, expected %s", quote(p).c_str(), quote(o.str()).c_str(), joinc(want).c_str()); } continue; }
    }
    // every call that reached the base file system names something inside the jail
    for(auto &cl : m.calls) {
      if(cl.op == "getcwd" || cl.op == "ctrl" || cl.op == "fctrl") continue;
      REQUIRE(has_prefix(MemFs::split(cl.path2), J), "%s of %s reached %s outside the jail %s", on, quote(p).c_str(), quote(cl.path2).c_str(), joinc(J).c_str());
    }
    size_t bound = rlen + joinc(cwd).size() + std::max(p.size(), q.size()) + 8;
    if(single && op <= 6) {
      Comps full = J; full.insert(full.end(), want.begin(), want.end());
      if(m.calls.empty()) { REQUIRE(s < 0 && bound >= EVFS_MAX_PATH, "%s of %s did not reach the base file system (%s)", on, quote(p).c_str(), ENAME(s)); }
      else {
        REQUIRE(m.calls[0].op == on && MemFs::split(m.calls[0].path2) == full, "%s of %s reached %s, expected %s", on, quote(p).c_str(), m.calls[0].path2.c_str(), joinc(full).c_str());
        if(op == 3) { Comps f2 = J; f2.insert(f2.end(), want2.begin(), want2.end()); REQUIRE(MemFs::split(m.calls[1].path2) == f2, "rename target %s reached %s, expected %s", quote(q).c_str(), m.calls[1].path2.c_str(), joinc(f2).c_str()); }
      }
    }
    if(op == 7 || op == 8) {
      Comps full = J; full.insert(full.end(), want.begin(), want.end()); NodeP t = m.at(full); bool ok = t && t->dir;
      if(s == EVFS_OK) { REQUIRE(ok, "changed into %s which is no directory", joinc(full).c_str()); cwd = want; }
      else if(bound < EVFS_MAX_PATH) REQUIRE(!ok, "changing into directory %s failed: %s", joinc(want).c_str(), ENAME(s));
      StringRange r = RANGE_FROM_ARRAY(buf); REQUIRE(evfs_get_cur_dir_ex(&r, V) == EVFS_OK, "get_cur_dir"); Comps g = lex({}, buf, dos);
      REQUIRE(g == cwd, "after set_cur_dir(%s) = %s the current directory is %s, expected %s", quote(p).c_str(), ENAME(s), quote(std::string(buf)).c_str(), joinc(cwd).c_str());
    }
    if(op <= 8) for(size_t k = 0; k + 1 < p.size(); k++) if(p[k] == '.' && p[k+1] == '.') { interesting++; break; }
    // nothing outside the jail changed
    NodeP now = MemFs::clone(m.root); std::string o1, o2;
    if(!R.empty()) { for(NodeP x : {snap, now}) { Comps par = R; std::string last = par.back(); par.pop_back(); NodeP y = x; for(auto &e : par) { y = y->kids[e]; } if(y) y->kids.erase(last); } }
    else { snap = now; }
    MemFs::dump(snap, "", o1); MemFs::dump(now, "", o2);
    REQUIRE(o1 == o2, "%s of %s changed the tree outside the jail:\n%s\nnow\n%s", on, quote(p).c_str(), o1.c_str(), o2.c_str());
    REQUIRE(m.cwd.size() <= 1, "current directory of the base file system changed");
  }
  c.nontrivial(interesting >= 1 && n >= 3);
  REQUIRE(m.open_files == 0 && m.open_dirs == 0, "handles left open on the base file system");
  evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}

// ------------------------------------------------------------ J12 jail transparency
static void jail_diff(Case &c) {
  Lib lib;
  MemFs m1("mem"), m2("ref"); m1.reg(true); m2.reg(false);
  bool partial = c.chance(30); m1.partial = m2.partial = partial;
  Comps R = c.pick(std::vector<Comps>{{"j"}, {"home", "j"}, {}, {"a", "b", "c"}});
  populate(c, &m1, joinc(R), &m2, "/");
  bool dots = c.chance(30); m1.dots = m2.dots = dots;
  std::string root = joinc(R); if(c.chance(30)) root += "/";
  REQUIRE(evfs_register_jail("jail", "mem", root.c_str(), false) == EVFS_OK, "register jail %s", root.c_str());
  std::string top = "jail";
  if(c.chance(25)) { REQUIRE(evfs_register_jail("jail2", "jail", "/", false) == EVFS_OK, "nested jail"); top = "jail2"; }
  FsDiff d(c, top.c_str(), "ref"); d.chdir = false;   // codes of set_cur_dir differ; done below
  d.skip = [&](const std::string &p) { return m2.resolve(p.c_str()).empty(); };
  size_t n = 6 + c.size(50); int fails = 0;
  if(c.chance(25)) { long k = 1 + (long)c.below(30); int fe = file_error(c); for(MemFs *m : {&m1, &m2}) { m->fail_at = k; m->fail_err = fe; m->fail_ops = {"read", "write", "seek", "open", "delete", "rename", "truncate", "sync", "close", "mkdir", "opendir", "readdir"}; } }
  for(size_t i = 0; i < n; i++) {
    if(c.chance(12)) {
      std::string p = d.std_path(); c.note("chdir %s", quote(p).c_str());
      long k1 = m1.fail_at, k2 = m2.fail_at; (void)k1; (void)k2;
      int a = evfs_set_cur_dir_ex(p.c_str(), top.c_str()), b = evfs_set_cur_dir_ex(p.c_str(), "ref");
      REQUIRE((a < 0) == (b < 0), "set_cur_dir(%s): jail %s, reference %s", quote(p).c_str(), ENAME(a), ENAME(b));
      char b1[EVFS_MAX_PATH], b2[EVFS_MAX_PATH]; StringRange r1 = RANGE_FROM_ARRAY(b1), r2 = RANGE_FROM_ARRAY(b2);
      REQUIRE(evfs_get_cur_dir_ex(&r1, top.c_str()) == 0 && evfs_get_cur_dir_ex(&r2, "ref") == 0, "get_cur_dir");
      Comps x = m2.resolve(b1), y = m2.resolve(b2); REQUIRE(x == y, "current directory %s, reference %s", b1, b2);
    } else d.step();
    std::string x, y; NodeP jr = m1.at(R); REQUIRE(jr != nullptr, "jail root vanished"); MemFs::dump(jr, "", x); MemFs::dump(m2.root, "", y);
    REQUIRE(x == y, "tree in the jail\n%s\nreference\n%s", x.c_str(), y.c_str());
  }
  (void)fails;
  d.finish();
  REQUIRE(m1.open_files == m2.open_files && m1.open_dirs == m2.open_dirs && m1.open_files == 0, "open handles: base %d files %d dirs", m1.open_files, m1.open_dirs);
  c.nontrivial(d.ok_mut >= 2 && d.ok_reads >= 1);
  evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}

// ------------------------------------------------------------ T13 trace
static std::string *g_rep; static int g_reports;
static int report(const char *buf, void *ctx) { *(std::string *)ctx += buf; g_reports++; return 0; }
static std::string strip(const std::string &s) { std::string o; for(size_t i = 0; i < s.size(); i++) { if(s[i] == 0x1b) { while(i < s.size() && s[i] != 'm') i++; continue; } o += s[i]; } return o; }
static void trace_diff(Case &c) {
  Lib lib; std::string rep; g_rep = &rep;
  MemFs m1("mem"), m2("ref"); m1.reg(true); m2.reg(false);
  if(c.chance(30)) m1.partial = m2.partial = true;
  populate(c, &m1, "/", &m2, "/");
  if(c.chance(30)) m1.dots = m2.dots = true;
  REQUIRE(evfs_register_trace("tr", "mem", report, &rep, false) == EVFS_OK, "register trace");
  std::string top = "tr";
  if(c.chance(20)) { REQUIRE(evfs_register_trace("tr2", "tr", report, &rep, false) == EVFS_OK, "nested trace"); top = "tr2"; }
  if(c.chance(25)) { long k = 1 + (long)c.below(30); int fe = any_error(c); for(MemFs *m : {&m1, &m2}) { m->fail_at = k; m->fail_err = fe; } }
  FsDiff d(c, top.c_str(), "ref");
  if(c.chance(20)) { auto g = d.path; d.path = [&c, g]() { return c.chance(30) ? "/" + c.chars("abc%sdn_/", 1, 300) : g(); }; }
  size_t n = 6 + c.size(50);
  m1.log_calls = m2.log_calls = true;
  for(size_t i = 0; i < n; i++) {
    rep.clear(); m1.calls.clear(); m2.calls.clear(); int before = d.ops; (void)before;
    d.step();
    // the base file system saw the same calls with the same arguments
    REQUIRE(m1.calls.size() == m2.calls.size(), "%zu calls reached the base, %zu without the shim", m1.calls.size(), m2.calls.size());
    for(size_t k = 0; k < m1.calls.size(); k++) REQUIRE(m1.calls[k].op == m2.calls[k].op && m1.calls[k].path == m2.calls[k].path && m1.calls[k].flags == m2.calls[k].flags, "call %s(%s) became %s(%s)", m2.calls[k].op.c_str(), m2.calls[k].path.c_str(), m1.calls[k].op.c_str(), m1.calls[k].path.c_str());
    std::string x = m1.dump(), y = m2.dump(); REQUIRE(x == y, "tree through the shim\n%s\nreference\n%s", x.c_str(), y.c_str());
  }
  d.finish();
  REQUIRE(m1.open_files == 0 && m1.open_dirs == 0, "open handles: base %d files %d dirs", m1.open_files, m1.open_dirs);
  c.nontrivial(d.ok_mut >= 2 && d.ok_reads >= 1);
  evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
// the report names the call and its result
static std::string resname(long v) { return std::string(evfs_err_name((int)v)); }
static void trace_report(Case &c) {
  Lib lib; std::string rep; MemFs m("mem"); m.reg(true); populate(c, &m, "/", nullptr, "");
  m.mk("/dz", true); std::string fn = c.pick(std::vector<std::string>{"f", "log.txt", std::string(40, 'x'), "100%d", "%s%n"}); auto data = c.blob(c.size(200)); m.put("/dz/" + fn, data);
  std::string vn = c.pick(std::vector<std::string>{"tr", "trace_vfs", "t%s"});
  REQUIRE(evfs_register_trace(vn.c_str(), "mem", report, &rep, false) == EVFS_OK, "register trace");
  const char *V = vn.c_str();
  // The report of one operation: named once with its arguments in order, then its result
  auto check = [&](const char *what, std::vector<std::string> args, const std::string &res) {
    std::string t = strip(rep), call = vn + ".m_" + what + "("; size_t at = t.find(call), k = at + call.size(), n = 0;
    for(size_t q = 0; (q = t.find(std::string(".m_") + what + "(", q)) != std::string::npos; q++) n++;
    REQUIRE(at != std::string::npos && n == 1, "%s is reported %zu times: %s", what, n, quote(t).c_str());
    auto ends = [&](size_t q) { return q >= t.size() || (!isalnum((unsigned char)t[q]) && t[q] != '_'); };
    for(auto &a : args) { size_t q = t.find(a, k); REQUIRE(q != std::string::npos && (a[0] == '=' || ends(q - 1)) && ends(q + a.size()), "%s with %s reported as %s", what, a.c_str(), quote(t).c_str()); k = q + a.size(); }
    size_t q = t.find(" -> ", k), e = q == std::string::npos ? q : t.find('\n', q); REQUIRE(q != std::string::npos, "%s reported without a result: %s", what, quote(t).c_str()); size_t l = t.find(".m_", k); REQUIRE(l == std::string::npos || q < l, "%s reported without a result: %s", what, quote(t).c_str());
    std::string r = t.substr(q + 4, e == std::string::npos ? e : e - q - 4); while(!r.empty() && (r.back() == ' ' || r.back() == ']')) r.pop_back(); REQUIRE(r == res, "%s with result %s reported as %s", what, res.c_str(), quote(t).c_str()); rep.clear();
  };
  auto num = [](long long v) { return "=" + std::to_string(v); }; auto count = [](long long r) { return r < 0 ? resname(r) : std::to_string(r); };
  auto flg = [](int f) { char b[16]; snprintf(b, sizeof b, "=0x%02X", f); return std::string(b); };
  EvfsFile *f = nullptr; std::string p = "/dz/" + fn, shown = fn.substr(0, 32); int s = evfs_open_ex(p.c_str(), &f, EVFS_RDWR, V); REQUIRE(s == 0, "open"); check("open", {shown, flg(EVFS_RDWR)}, resname(s)); EvfsDir *d = nullptr; std::string dn;
  size_t n = 2 + c.size(15); int done = 0; static const std::vector<std::string> PS = {"/new", "/dz", "/no/pe", "/new/x", "/a b", "/100%d"};
  for(size_t i = 0; i < n; i++) {
    bool inject = c.chance(20); if(inject) { m.op_no = 0; m.fail_at = 1; m.fail_err = any_error(c); }
    rep.clear();
    switch(c.below(18)) {
      case 0: { size_t k = c.size(200); Exact b(k); ptrdiff_t r = evfs_file_read(f, b.p, k); check("read", {shown, num(k)}, count(r)); break; }
      case 1: { size_t k = c.size(200); Exact b(k); ptrdiff_t r = evfs_file_write(f, b.p, k); check("write", {shown, num(k)}, count(r)); break; }
      case 2: { long off = (long)c.range(-100, 300); EvfsSeekDir o = c.pick({EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); if(o != EVFS_SEEK_REL && off < 0) off = -off; c.note("seek %ld", off); int r = evfs_file_seek(f, (evfs_off_t)off, o); check("seek", {shown, num(off), o == EVFS_SEEK_TO ? "EVFS_SEEK_TO" : o == EVFS_SEEK_REL ? "EVFS_SEEK_REL" : "EVFS_SEEK_REV"}, resname(r)); break; }
      case 3: { if(sizeof(evfs_off_t) > 4 && !inject && c.chance(30)) { evfs_off_t back = evfs_file_tell(f); evfs_file_seek(f, (evfs_off_t)5000000000LL, EVFS_SEEK_TO); rep.clear(); evfs_off_t r = evfs_file_tell(f); check("tell", {shown}, std::to_string((long)r)); evfs_file_seek(f, back, EVFS_SEEK_TO); break; }
        evfs_off_t r = evfs_file_tell(f); check("tell", {shown}, std::to_string((long)r)); break; }
      case 4: { evfs_off_t r = evfs_file_size(f); if(!inject) check("size", {shown}, std::to_string((long)r)); break; }
      case 5: { evfs_off_t k = (evfs_off_t)c.size(300); if(c.chance(10)) k = -k; int r = evfs_file_truncate(f, k); check("truncate", {shown, num(k)}, resname(r)); break; }
      case 6: { int r = evfs_file_sync(f); check("sync", {shown}, resname(r)); break; }
      case 7: { EvfsInfo i; std::string q = c.pick({"/dz", "/nope", "/dz/b/c"}); int r = evfs_stat_ex(q.c_str(), &i, V); check("stat", {q}, resname(r)); break; }
      case 8: { std::string q = c.pick(PS); int r = evfs_make_dir_ex(q.c_str(), V); check("make_dir", {q}, resname(r)); break; }
      case 9: { std::string q = c.pick(PS); int r = evfs_delete_ex(q.c_str(), V); check("delete", {q}, resname(r)); break; }
      case 10: { std::string q = c.pick(PS), w = c.pick(PS); int r = evfs_rename_ex(q.c_str(), w.c_str(), V); check("rename", {q, w}, resname(r)); break; }
      case 11: { bool r = evfs_file_eof(f); check("eof", {shown}, r ? "T" : "f"); break; }
      case 12: { int cmd = c.pick({(int)EVFS_CMD_GET_RSRC_ADDR, (int)EVFS_CMD_USER_DEFINED, 77, -3}), v[4] = {0}; int r = evfs_file_ctrl(f, cmd, v); std::string cn = evfs_cmd_name(cmd); check("ctrl", {shown, cn[0] == '<' ? num(cmd) : cn}, resname(r)); break; }
      case 13: { int cmd = c.pick({(int)EVFS_CMD_GET_DIR_FIELDS, (int)EVFS_CMD_SET_NO_DIR_DOTS, (int)EVFS_CMD_USER_DEFINED, 77, -3}); unsigned v = 0; int r = evfs_vfs_ctrl_ex(cmd, &v, V); std::string cn = evfs_cmd_name(cmd); if(cn[0] == '<') cn = std::to_string(cmd); check("vfs_ctrl", {cn}, resname(r)); break; }
      case 14: { char b[64]; StringRange sr; range_init(&sr, b, sizeof b); int r = evfs_get_cur_dir_ex(&sr, V); check("get_cur_dir", {}, resname(r)); break; }
      case 15: { std::string q = c.pick(std::vector<std::string>{"/dz", "/", "/nope", "/dz/" + fn}); int r = evfs_set_cur_dir_ex(q.c_str(), V); check("set_cur_dir", {q}, resname(r)); break; }
      case 16: { StringRange r; std::string q = c.pick({"/dz", "x/y", ""}); bool a = evfs_path_root_component_ex(q.c_str(), &r, V); check("path_root_component", {q}, "'" + q.substr(0, a ? 1 : 0) + "' " + (a ? "absolute" : "relative")); break; }
      default:
        if(d) { int r; EvfsInfo inf; switch(c.below(4)) { case 0: r = evfs_dir_rewind(d); check("dir_rewind", {dn}, resname(r)); break; case 1: r = evfs_dir_close(d); check("dir_close", {dn}, resname(r)); d = nullptr; break; default: r = evfs_dir_read(d, &inf); check("dir_read", {dn}, resname(r)); } }
        else if(c.chance(60)) { std::string q = c.pick({"/dz", "/nope", "/"}); int r = evfs_open_dir_ex(q.c_str(), &d, V); check("open_dir", {q}, resname(r)); dn = q; if(r != EVFS_OK) d = nullptr; }
        else { std::string w = c.pick({std::string("g"), fn, std::string("%n")}); EvfsFile *h = nullptr; int fl = c.pick({EVFS_READ, EVFS_RDWR, EVFS_RDWR|EVFS_APPEND, EVFS_RDWR|EVFS_OPEN_OR_NEW, EVFS_WRITE|EVFS_OVERWRITE}); int r = evfs_open_ex(("/dz/" + w).c_str(), &h, fl, V); w = w.substr(0, 32); check("open", {w, flg(fl)}, resname(r)); if(r == EVFS_OK) { r = evfs_file_close(h); check("close", {w}, resname(r)); } }
        break;
    }
    m.fail_at = -1; done++;
  }
  rep.clear(); if(d) { s = evfs_dir_close(d); check("dir_close", {dn}, resname(s)); } s = evfs_file_close(f); check("close", {shown}, resname(s));
  c.nontrivial(done >= 3);
  evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}


// ------------------------------------------------------------ E33 shims without memory
static void shim_oom(Case &c) {
  Lib lib; std::string rep; MemFs m1("mem"), m2("ref"); m1.reg(true); m2.reg(false); if(c.chance(20)) m1.partial = m2.partial = true;
  Comps R = c.pick(std::vector<Comps>{{"j"}, {"home", "j"}, {}}); populate(c, &m1, joinc(R), &m2, "/");
  Oom o; o.on = true; o.snapshot = [&] { return m1.dump(); }; std::string top = "mem"; bool rot = false; size_t n = 1 + c.below(3); if(n == 1 && R.size()) n = 2;
  for(size_t i = 0; i < n; i++) { int k = i == 0 && R.size() ? 0 : (int)c.below(3); std::string nm = "s" + std::to_string(i); int s; RotateConfig cfg; memset(&cfg, 0, sizeof cfg); cfg.chunk_size = 64; cfg.max_chunks = 4;
    auto reg = [&]() { int r = k == 0 ? evfs_register_jail(nm.c_str(), top.c_str(), i == 0 ? joinc(R).c_str() : "/", false) : k == 1 ? evfs_register_trace(nm.c_str(), top.c_str(), report, &rep, false) : evfs_register_rotate(nm.c_str(), top.c_str(), &cfg, false); REQUIRE((r == EVFS_OK) == (evfs_find_vfs(nm.c_str()) != nullptr), "register = %s", ENAME(r)); return r; };
    c.note("%s over %s", k == 0 ? "jail" : k == 1 ? "trace" : "rotate", top.c_str()); s = (int)o.call(c, "register", reg); REQUIRE(s == EVFS_OK, "register = %s", ENAME(s)); rot |= k == 2; top = nm; }
  FsDiff d(c, top.c_str(), "ref"); d.exact = false; d.oom.on = true; d.oom.snapshot = o.snapshot; d.skip = [&](const std::string &p) { return m2.resolve(p.c_str()).empty(); };
  if(rot) d.open_ok = [&](const std::string &p) { return m2.at(m2.resolve(p.c_str())) != nullptr; };
  n = 6 + c.size(40);
  for(size_t i = 0; i < n; i++) { d.step(); rep.clear(); std::string x, y; NodeP jr = m1.at(R); REQUIRE(jr != nullptr, "jail root vanished"); MemFs::dump(jr, "", x); MemFs::dump(m2.root, "", y); REQUIRE(x == y, "tree\n%s\nreference\n%s", x.c_str(), y.c_str()); }
  d.finish(); REQUIRE(m1.open_files == 0 && m1.open_dirs == 0, "open handles: base %d files %d dirs", m1.open_files, m1.open_dirs);
  c.nontrivial(d.ok_mut >= 2 && d.ok_reads >= 1 && d.oom.errors + o.errors >= 1);
  evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}

const pbt::Prop pbt::props[] = {
  {"E33.shim", shim_oom, 100000, 1500000, 5, 20, ""},
  {"J11", contain, 60000, 1200000, 5, 20, ""},
  {"J12", jail_diff, 250000, 2500000, 5, 20, ""},
  {"T13.diff", trace_diff, 120000, 1500000, 5, 20, ""},
  {"T13.report", trace_report, 120000, 1500000, 5, 20, ""},
  {nullptr, nullptr, 0, 0, 0, 0, nullptr}
};
