// Path algebra: decomposition, normalisation, joining, absolute conversion, make_path.
#include "common.h"
extern "C" {
#include "evfs/util/range_strings.h"
}
using namespace pbt;
#ifdef ALLOW_LONG_PATHS
static const size_t MAXP = 1000000;
#else
static const size_t MAXP = EVFS_MAX_PATH;
#endif
void pbt::harness_setup() { evfs_init(); }

// ------------------------------------------------------------ reference model
struct Root { size_t len; bool abs; size_t drive; };
static Root root_of(const std::string &p, bool dos) {
  size_t i = 0;
  if(dos && p.size() >= 2 && isalnum((unsigned char)p[0]) && p[1] == ':') i = 2;
  size_t d = i; while(i < p.size() && is_sep(p[i])) i++;
  return { i, i > d, d };
}
static std::vector<std::string> segs(const std::string &p) { return MemFs::split(p); }

static std::string model_norm(const std::string &p, bool dos) {
  Root r = root_of(p, dos);
  std::string out = p.substr(0, r.drive); if(r.abs) out += '/';
  std::vector<std::string> st;
  for(auto &s : segs(p.substr(r.len))) {
    if(s == ".") continue;
    if(s == "..") {
      if(!st.empty() && st.back() != "..") { st.pop_back(); continue; }
      if(r.abs) continue;
    }
    st.push_back(s);
  }
  for(size_t i = 0; i < st.size(); i++) { if(i) out += '/'; out += st[i]; }
  return out;
}

// every operation by name, on the default file system, and on the file system object
static int g_via;
static Evfs *vp() { Evfs *v = evfs_find_vfs("p"); if(!v) pbt::fail("not registered"); return v; }
static int via_path_dirname(const char *p, StringRange *r, const char *n) { return g_via == 0 ? evfs_path_dirname_ex(p, r, n) : g_via == 1 ? evfs_path_dirname(p, r) : evfs_vfs_path_dirname(vp(), p, r); }
static bool via_path_root_component(const char *p, StringRange *r, const char *n) { return g_via == 0 ? evfs_path_root_component_ex(p, r, n) : evfs_path_root_component(p, r); }
static bool via_path_is_absolute(const char *p, const char *n) { return g_via == 0 ? evfs_path_is_absolute_ex(p, n) : g_via == 1 ? evfs_path_is_absolute(p) : evfs_vfs_path_is_absolute(vp(), p); }
static int via_path_join(StringRange *a, StringRange *b, StringRange *r, const char *n) { return g_via == 0 ? evfs_path_join_ex(a, b, r, n) : g_via == 1 ? evfs_path_join(a, b, r) : evfs_vfs_path_join(vp(), a, b, r); }
static int via_path_join_str(const char *a, const char *b, StringRange *r, const char *n) { return g_via == 0 ? evfs_path_join_str_ex(a, b, r, n) : g_via == 1 ? evfs_path_join_str(a, b, r) : evfs_vfs_path_join_str(vp(), a, b, r); }
static int via_path_normalize(const char *p, StringRange *r, const char *n) { return g_via == 0 ? evfs_path_normalize_ex(p, r, n) : g_via == 1 ? evfs_path_normalize(p, r) : evfs_vfs_path_normalize(vp(), p, r); }
static int via_path_absolute(const char *p, StringRange *r, const char *n) { return g_via == 0 ? evfs_path_absolute_ex(p, r, n) : g_via == 1 ? evfs_path_absolute(p, r) : evfs_vfs_path_absolute(vp(), p, r); }
static int via_make_path(const char *p, const char *n) { return g_via == 0 ? evfs_make_path_ex(p, n) : evfs_make_path(p); }
static int via_make_path_range(StringRange *p, const char *n) { return g_via == 0 ? evfs_make_path_range_ex(p, n) : evfs_make_path_range(p); }

// ------------------------------------------------------------ generators
static const char *SEG[] = { "a", "..", ".", "b", "foo", "...", "..x", ".x", "x..", "bar.txt", "a b", "c.d.e", "..a.b", "...." };
static std::string gen_sep(Case &c, bool dup) {
  if(!dup) return c.chance(85) ? "/" : "\\";
  size_t n = c.weighted({70, 20, 10}) + 1; std::string s; for(size_t i = 0; i < n; i++) s += c.chance(75) ? '/' : '\\'; return s;
}
static std::string gen_seg(Case &c) {
  if(c.chance(6)) return std::string(1 + c.below(40), "abcdefgh"[c.below(8)]);
  return SEG[c.weighted({18, 18, 10, 10, 8, 5, 5, 5, 4, 6, 4, 4, 2, 1})];
}
static std::string gen_path(Case &c, bool dos, size_t maxseg, int root_pct = 40) {
  std::string p;
  if(dos && c.chance(30)) { p += c.chance(50) ? "0" : "C"; p += ":"; }
  if(c.chance(root_pct)) { p += gen_sep(c, true); if(c.chance(4)) p += std::string(10 + c.below(20), c.pick({'/', '/', '\\'})); }
  size_t n = c.size(maxseg);
  for(size_t i = 0; i < n; i++) { p += gen_seg(c); if(i + 1 < n || c.chance(15)) p += gen_sep(c, true); }
  return p;
}
struct PathFs : Lib { MemFs fs{"p"}; bool dos; PathFs(bool d) : dos(d) { fs.style = d ? RootStyle::Dos : RootStyle::Posix; fs.reg(true); } };
static bool pick_dos(Case &c) { g_via = (int)c.below(3); return c.chance(30); }

// ------------------------------------------------------------ decomposition
static std::string model_base(const std::string &p) { size_t i = p.find_last_of("/\\"); return i == std::string::npos ? p : p.substr(i+1); }
static std::string model_ext(const std::string &p) {
  std::string b = model_base(p); size_t d = b.rfind('.');
  if(d == std::string::npos) return "";
  size_t lead = b.find_first_not_of('.'); if(lead == std::string::npos || d < lead) return "";
  return b.substr(d);
}
static std::string model_dir(const std::string &p, bool dos) {
  Root r = root_of(p, dos);
  size_t i = p.find_last_of("/\\"); if(i == std::string::npos) return "";
  std::string h = p.substr(0, i+1);
  if(h.size() <= r.len) return h;         // only the root is left: keep it whole
  while(h.size() > r.len && is_sep(h.back())) h.pop_back();
  return h;
}
static void decompose(Case &c) {
  PathFs F(pick_dos(c));
  std::string p = gen_path(c, F.dos, 12);
  // drive-relative names ("C:foo") have no counterpart in the os.path the documents name
  Root r = root_of(p, F.dos); if(r.drive && !r.abs) { p = p.substr(r.drive); r = root_of(p, F.dos); if(r.drive && !r.abs) discard(); }
  Exact in(p);
  c.note("%s path %s", F.dos ? "DOS" : "POSIX", quote(p).c_str());
  StringRange b{0,0}, e{0,0}, d{0,0}, rt{0,0};
  REQUIRE(evfs_path_basename(in.p, &b) == EVFS_OK, "basename failed for %s", quote(p).c_str());
  REQUIRE(evfs_path_extname(in.p, &e) == EVFS_OK, "extname failed for %s", quote(p).c_str());
  REQUIRE(via_path_dirname(in.p, &d, "p") == EVFS_OK, "dirname failed for %s", quote(p).c_str());
  bool ab = via_path_root_component(in.p, &rt, "p");
  for(auto *x : {&b, &e, &d, &rt}) REQUIRE(x->start >= in.p && x->start <= x->end && x->end <= in.p + p.size(), "result of decomposing %s lies outside the path", quote(p).c_str());
  REQUIRE(rstr(b) == model_base(p), "basename(%s) = %s, expected %s", quote(p).c_str(), quote(rstr(b)).c_str(), quote(model_base(p)).c_str());
  REQUIRE(rstr(e) == model_ext(p), "extname(%s) = %s, expected %s", quote(p).c_str(), quote(rstr(e)).c_str(), quote(model_ext(p)).c_str());
  REQUIRE(rstr(d) == model_dir(p, F.dos), "dirname(%s) = %s, expected %s", quote(p).c_str(), quote(rstr(d)).c_str(), quote(model_dir(p, F.dos)).c_str());
  REQUIRE(d.start == in.p, "dirname does not start at the path");
  REQUIRE(e.end == in.p + p.size() && b.end == in.p + p.size(), "basename/extname do not end at the end of the path");
  REQUIRE(ab == r.abs && rt.start == in.p && (size_t)(rt.end - rt.start) == r.len, "root component of %s is %s abs=%d", quote(p).c_str(), quote(rstr(rt)).c_str(), ab);
  REQUIRE(via_path_is_absolute(in.p, "p") == r.abs, "is_absolute(%s)", quote(p).c_str());
  // scanning gives the segments behind the root one after another
  { StringRange el{0, 0}; const char *from = in.p; for(auto &x : segs(p.substr(r.len))) { int q = evfs_vfs_scan_path(vp(), from, &el); REQUIRE(q == EVFS_OK && rstr(el) == x, "scanning %s gives %s %s, expected %s", quote(p).c_str(), ENAME(q), q == EVFS_OK ? quote(rstr(el)).c_str() : "", quote(x).c_str()); REQUIRE(el.start >= in.p && el.end <= in.p + p.size(), "a segment of %s lies outside", quote(p).c_str()); from = nullptr; }
    REQUIRE(evfs_vfs_scan_path(vp(), from, &el) != EVFS_OK, "scanning %s does not end", quote(p).c_str()); }
  // recomposition: dirname + basename name the same object
  if(!model_base(p).empty()) {
    Exact j(p.size() + 8); StringRange jr = j.r();
    if(p.size() + 4 < MAXP) {
      REQUIRE(via_path_join(&d, &b, &jr, "p") == EVFS_OK, "join(dirname, basename) failed");
      REQUIRE(model_norm(j.str(), F.dos) == model_norm(p, F.dos), "join(dirname, basename) of %s is %s", quote(p).c_str(), quote(j.str()).c_str());
    }
  }
  c.nontrivial(segs(p).size() >= 2 || p.find('.') != std::string::npos);
}

// ------------------------------------------------------------ normalize
static void normalize(Case &c) {
  PathFs F(pick_dos(c));
  std::string p = gen_path(c, F.dos, c.chance(30) ? 80 : 14, 50);
  std::string want = model_norm(p, F.dos);
  size_t mode = c.below(3);   // 0: separate ample buffer, 1: in place, 2: separate tight or too small
  c.note("%s normalize %s mode %zu -> %s", F.dos ? "DOS" : "POSIX", quote(p).c_str(), mode, quote(want).c_str());
  std::string got;
  if(mode == 1) {
    size_t extra = c.below(20); Exact b(p.size() + 1 + extra); memcpy(b.p, p.c_str(), p.size()+1); StringRange r = b.r();
    int s = via_path_normalize(b.p, &r, "p");
    REQUIRE(s == EVFS_OK, "in-place normalize(%s) = %s", quote(p).c_str(), ENAME(s));
    REQUIRE(r.start == b.p && r.end == b.p + b.n, "the output range was changed");
    REQUIRE(b.terminated(), "normalized path is not terminated"); got = b.str();
  } else {
    size_t size = mode == 0 ? p.size() + 1 + c.below(64) : (size_t)std::max<int64_t>(0, (int64_t)want.size() + 1 + c.range(-6, 2));
    Exact in(p), b(size); StringRange r = b.r();
    int s = via_path_normalize(in.p, &r, "p");
    REQUIRE(in.str() == p, "normalize changed its input");
    REQUIRE(r.start == b.p && r.end == b.p + b.n, "the output range was changed");
    if(size >= want.size() + 1) REQUIRE(s == EVFS_OK, "normalize(%s) = %s with %zu bytes for %zu", quote(p).c_str(), ENAME(s), size, want.size()+1);
    else REQUIRE(s == EVFS_ERR_OVERFLOW, "normalize(%s) = %s although %zu bytes are too few for %s", quote(p).c_str(), ENAME(s), size, quote(want).c_str());
    if(s != EVFS_OK) { c.label("too_small"); c.nontrivial(); return; }
    REQUIRE(b.terminated(), "normalized path is not terminated"); got = b.str();
  }
  REQUIRE(got == want, "normalize(%s) = %s, expected %s", quote(p).c_str(), quote(got).c_str(), quote(want).c_str());
  // idempotence on the real code
  Exact in2(got), b2(got.size() + 1); StringRange r2 = b2.r();
  REQUIRE(via_path_normalize(in2.p, &r2, "p") == EVFS_OK && b2.str() == got, "normalize is not idempotent on %s: %s", quote(got).c_str(), quote(b2.str()).c_str());
  size_t n = segs(p).size(); if(n > 32) c.label("long_path(>32 segments)");
  c.nontrivial(n >= 2 && got != p);
}

// ------------------------------------------------------------ join
static void join(Case &c) {
  PathFs F(pick_dos(c));
  std::string h = gen_path(c, F.dos, 8), t = gen_path(c, F.dos, 8, 10);
  if(c.chance(12)) { while(h.size() + t.size() < 262) { t += "/" + std::string(1 + c.below(20), 'z'); } t.resize(t.size() - c.below(16)); }
  Root tr = root_of(t, F.dos); if(tr.drive) { t = "d" + t; }
  Root hr = root_of(h, F.dos);
  bool sep = !h.empty() && hr.len != h.size();
  size_t need = h.size() + (sep ? 1 : 0) + t.size() + 1;
  size_t mode = c.below(3); // separate, head aliases output, string variant
  int slack = (int)c.range(-8, 8);
  size_t size = (size_t)std::max<int64_t>(0, (int64_t)need + slack);
  if(mode == 1 && size < h.size() + 1) size = h.size() + 1;
  c.note("%s join %s + %s mode %zu, %zu bytes for %zu", F.dos ? "DOS" : "POSIX", quote(h).c_str(), quote(t).c_str(), mode, size, need);
  Exact tb(t), out(size); int s; StringRange orng = out.r();
  if(mode == 1) {
    memcpy(out.p, h.c_str(), h.size() + 1);
    StringRange tr2 = tb.r(); StringRange hd = out.r();
    s = via_path_join(&hd, &tr2, &orng, "p");
  } else if(mode == 0) {
    // head as a proper substring of a longer string
    std::string longer = h + (c.chance(50) ? std::string("") : std::string("Q/zz")); Exact hb(longer);
    StringRange hd{hb.p, hb.p + h.size()}; StringRange td{tb.p, tb.p + t.size() + (c.chance(50) ? 1 : 0)};
    s = via_path_join(&hd, &td, &orng, "p");
    REQUIRE(hb.str() == longer, "join changed its head");
  } else {
    Exact hb(h);
    s = via_path_join_str(hb.p, tb.p, &orng, "p");
  }
  REQUIRE(tb.str() == t, "join changed its tail");
  size_t maxlen = MAXP;
  if(need > size || need > maxlen + 1) {
    REQUIRE(s == EVFS_ERR_OVERFLOW, "join of %zu bytes into %zu returned %s", need, size, ENAME(s)); c.nontrivial(); c.label("overflow"); return;
  }
  if(h.size() + t.size() + 1 < maxlen) REQUIRE(s == EVFS_OK, "join of %zu bytes into %zu returned %s", need, size, ENAME(s));
  if(s != EVFS_OK) { REQUIRE(s == EVFS_ERR_OVERFLOW, "join returned %s", ENAME(s)); return; }
  REQUIRE(out.terminated(), "joined path is not terminated");
  std::string got = out.str(), want = h + (sep ? "/" : "") + t;
  // at most one separator may be inserted, none may be missing
  std::string alt = h + t;
  bool alt_ok = sep && !h.empty() && is_sep(h.back());
  REQUIRE(got == want || (alt_ok && got == alt), "join(%s, %s) = %s, expected %s", quote(h).c_str(), quote(t).c_str(), quote(got).c_str(), quote(want).c_str());
  c.nontrivial(!h.empty() && !t.empty());
}

// ------------------------------------------------------------ absolute
static void absolute(Case &c) {
  PathFs F(pick_dos(c));
  size_t depth = c.size(6);
  std::vector<std::string> cw; for(size_t i = 0; i < depth; i++) cw.push_back(c.chance(10) ? std::string(1 + c.below(30), 'w') : std::string(c.pick({"d", "dir", "x.y", "..d", "wd"})));
  std::string cwd; for(auto &s : cw) cwd += "/" + s; F.fs.mk(cwd, true); F.fs.cwd = cw;
  std::string p = gen_path(c, F.dos, c.chance(15) ? 50 : 10, 30);
  std::string cwd_s = cwd.empty() ? "/" : cwd;
  Root r = root_of(p, F.dos);
  std::string full, drive;
  if(r.abs) full = p;
  else { drive = r.drive ? p.substr(0, r.drive) : (F.dos ? "0:" : ""); full = drive + cwd_s + "/" + p.substr(r.drive); }
  std::string want = model_norm(full, F.dos);
  size_t joined = full.size();
  size_t mode = c.below(5);   // 0 ample separate, 1 tight separate, 2 in place, 3 input after the output's start, 4 input before it
  size_t size;
  if(mode == 0) size = MAXP > EVFS_MAX_PATH ? std::max<size_t>(EVFS_MAX_PATH, cwd_s.size() + want.size() + p.size() + 10) : EVFS_MAX_PATH;
  else if(mode == 1) size = (size_t)std::max<int64_t>(0, (int64_t)want.size() + 1 + c.range(-5, 12));
  else { size = p.size() + 1 + (mode == 3 ? 6 : 0) + c.below(140); }
  if(size > MAXP) size = MAXP;
  size_t lead = mode == 4 ? c.below(p.size() + 1) : 0;
  size_t off = mode == 3 ? c.below(6) : 0;
  if((mode == 2 || mode == 3) && size < off + p.size() + 1) discard();
  c.note("%s cwd %s absolute(%s) mode %zu size %zu -> %s", F.dos ? "DOS" : "POSIX", cwd_s.c_str(), quote(p).c_str(), mode, size, quote(want).c_str());
  Exact in(p), whole(size + lead); struct { char *p; size_t n; std::string str() const { return std::string(p, strnlen(p, n)); } bool terminated() const { return strnlen(p, n) < n; } } b = { whole.p + lead, size };
  StringRange rr{b.p, b.p + size}; int s;
  if(mode == 4) { if(r.abs || size + lead < p.size() + 1) discard(); memcpy(whole.p, p.c_str(), p.size() + 1); s = via_path_absolute(whole.p, &rr, "p"); }
  else if(mode >= 2) { memcpy(b.p + off, p.c_str(), p.size() + 1); s = via_path_absolute(b.p + off, &rr, "p"); }
  else s = via_path_absolute(in.p, &rr, "p");
  REQUIRE(rr.start == b.p && rr.end == b.p + size, "the output range was changed");
  if(mode < 2) REQUIRE(in.str() == p, "absolute changed its input");
  REQUIRE(F.fs.cwd == cw, "current directory changed");
  // Room the operation may need besides the result: the current directory must fit in the output
  // (after a drive letter given by the path); with shared storage it must fit beside the path.
  size_t cwd_full = cwd_s.size() + (F.dos ? 2 : 0);
  size_t ample = mode < 2 ? (r.abs ? 0 : r.drive + cwd_full + 1) : r.abs ? 0 : p.size() + 1 + cwd_full + 1;
  if(size < want.size() + 1) REQUIRE(s == EVFS_ERR_OVERFLOW, "absolute(%s) = %s although %zu bytes cannot hold %s", quote(p).c_str(), ENAME(s), size, quote(want).c_str());
  else if(size >= ample && joined + 4 < MAXP) REQUIRE(s == EVFS_OK, "absolute(%s) with cwd %s = %s, %zu bytes given", quote(p).c_str(), cwd_s.c_str(), ENAME(s), size);
  if(s != EVFS_OK) { REQUIRE(s == EVFS_ERR_OVERFLOW, "absolute(%s) = %s", quote(p).c_str(), ENAME(s)); c.label("overflow"); c.nontrivial(); return; }
  REQUIRE(b.terminated(), "absolute path is not terminated");
  REQUIRE(b.str() == want, "absolute(%s) with cwd %s = %s, expected %s", quote(p).c_str(), cwd_s.c_str(), quote(b.str()).c_str(), quote(want).c_str());
  REQUIRE(alloc_live() == 0, "absolute leaked %zu blocks", alloc_live());
  if(mode >= 2) c.label("aliased");
  c.nontrivial(!r.abs && !p.empty() && depth > 0);
}

// ------------------------------------------------------------ make_path
static void make_path(Case &c) {
  PathFs F(false);
  F.fs.dots = c.chance(50);
  // a random pre-existing tree
  size_t n = c.below(6);
  static const char *nm[] = { "a", "b", "foo", "x.y" };
  for(size_t i = 0; i < n; i++) {
    std::string q; size_t d = 1 + c.below(4); for(size_t k = 0; k < d; k++) q += std::string("/") + nm[c.below(4)];
    bool ok = true; auto v = MemFs::split(q); NodeP x = F.fs.root; for(auto &s : v) { if(!x->dir) { ok = false; break; } auto it = x->kids.find(s); if(it == x->kids.end()) break; x = it->second; }
    if(ok && !F.fs.at(q)) F.fs.mk(q, !c.chance(20));
  }
  if(c.chance(40)) { F.fs.mk("/a", true); if(F.fs.at("/a")->dir) F.fs.cwd = {"a"}; }
  std::string p; if(c.chance(60)) p += gen_sep(c, true);
  size_t m = 1 + c.below(6);
  for(size_t i = 0; i < m; i++) { p += c.chance(8) ? std::string(".") : c.chance(5) ? std::string("..") : std::string(nm[c.below(4)]); if(i + 1 < m || c.chance(30)) p += gen_sep(c, true); }
  bool range = c.chance(50);
  std::string tail = range ? (c.chance(50) ? std::string("/zzz/yy") : std::string("tail")) : std::string();
  std::string before = F.fs.dump();
  long errs = 0;
  if(c.chance(15)) { F.fs.fail_at = 1 + (long)c.below(8); F.fs.fail_ops = {"mkdir", "stat"}; F.fs.fail_err = any_error(c); if(F.fs.fail_err == EVFS_ERR_NO_FILE) F.fs.fail_err = EVFS_ERR_IO; }
  // expectation
  auto comps = MemFs::split(p); bool abs = is_sep(p[0]);
  std::vector<std::string> cur = abs ? std::vector<std::string>() : F.fs.cwd;
  NodeP model = MemFs::clone(F.fs.root); bool blocked = false;
  auto mat = [&](const std::vector<std::string> &v) -> NodeP { NodeP x = model; for(auto &s : v) { if(!x->dir) return nullptr; auto it = x->kids.find(s); if(it == x->kids.end()) return nullptr; x = it->second; } return x; };
  for(size_t i = 0; i < comps.size() && !blocked; i++) {
    NodeP par = mat(cur); if(!par || !par->dir) { blocked = true; break; }
    if(comps[i] == ".") continue;
    if(comps[i] == "..") { if(!cur.empty()) cur.pop_back(); continue; }
    auto it = par->kids.find(comps[i]);
    if(it == par->kids.end()) { auto d = std::make_shared<MemNode>(); d->dir = true; par->kids[comps[i]] = d; }
    cur.push_back(comps[i]);
  }
  NodeP fin = mat(cur); bool is_file = fin && !fin->dir; if(blocked) is_file = true;
  std::string want; MemFs::dump(model, "", want);
  Exact in(p + tail);
  c.note("make_path %s%s cwd=%s in tree {%s} fail_at=%ld", quote(p).c_str(), range ? " (as a range)" : "", F.fs.cwd.empty() ? "/" : "/a", before.c_str(), F.fs.fail_at);
  int s;
  if(range) { StringRange r{in.p, in.p + p.size()}; s = via_make_path_range(&r, "p"); REQUIRE(r.start == in.p && r.end == in.p + p.size(), "make_path changed the caller's range"); }
  else s = via_make_path(in.p, "p");
  REQUIRE(in.str() == p + tail, "make_path changed its input");
  REQUIRE(alloc_live() == 0, "make_path leaked memory");
  std::string after = F.fs.dump();
  if(F.fs.failed) { REQUIRE(s == F.fs.fail_err, "base error %s reported as %s", ENAME(F.fs.fail_err), ENAME(s)); c.nontrivial(); c.label("fault"); return; }
  if(!is_file) {
    REQUIRE(s == EVFS_OK, "make_path(%s) = %s", quote(p).c_str(), ENAME(s));
    REQUIRE(after == want, "make_path(%s) left tree {%s}, expected {%s}", quote(p).c_str(), after.c_str(), want.c_str());
    F.fs.calls.clear(); F.fs.fail_at = -1;
    REQUIRE(via_make_path(p.c_str(), "p") == EVFS_OK && F.fs.dump() == want, "second make_path is not a no-op");
  } else {
    REQUIRE(s != EVFS_OK, "make_path(%s) succeeded although a file is in the way", quote(p).c_str());
  }
  (void)errs;
  c.nontrivial(comps.size() >= 2 && want != before);
}

// ------------------------------------------------------------ path functions without memory
static void oom(Case &c) {
  PathFs F(c.chance(40)); if(c.chance(60)) { F.fs.mk("/cwd/x.y", true); F.fs.cwd = {"cwd", "x.y"}; }
  Oom o; o.on = true; o.permille = 1000; std::string p = gen_path(c, F.dos, 12), q = gen_path(c, F.dos, 12); if(p.size() > 200) p.resize(200); if(q.size() > 200) q.resize(200);
  int op = (int)c.below(5); bool same = c.chance(40) && op != 1; size_t size = c.chance(80) ? EVFS_MAX_PATH + 300 : c.below(60);
  auto run = [&](bool mem, std::string &got) { // result and final content of the output
    Exact in(p), in2(q), out(std::max(size, same ? p.size() + 1 : (size_t)0)); if(same) memcpy(out.p, p.c_str(), p.size() + 1); else if(out.n) memset(out.p, 0x21, out.n); std::string was(out.p, out.n); char *src = same ? out.p : in.p; StringRange r = out.r();
    auto f = [&]() -> long { r = out.r(); switch(op) { case 0: return via_path_normalize(src, &r, "p"); case 1: return via_path_join_str(in.p, in2.p, &r, "p"); case 2: return via_path_absolute(src, &r, "p"); case 3: { StringRange x{in.p, in.p + p.size()}, y{in2.p, in2.p + q.size()}; return via_path_join(&x, &y, &r, "p"); } default: return via_path_normalize(src, &r, "p"); } };
    o.on = !mem; o.snapshot = [&] { return same ? std::string(out.p, out.n) : ""; }; long s = o.call(c, "path operation", f); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live()); REQUIRE(in.str() == p && in2.str() == q, "the input was changed"); got = s == EVFS_OK ? out.str() : ""; return s; };
  if(op == 3) same = false;
  std::string a, b; c.note("operation %d on %s, %s, %s%zu bytes", op, quote(p).c_str(), quote(q).c_str(), same ? "in place, " : "", size); long s = run(true, a), t = run(false, b);
  REQUIRE(s == t && a == b, "without memory at first: %s %s, with memory: %s %s", ENAME(t), quote(b).c_str(), ENAME(s), quote(a).c_str()); c.nontrivial(o.errors > 0);
}

const Prop pbt::props[] = {
  { "E33.path", oom, 600000, 6000000, 5, 30, "" },
  { "P01", decompose, 3000000, 30000000, 5, 30, "paths from a segment grammar" },
  { "P02", normalize, 2500000, 25000000, 5, 30, "" },
  { "P03.join", join, 1500000, 15000000, 5, 30, "" },
  { "P03.absolute", absolute, 1500000, 15000000, 5, 30, "" },
  { "P04", make_path, 700000, 7000000, 5, 30, "" },
  { nullptr, nullptr, 0, 0, 0, 0, nullptr }
};
