// Paths of any length in any spelling and buffers of any size, on any file system.
#ifndef LIMITS_H
#define LIMITS_H
#include "common.h"
using V = std::vector<std::string>;
struct Limits {
  Case &c; MemFs &m;                 // the model: what has to be on the file system
  std::string top; V vr, cwd;        // the file system under test, its root in the model, its current directory
  std::function<std::string()> raw;  // what really is on the file system (writable ones)
  bool rw = true, rot = false, rel_only = false, opens = true; size_t extra = 0; std::string real_root;
  int longs = 0, refused = 0, done = 0;
  Limits(Case &cc, MemFs &mm) : c(cc), m(mm) {}

  static std::string join(const V &v) { std::string s; for(auto &x : v) s += "/" + x; return s.empty() ? "/" : s; }
  static size_t len(const V &v) { size_t n = 0; for(auto &x : v) n += x.size() + 1; return n; }
  V full(const V &v) { V f = vr; f.insert(f.end(), v.begin(), v.end()); return f; }
  NodeP at(const V &v) { return m.at(full(v)); }
  std::string want() { return m.dump(); }
  static bool under(const V &a, const V &b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }   // b is a or below

  V any(bool dirs_only) { // an existing object
    std::vector<V> all = {{}}; std::vector<std::pair<V, NodeP>> st = {{{}, at({})}};
    while(!st.empty()) { auto x = st.back(); st.pop_back(); for(auto &k : x.second->kids) { if(dirs_only && !k.second->dir) continue; V q = x.first; q.push_back(k.first); all.push_back(q); if(k.second->dir) st.push_back({q, k.second}); } }
    return all[c.below(all.size())];
  }
  V fresh() { // a new name in an existing directory
    V d = any(true); std::string n; int guard = 0; NodeP p = at(d);
    do { n = c.chance(20) ? std::string(c.chance(60) ? 1 + c.below(120) : 240 + c.below(40), "mnop"[c.below(4)]) : std::string("new") + (char)('0' + c.below(10)); } while(p->kids.count(n) && guard++ < 20);
    if(p->kids.count(n)) pbt::discard(); d.push_back(n); return d;
  }
  // a path for v, whose last component may not exist
  std::string spell(const V &v, bool &rel, const char *what) {
    rel = rel_only || c.chance(50); V tok; V base;   // where the tokens start
    if(rel) { size_t k = 0; while(k < cwd.size() && k < v.size() && cwd[k] == v[k]) k++; tok.assign(cwd.size() - k, ".."); tok.insert(tok.end(), v.begin() + (long)k, v.end()); base = cwd; if(tok.empty()) tok.push_back("."); } else tok = v;
    size_t plain = rel ? 0 : 1; for(auto &t : tok) plain += t.size() + 1; if(!tok.empty()) plain--;
    long target = 0;
    switch(c.weighted({40, 34, 13, 13})) { case 1: { long t = c.pick({255L, 256L, 257L, 511L, 512L, 254L, 258L, 513L}); if(c.chance(60)) t -= (long)(rel ? len(cwd) + 1 : 0); if(c.chance(40)) t -= (long)extra; target = t + (long)c.below(3) - 1; break; } case 2: target = 200 + (long)c.below(400); break; case 3: target = 900 + (long)c.below(2300); break; default: break; }
    long need = target - (long)plain; std::string s = rel ? "" : "/";
    // the directories the tokens walk through
    std::vector<V> at_tok; { V p = base; for(auto &t : tok) { at_tok.push_back(p); if(t == "..") p.pop_back(); else if(t != ".") p.push_back(t); } if(tok.empty()) at_tok.push_back(p); }
    size_t gap = at_tok.size() ? c.below(at_tok.size()) : 0; bool spread = c.chance(30);
    auto pad = [&](size_t i, long n) { // exactly n characters which change nothing, followed by a component
      std::string o; if(n <= 0) return o; NodeP d = at(at_tok[i]); std::string u = "./"; if(d && d->dir && c.chance(50)) { V kids; for(auto &k : d->kids) if(k.second->dir && k.first.size() < 130) kids.push_back(k.first); if(!kids.empty()) u = c.pick(kids) + "/../"; }
      if(s.empty() && n == 1) return o;   // a lone separator would make the path absolute
      while((long)(o.size() + u.size()) <= n) o += u;
      while((long)o.size() + 2 <= n && u != "./") o += "./";
      if((long)o.size() < n) o += "/"; if(u == "./" && c.chance(30) && o.size() > 6) for(size_t k = 2; k < o.size(); k++) o[k] = '/'; return o; };
    for(size_t i = 0; i < tok.size(); i++) { if(need > 0) { if(spread) { long n = std::min(need, (long)c.below((uint64_t)need + 1)); if(i + 1 == tok.size()) n = need; std::string o = pad(i, n); need -= (long)o.size(); s += o; } else if(i == gap) { std::string o = pad(i, need); need -= (long)o.size(); s += o; } }
      s += tok[i]; if(i + 1 < tok.size()) s += "/"; }
    if(tok.empty() && need > 0) s += pad(0, need);
    if(s.size() > 180) longs++;
    c.note("%s %s%s (%zu characters)", what, s.size() > 300 ? quote(s.substr(0, 300)).c_str() : quote(s).c_str(), s.size() > 300 ? "..." : "", s.size()); return s;
  }
  bool accept(const std::string &s, const V &v, bool rel) { return s.size() + (rel ? len(cwd) + 1 : 0) + extra + len(v) < 200; }
  // the status of an operation, which should succeed when ok is set
  void judge(const char *op, int s, bool ok, bool must) {
    c.note("  = %s", ENAME(s)); done++;
    if(s == EVFS_OK) REQUIRE(ok, "%s succeeded, although it names nothing suitable", op);
    else { REQUIRE(s < 0, "%s = %s", op, ENAME(s)); refused++; if(must && ok) REQUIRE(s == EVFS_ERR_FS_FULL, "%s = %s", op, ENAME(s)); }
  }
  void same(const char *op) { if(!rw) return; std::string r = raw(), w = want(); REQUIRE(r == w, "after %s the file system has\n%s\ninstead of\n%s", op, r.c_str(), w.c_str()); }
  std::string strip(std::string s) { if(s.size() > 1 && s[1] == ':') s = s.substr(2); return s; }
  void check_cwd() {
    Exact b(2000); auto r = b.r(); int s = evfs_get_cur_dir_ex(&r, top.c_str()); std::string w = real_root + (real_root.empty() || !cwd.empty() ? join(cwd) : "");
    if(s != EVFS_OK) { REQUIRE(w.size() + extra > 150, "get_cur_dir = %s", ENAME(s)); return; }
    REQUIRE(b.terminated(), "the current directory is not terminated"); REQUIRE(strip(b.str()) == w, "the current directory is %s, not %s", quote(b.str()).c_str(), quote(w).c_str());
    size_t n = strlen(b.p), k = c.chance(50) ? n + c.below(4) : c.below(n + 3); if(c.chance(20) && k + 2 > n) k = n + 2 - c.below(std::min<size_t>(n + 2, 5)); Exact t(k); auto q = t.r(); s = evfs_get_cur_dir_ex(&q, top.c_str()); c.note("get_cur_dir into %zu of %zu bytes = %s", k, n + 1, ENAME(s));
    if(s == EVFS_OK) REQUIRE(k > n && t.terminated() && t.str() == b.str(), "the current directory %s, read into %zu bytes, is %s", quote(b.str()).c_str(), k, k ? quote(t.str()).c_str() : "nothing"); else REQUIRE(k <= n, "get_cur_dir into %zu bytes for %zu = %s", k, n + 1, ENAME(s));
  }
  void step() {
    const char *t = top.c_str(); bool rel;
    switch(c.weighted({12, 14, 10, 12, 14, 10, 14, 16, 12})) {
    case 0: case 1: { // information and content
      bool miss = c.chance(20); V v = miss ? fresh() : any(false); NodeP n = miss ? nullptr : at(v); if(!rw) n = nullptr; bool st = !opens || c.chance(50); EvfsInfo in; memset(&in, 0, sizeof in); EvfsFile *fh = nullptr;
      std::string cp = join(v), s = spell(v, rel, st ? "stat" : "read"); EvfsInfo ci; memset(&ci, 0, sizeof ci); bool ok = n && (st || !n->dir); std::vector<uint8_t> cd; bool ci_ok = false;
      auto slurp = [](EvfsFile *f, std::vector<uint8_t> &o) { uint8_t b[300]; ptrdiff_t k; size_t g = 0; while((k = evfs_file_read(f, b, sizeof b)) > 0 && g++ < 2000) o.insert(o.end(), b, b + k); return k; };
      if(!rw && cp.size() < 200) { if(st) ok = ci_ok = evfs_stat_ex(cp.c_str(), &ci, t) == EVFS_OK; else if((ok = evfs_open_ex(cp.c_str(), &fh, EVFS_READ, t) == EVFS_OK)) { slurp(fh, cd); evfs_file_close(fh); } }
      else if(!rw) break;
      if(st) { int r = evfs_stat_ex(s.c_str(), &in, t); judge("stat", r, ok, accept(s, v, rel)); if(r == EVFS_OK) { if(n) REQUIRE(!!(in.type & EVFS_FILE_DIR) == n->dir && (n->dir || (size_t)in.size == n->data.size()), "stat describes another object: %s of %ld bytes", in.type & EVFS_FILE_DIR ? "directory" : "file", (long)in.size); else if(ci_ok) REQUIRE(in.type == ci.type && in.size == ci.size && in.mtime == ci.mtime, "stat describes another object"); } }
      else { fh = nullptr; int r = evfs_open_ex(s.c_str(), &fh, EVFS_READ, t); judge("open", r, ok, accept(s, v, rel)); if(r == EVFS_OK) { std::vector<uint8_t> d; ptrdiff_t e = slurp(fh, d); evfs_file_close(fh); REQUIRE(e == 0 && d == (n ? n->data : cd), "another file was read: %zu bytes, not %zu", d.size(), n ? n->data.size() : cd.size()); } }
      break; }
    case 2: { V v = c.chance(85) ? any(true) : any(false); NodeP n = at(v); std::string s = spell(v, rel, "list"); EvfsDir *dh = nullptr; std::set<std::string> got, exp; bool ok = n->dir; EvfsInfo in;
      auto names = [&](EvfsDir *d, std::set<std::string> &o) { int r; size_t g = 0; while((r = evfs_dir_read(d, &in)) == EVFS_OK && g++ < 500) if(strcmp(in.name, ".") && strcmp(in.name, "..")) o.insert(in.name); return r; };
      if(rw) for(auto &k : n->kids) exp.insert(k.first); else { std::string cp = join(v); if(cp.size() >= 200) break; ok = evfs_open_dir_ex(cp.c_str(), &dh, t) == EVFS_OK; if(ok) { names(dh, exp); evfs_dir_close(dh); } }
      int r = evfs_open_dir_ex(s.c_str(), &dh, t); judge("open_dir", r, ok, accept(s, v, rel)); if(r == EVFS_OK) { int e = names(dh, got); evfs_dir_close(dh); if(e == EVFS_DONE || accept(s, v, rel)) REQUIRE(e == EVFS_DONE && got == exp, "another directory was listed: %zu entries, not %zu (%s)", got.size(), exp.size(), ENAME(e)); } break; }
    case 3: { if(!rw) break; V v = c.chance(85) ? fresh() : any(false); NodeP n = at(v); if(v.empty()) break; std::string s = spell(v, rel, "make_dir"); int r = evfs_make_dir_ex(s.c_str(), t); judge("make_dir", r, !n, accept(s, v, rel) && v.back().size() < 100); if(r == EVFS_OK) m.mk(join(full(v)), true); same("make_dir"); break; }
    case 4: { if(!rw) break; V v = c.chance(85) ? fresh() : any(false); NodeP n = at(v); if(v.empty()) break; std::string s = spell(v, rel, "create"); EvfsFile *fh = nullptr; std::string d = "created " + v.back().substr(0, 5); int r = evfs_open_ex(s.c_str(), &fh, EVFS_RDWR | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST, t); judge("open", r, !n, accept(s, v, rel) && v.back().size() < 100);
      if(r != EVFS_OK) { same("a refused open"); break; }
      ptrdiff_t k = evfs_file_write(fh, d.data(), d.size()); int e = evfs_file_close(fh);
      if(rot) { if(k == (ptrdiff_t)d.size() && e == EVFS_OK) { std::string s2 = spell(v, rel, "read again"); int r2 = evfs_open_ex(s2.c_str(), &fh, EVFS_READ, t); judge("open", r2, true, accept(s2, v, rel)); if(r2 == EVFS_OK) { char b[64]; ptrdiff_t g = evfs_file_read(fh, b, sizeof b); evfs_file_close(fh); REQUIRE(g == (ptrdiff_t)d.size() && !memcmp(b, d.data(), d.size()), "%td bytes of %zu were read", g, d.size()); } }
        for(int i = 0; i < 2; i++) { std::string s3 = i ? join(v) : spell(v, rel, "delete"); if(i && rel_only) { break; } r = evfs_delete_ex(s3.c_str(), t); if(r == EVFS_OK) break; REQUIRE(!accept(s3, v, rel) || i, "delete = %s", ENAME(r)); }
        if(r != EVFS_OK) pbt::discard(); same("deleting"); break; }
      if(k != (ptrdiff_t)d.size() || e != EVFS_OK) pbt::discard();
      m.put(join(full(v)), d.data(), d.size()); same("creating a file"); break; }
    case 5: { if(!rw) break; V v = c.chance(80) ? any(false) : fresh(); NodeP n = at(v); if(v.empty() || under(v, cwd)) break; std::string s = spell(v, rel, "delete"); int r = evfs_delete_ex(s.c_str(), t); judge("delete", r, n && n->kids.empty(), accept(s, v, rel)); if(r == EVFS_OK) { V p(v.begin(), v.end() - 1); at(p)->kids.erase(v.back()); } same("delete"); break; }
    case 6: { if(!rw) break; V a = c.chance(85) ? any(false) : fresh(), b = fresh(); NodeP n = at(a); if(a.empty() || under(a, cwd) || under(a, b)) break; bool rb; std::string s = spell(a, rel, "rename"), d = spell(b, rb, "  to"); int r = evfs_rename_ex(s.c_str(), d.c_str(), t); judge("rename", r, !!n, accept(s, a, rel) && accept(d, b, rb) && b.back().size() < 100);
      if(r == EVFS_OK) { V p(a.begin(), a.end() - 1), q(b.begin(), b.end() - 1); at(p)->kids.erase(a.back()); at(q)->kids[b.back()] = n; } same("rename"); break; }
    case 7: { V v = c.chance(85) ? any(true) : c.chance(50) ? any(false) : fresh(); NodeP n = at(v); std::string s = spell(v, rel, "set_cur_dir"); bool ok = n && n->dir, must = accept(s, v, rel);
      if(!rw) { std::string cp = join(v), back = join(cwd); if(cp.size() >= 200 || back.size() >= 200) break; ok = evfs_set_cur_dir_ex(cp.c_str(), t) == EVFS_OK; if(ok) { int r = evfs_set_cur_dir_ex(back.c_str(), t); REQUIRE(r == EVFS_OK, "set_cur_dir back to %s = %s", back.c_str(), ENAME(r)); } }
      int r = evfs_set_cur_dir_ex(s.c_str(), t); judge("set_cur_dir", r, ok, must); if(r == EVFS_OK) cwd = v; check_cwd(); break; }
    default: { if(rel_only) { check_cwd(); break; } V v = c.chance(60) ? any(false) : fresh(); std::string s = spell(v, rel, "absolute path of"), w = join(v); size_t k = c.chance(10) ? 2000 : c.chance(25) ? EVFS_MAX_PATH : c.chance(60) ? w.size() + c.below(5) : c.below(600); Exact in(s), o(k); auto r = o.r(); int st = evfs_path_absolute_ex(in.p, &r, t); c.note("  into %zu bytes = %s", k, ENAME(st)); REQUIRE(in.str() == s, "the path was changed");
      if(st == EVFS_OK) REQUIRE(k > w.size() && o.terminated() && strip(o.str()) == w, "it is %s, not %s", k ? quote(o.str()).c_str() : "nothing", quote(w).c_str()); else REQUIRE(!(accept(s, v, rel) && k >= 200 && k <= EVFS_MAX_PATH), "path_absolute = %s", ENAME(st)); break; }
    }
  }
};
#endif
