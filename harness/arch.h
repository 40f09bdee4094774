// Writers and generators of tar and romfs archives.
#ifndef ARCH_H
#define ARCH_H
#include "fsdiff.h"
extern "C" {
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/tar_iter.h"
#include "evfs/tar_iter_rsrc.h"
#include "evfs/romfs_fs.h"
}
using namespace pbt;
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- tar writer
struct TEnt { std::string path; char type; Bytes data; bool posix; size_t split = 0; };  // split: length of the prefix part
static void octal(uint8_t *p, size_t n, uint64_t v) { for(size_t i = n - 1; i-- > 0;) { p[i] = (uint8_t)('0' + (v & 7)); v >>= 3; } p[n-1] = 0; }
static void tar_sum(uint8_t *h, int style) { memset(h + 148, ' ', 8); unsigned s = 0; for(int i = 0; i < 512; i++) s += h[i]; octal(h + 148, 7, s); if(style) { h[154] = 0; h[155] = ' '; } else h[155] = 0; }
static void tar_put(Bytes &o, const TEnt &e, Case &c) {
  uint8_t h[512] = {0}; std::string n = e.path, pre; if(e.split) { pre = n.substr(0, e.split); n = n.substr(e.split + 1); }
  if(e.type == '5') n += "/";
  memcpy(h, n.data(), n.size() > 100 ? 100 : n.size()); memcpy(h + 345, pre.data(), pre.size());
  octal(h + 100, 8, 0644); octal(h + 108, 8, c.below(3000)); octal(h + 116, 8, 1000); octal(h + 124, 12, e.type == '5' || e.type == '2' ? 0 : e.data.size()); octal(h + 136, 12, 1700000000); h[156] = (uint8_t)e.type;
  if(e.type == '2') memcpy(h + 157, "target", 6);
  memcpy(h + 257, e.posix ? "ustar\0" "00" : "ustar  \0", 8); memcpy(h + 265, "user", 4); memcpy(h + 297, "group", 5);
  if(e.type == '3' || e.type == '4') { octal(h + 329, 8, 3); octal(h + 337, 8, 4); }
  tar_sum(h, 1); o.insert(o.end(), h, h + 512);
  if(e.type != '5' && e.type != '2') { o.insert(o.end(), e.data.begin(), e.data.end()); o.resize((o.size() + 511) / 512 * 512); }
}

// ---------------------------------------------------------------- romfs writer
struct RNode { std::string name; int type = 2; bool exec = false; Bytes data; std::vector<RNode *> kids; RNode *link = nullptr; RNode *parent = nullptr; uint32_t off = 0, spec = 0; };
static void be32(Bytes &o, size_t p, uint32_t v) { for(int i = 0; i < 4; i++) o[p+i] = (uint8_t)(v >> (24 - 8*i)); }
static uint32_t sum32(const Bytes &o, size_t p, size_t n) { uint32_t s = 0; for(size_t i = 0; i + 4 <= n; i += 4) s += (uint32_t)o[p+i] << 24 | o[p+i+1] << 16 | o[p+i+2] << 8 | o[p+i+3]; return s; }
static size_t a16(size_t n) { return (n + 15) & ~(size_t)15; }
static size_t hlen(const RNode *n) { return 16 + a16(n->name.size() + 1); }
static void rom_layout(RNode *n, size_t &pos, Case &c, bool gaps) {
  if(gaps && c.chance(15)) pos += 16 * c.below(5);
  n->off = (uint32_t)pos; pos += hlen(n); pos = a16(pos + n->data.size());
  for(RNode *k : n->kids) rom_layout(k, pos, c, gaps);
}
static void rom_emit(RNode *n, Bytes &o, uint32_t next) {
  uint32_t spec = 0; if(n->type == 1) spec = n->kids.empty() ? n->off : n->kids[0]->off; else if(n->type == 0) spec = n->link->off; else if(n->type == 4 || n->type == 5) spec = 0x00030004;
  n->spec = spec; be32(o, n->off, next | (uint32_t)n->type | (n->exec ? 8 : 0)); be32(o, n->off + 4, spec); be32(o, n->off + 8, (uint32_t)n->data.size());
  memcpy(&o[n->off + 16], n->name.data(), n->name.size()); be32(o, n->off + 12, 0); be32(o, n->off + 12, -sum32(o, n->off, hlen(n)));
  if(n->data.size()) memcpy(&o[n->off + hlen(n)], n->data.data(), n->data.size());
  for(size_t i = 0; i < n->kids.size(); i++) rom_emit(n->kids[i], o, i + 1 < n->kids.size() ? n->kids[i+1]->off : 0);
}
struct RomImg {
  std::vector<std::unique_ptr<RNode>> pool; RNode *root; std::vector<RNode *> files;
  RNode *mk(RNode *p, const std::string &n, int t) { pool.emplace_back(new RNode); RNode *x = pool.back().get(); x->name = n; x->type = t; x->parent = p; return x; }
  RomImg() { root = mk(nullptr, ".", 1); root->exec = true; }
  Bytes build(Case &c, const std::string &vol, bool gaps) {
    // the root node is the first entry of its own list
    size_t pos = 16 + a16(vol.size() + 1); root->off = (uint32_t)pos; std::vector<RNode *> top = root->kids; root->kids.clear();
    pos += hlen(root); RNode *dd = mk(root, "..", 0); dd->link = root; top.insert(top.begin(), dd); for(RNode *k : top) rom_layout(k, pos, c, gaps);
    Bytes o(a16(pos)); memcpy(&o[0], "-rom1fs-", 8); be32(o, 8, (uint32_t)o.size()); memcpy(&o[16], vol.data(), vol.size());
    rom_emit(root, o, top[0]->off); be32(o, root->off + 4, root->off); be32(o, root->off + 12, 0); be32(o, root->off + 12, -sum32(o, root->off, hlen(root)));
    for(size_t i = 0; i < top.size(); i++) rom_emit(top[i], o, i + 1 < top.size() ? top[i+1]->off : 0);
    root->kids = top; size_t n = o.size() < 512 ? o.size() : 512; be32(o, 12, 0); be32(o, 12, -sum32(o, 0, n)); if(c.chance(50)) o.resize((o.size() + 1023) / 1024 * 1024); return o;
  }
};

// ---------------------------------------------------------------- generated archives
struct Arch {
  std::string kind; bool rsrc = false, tar = true, parents = true;
  Bytes img; std::vector<std::string> paths; std::set<MemNode *> special;
  std::map<std::string, Bytes> files;   // contents by path
  struct Rec { size_t off; TEnt e; }; std::vector<Rec> recs;   // tar entries as written
  struct Head { std::string path; size_t off, len, list, target; int type; std::vector<size_t> route; }; std::vector<Head> heads;   // romfs headers: directory list they are in (by its first header), target of a link, headers on the way
  size_t root_list = 0;
};
static std::string any_name(Case &c, size_t max) {
  static const std::string al = "abAB.-_ 0~+"; std::string s;
  switch(c.weighted({60, 25, 15})) { case 0: s = c.pick(FsDiff::names()); break; case 1: s = c.chars(al, 1, 12); break; default: s = c.chars(al, max > 4 ? max - 4 : 1, max); }
  if(s.size() > max) s.resize(max); if(s == "." || s == ".." ) s += "x"; return s;
}
static Bytes any_data(Case &c) { size_t n = c.weighted({20, 50, 30}); return c.blob(n == 0 ? 0 : n == 1 ? c.size(300) : c.pick({(size_t)511, (size_t)512, (size_t)513, (size_t)1024, (size_t)15, (size_t)16, (size_t)17, c.size(3000)})); }
static void gen_tar(Case &c, Arch &a, MemFs &m) {
  Bytes &o = a.img; a.tar = true; a.parents = !c.chance(15); std::vector<std::string> dirs = {""}; size_t n = c.size(14); bool dot = c.chance(25);   // archive of "."
  if(dot && c.chance(70)) { TEnt e; e.path = "."; e.type = '5'; e.posix = c.chance(35); a.recs.push_back({o.size(), e}); tar_put(o, e, c); }
  for(size_t i = 0; i < n; i++) {
    std::string d = c.pick(dirs), p; size_t room = 0; TEnt e; e.posix = c.chance(35);
    p = d.empty() ? "" : d + "/"; if(p.size() > 200) continue; room = 240 - p.size(); if(room > 99) room = 99; p += any_name(c, c.chance(20) ? room : 20);
    if(p.size() > 245) continue;
    e.type = c.pick({'0', '0', '0', '0', '5', '5', '2', 'x', 'g', '4'}); if(!a.parents && e.type == '5') e.type = '0';
    if(!a.parents && d.empty() && c.chance(50)) p = c.pick(FsDiff::names()) + "/" + p;
    size_t lim = (e.type == '5' ? 99 : 100) - (dot ? 2 : 0);
    if(p.size() > lim || (e.posix && c.chance(20))) { // needs a prefix
      std::vector<size_t> cut; for(size_t k = 1; k + 1 < p.size(); k++) if(p[k] == '/' && k <= 155 && p.size() - k - 1 <= lim) cut.push_back(k);
      if(cut.empty()) { if(p.size() > lim) { if(!c.chance(30)) continue; p.resize(lim); if(p.back() == '/') continue; } } else { e.split = c.pick(cut); if(p.size() > lim) e.posix = true; } }
    if(dot) { e.path = "./" + p; if(e.split) e.split += 2; if(e.split > 155) continue; } else e.path = p; NodeP old = m.at("/" + p);
    if(e.type == '5') { if(old) { if(!old->dir) continue; } else { m.mk("/" + p, true); dirs.push_back(p); } }
    else if(e.type == '0') { if(old && old->dir) continue; e.data = any_data(c); m.put("/" + p, e.data); a.files["/" + p] = e.data; if(!old) a.paths.push_back("/" + p); }
    else { if(old) continue; if(e.type != '2') e.data = any_data(c); a.paths.push_back("/" + p); }  // not visible
    c.note("entry %c %s (%zu bytes)%s%s", e.type, quote(p).c_str(), e.data.size(), e.posix ? " posix" : "", e.split ? " with prefix" : ""); a.recs.push_back({o.size(), e}); tar_put(o, e, c);
  }
  for(auto &d : dirs) a.paths.push_back("/" + d);
  o.resize(o.size() + 512 * c.pick({2, 2, 2, 1, 0, 5}));
}
static void gen_rom(Case &c, Arch &a, MemFs &m) {
  a.tar = false; RomImg r; std::vector<std::pair<RNode *, std::string>> dirs = {{r.root, ""}}; std::vector<std::pair<RNode *, std::string>> regs; size_t n = c.size(14); std::set<std::string> have;
  bool early = c.chance(20);   // entries in front of the dot entries of subdirectories
  for(size_t i = 0; i < n; i++) {
    auto d = c.pick(dirs); std::string nm = any_name(c, c.chance(30) ? 31 : 15); std::string p = d.second + "/" + nm; if(have.count(p) || p.size() > 230) continue; have.insert(p);
    int t = c.pick({2, 2, 2, 2, 1, 1, 1, 0, 3, 4, 7}); if(t == 0 && regs.empty()) t = 2;
    RNode *x = r.mk(d.first, nm, t); x->exec = c.chance(30); 
    size_t at = early && d.first != r.root ? c.below(d.first->kids.size() + 1) : d.first->kids.size(); d.first->kids.insert(d.first->kids.begin() + (long)at, x);
    if(t == 1) { m.mk(p, true); dirs.push_back({x, p}); RNode *k = r.mk(x, ".", 0); k->link = x; x->kids.push_back(k); k = r.mk(x, "..", 0); k->link = d.first; x->kids.push_back(k); }
    else if(t == 2) { x->data = any_data(c); m.put(p, x->data); regs.push_back({x, p}); a.files[p] = x->data; }
    else if(t == 0) { auto &l = c.pick(regs); x->link = l.first; NodeP par = m.at(d.second); par->kids[nm] = m.at(l.second); a.files[p] = l.first->data; }
    else { if(t == 3) x->data = c.blob(c.size(20)); m.put(p, x->data); a.special.insert(m.at(p).get()); }
    a.paths.push_back(p); c.note("entry type %d %s (%zu bytes)", t, quote(p).c_str(), x->data.size());
  }
  a.paths.push_back("/"); std::string vol = c.chars("abc xyz", 0, c.chance(30) ? 31 : 10);
  a.img = r.build(c, vol, c.chance(30)); a.root_list = r.root->off;
  std::function<void(RNode *, std::string, std::vector<size_t>)> walk = [&](RNode *d, std::string p, std::vector<size_t> way) {
    std::vector<RNode *> l = d->kids; std::vector<size_t> offs; bool top = d == r.root; if(top) { way = {d->off}; offs = {d->off}; } for(auto *k : l) offs.push_back(k->off);
    size_t first = top ? d->off : l.empty() ? 0 : l[0]->off; size_t n = top ? 1 : 0; if(top) a.heads.push_back({"", d->off, hlen(d), first, 0, 1, way}); else way.push_back(d->off);
    for(auto *k : l) { std::vector<size_t> w = way; w.insert(w.end(), offs.begin(), offs.begin() + (long)++n); size_t t = k->type == 0 && k->link ? k->link->off : 0; if(t) w.push_back(t); std::string q = p + "/" + k->name; a.heads.push_back({q, k->off, hlen(k), first, t, k->type, w}); if(k->type == 1) walk(k, q, w); } };
  walk(r.root, "", {});
}
#endif
