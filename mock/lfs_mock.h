// Implementation of the littlefs stand-in.  The tree is committed as a snapshot
// to one of two halves of the device in turn, so that a commit is atomic.  File
// data is private to a handle until it is synced or closed, as in littlefs.
#ifndef LFS_MOCK_H
#define LFS_MOCK_H
#include "lfs.h"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
struct LfsMock {
  static std::string &violation() { static std::string v; return v; }   // a precondition littlefs asserts was broken
  static long &fail_at() { static long v = -1; return v; }              // n-th call fails by itself
  static long &calls() { static long v = 0; return v; }
  static int &fail_err() { static int v = LFS_ERR_CORRUPT; return v; }
  static bool &failed() { static bool v = false; return v; }
  static std::string &failed_call() { static std::string v; return v; }
  static int &live() { static int v = 0; return v; }                    // open files and directories
  static void require(bool ok, const char *what) { if(!ok && violation().empty()) violation() = what; }
  static int fault(const char *call) { if(++calls() == fail_at()) { failed() = true; failed_call() = call; return fail_err(); } return 0; }
  struct Node; using P = std::shared_ptr<Node>;
  struct Node { bool dir = false; std::string data; std::map<std::string, P> kids; };
  struct File { P node; std::string data; bool dirty = false, errored = false; };
  struct Dir { P node; std::string last; lfs_off_t mark = 0; };   // an open directory follows deletions
  struct Fs { P root; uint32_t seq = 0; };
  static Fs *fs(lfs_t *l) { return (Fs *)l->impl; }
  // --- device
  static uint32_t sum(const std::string &s) { uint32_t h = 2166136261u; for(unsigned char c : s) h = (h ^ c) * 16777619u; return h; }
  static void u32(std::string &o, uint32_t v) { for(int i = 0; i < 4; i++) o += (char)(v >> (8 * i)); }
  static bool get32(const std::string &s, size_t &p, uint32_t &v) { if(p + 4 > s.size()) return false; v = 0; for(int i = 0; i < 4; i++) v |= (uint32_t)(unsigned char)s[p++] << (8 * i); return true; }
  static void ser(const P &n, std::string &o) { o += n->dir ? 'D' : 'F'; if(n->dir) { u32(o, (uint32_t)n->kids.size()); for(auto &k : n->kids) { u32(o, (uint32_t)k.first.size()); o += k.first; ser(k.second, o); } } else { u32(o, (uint32_t)n->data.size()); o += n->data; } }
  static P des(const std::string &s, size_t &p, int depth = 0) { if(p >= s.size() || depth > 60) return nullptr; auto n = std::make_shared<Node>(); char t = s[p++]; uint32_t c; if((t != 'D' && t != 'F') || !get32(s, p, c)) return nullptr; n->dir = t == 'D';
    if(!n->dir) { if(c > s.size() - p) return nullptr; n->data = s.substr(p, c); p += c; return n; }
    for(uint32_t i = 0; i < c; i++) { uint32_t l; if(!get32(s, p, l) || l > s.size() - p) return nullptr; std::string name = s.substr(p, l); p += l; P k = des(s, p, depth + 1); if(!k) return nullptr; n->kids[name] = k; } return n; }
  static lfs_block_t half(const lfs_config *c) { return c->block_count / 2; }
  static int dev_read(const lfs_config *c, lfs_block_t b0, size_t off, size_t n, std::string &o) { // in units of read_size, not crossing blocks
    o.clear(); size_t rs = c->read_size, start = off / rs * rs, end = (off + n + rs - 1) / rs * rs; std::vector<char> buf(c->block_size); size_t p = start, unit = rs;
    while(p < end) { size_t in = p % c->block_size, k = std::min({unit, end - p, (size_t)c->block_size - in}); int e = c->read(c, b0 + (lfs_block_t)(p / c->block_size), (lfs_off_t)in, buf.data(), (lfs_size_t)k); if(e) return e; o.append(buf.data(), k); p += k; unit = unit * 2 > c->cache_size ? rs : unit * 2; }
    o = o.substr(off - start, n); return 0; }
  static int dev_write(const lfs_config *c, lfs_block_t b0, const std::string &s) {
    size_t ps = c->prog_size; std::string d = s; d.resize((d.size() + ps - 1) / ps * ps, (char)0xff); size_t p = 0, unit = ps;
    if(d.size() > (size_t)half(c) * c->block_size) return LFS_ERR_NOSPC;
    while(p < d.size()) { size_t in = p % c->block_size; lfs_block_t b = b0 + (lfs_block_t)(p / c->block_size); if(in == 0) { int e = c->erase(c, b); if(e) return e; } size_t k = std::min({unit, d.size() - p, (size_t)c->block_size - in}); int e = c->prog(c, b, (lfs_off_t)in, d.data() + p, (lfs_size_t)k); if(e) return e; p += k; unit = unit * 2 > c->cache_size ? ps : unit * 2; }
    int e = c->sync(c); if(e) return e; std::string back; e = dev_read(c, b0, 0, s.size(), back); if(e) return e; return back == s ? 0 : LFS_ERR_CORRUPT; } // littlefs reads back what it programs
  static int commit(const lfs_config *c, const P &root, uint32_t seq) { std::string body; ser(root, body); std::string h = "littlefs"; u32(h, seq); u32(h, c->block_size); u32(h, c->block_count); u32(h, (uint32_t)body.size()); u32(h, sum(body)); u32(h, sum(h)); return dev_write(c, (seq & 1) ? half(c) : 0, h + body); }
  static int load(const lfs_config *c, lfs_block_t b0, P &root, uint32_t &seq) { std::string h; int e = dev_read(c, b0, 0, 32, h); if(e) return e; size_t p = 8; uint32_t s, bs, bc, len, ck, hk; get32(h, p, s); get32(h, p, bs); get32(h, p, bc); get32(h, p, len); get32(h, p, ck); get32(h, p, hk);
    if(h.compare(0, 8, "littlefs") || hk != sum(h.substr(0, 28))) return LFS_ERR_CORRUPT; if(bs != c->block_size || bc != c->block_count) return LFS_ERR_INVAL; if(len + 32 > (size_t)half(c) * c->block_size) return LFS_ERR_CORRUPT; std::string body; e = dev_read(c, b0, 32, len, body); if(e) return e; if(sum(body) != ck) return LFS_ERR_CORRUPT; p = 0; root = des(body, p); seq = s; return root && root->dir ? 0 : LFS_ERR_CORRUPT; }
  static int store(lfs_t *l, const std::function<void()> &undo) { Fs *f = fs(l); int e = commit(l->cfg, f->root, f->seq + 1); if(e) { undo(); return e; } f->seq++; return 0; }
  // --- paths: only '/' separates; "." and ".." are resolved in the text
  static int split(const char *path, std::vector<std::string> &v) { const char *p = path; while(*p) { while(*p == '/') p++; const char *e = p; while(*e && *e != '/') e++; std::string s(p, e); p = e; if(s.empty() || s == ".") continue; if(s == "..") { if(v.empty()) return LFS_ERR_INVAL; v.pop_back(); continue; } v.push_back(s); } return 0; }
  // parent directory and last name; root gives an empty name
  static int find(lfs_t *l, const char *path, P &dir, std::string &name, P &node) { std::vector<std::string> v; int e = split(path, v); if(e) return e; dir = nullptr; node = fs(l)->root; name = ""; for(size_t i = 0; i < v.size(); i++) { if(!node->dir) { dir = node = nullptr; return LFS_ERR_NOTDIR; } dir = node; name = v[i]; auto it = dir->kids.find(name); if(it == dir->kids.end()) { node = nullptr; if(i + 1 < v.size()) dir = nullptr; return LFS_ERR_NOENT; } node = it->second; } return 0; }
  static void fill(lfs_info *i, const std::string &name, const P &n) { memset(i, 0, sizeof *i); i->type = n->dir ? LFS_TYPE_DIR : LFS_TYPE_REG; i->size = n->dir ? 0 : (lfs_size_t)n->data.size(); strncpy(i->name, name.c_str(), LFS_NAME_MAX); }
  static std::string dump(const P &n, const std::string &rel = "") { std::string o; for(auto &k : n->kids) { if(k.second->dir) o += rel + "/" + k.first + "/\n" + dump(k.second, rel + "/" + k.first); else o += rel + "/" + k.first + " " + std::to_string(k.second->data.size()) + ":" + k.second->data + "\n"; } return o; }
};
#define LFS_FAULT(c) do { int e_ = LfsMock::fault(c); if(e_) return e_; } while(0)
extern "C" {
int lfs_format(lfs_t *l, const struct lfs_config *c) { (void)l; LFS_FAULT("format"); auto r = std::make_shared<LfsMock::Node>(); r->dir = true; std::string blank(64, (char)0xff); int e = LfsMock::dev_write(c, LfsMock::half(c), blank); if(e) return e; return LfsMock::commit(c, r, 2); }
int lfs_mount(lfs_t *l, const struct lfs_config *c) { memset(l, 0, sizeof *l); LFS_FAULT("mount"); LfsMock::P a, b; uint32_t sa = 0, sb = 0; int ea = LfsMock::load(c, 0, a, sa); if(ea == LFS_ERR_IO) return ea; int eb = LfsMock::load(c, LfsMock::half(c), b, sb); if(eb == LFS_ERR_IO) return eb; if(ea && eb) return ea; auto f = new LfsMock::Fs; if(!ea && (eb || sa > sb)) { f->root = a; f->seq = sa; } else { f->root = b; f->seq = sb; } l->impl = f; l->cfg = c; LfsMock::live()++; return 0; }
int lfs_unmount(lfs_t *l) { LfsMock::require(l->impl != nullptr, "unmounting what is not mounted"); if(l->impl) { LfsMock::live()--; delete LfsMock::fs(l); } l->impl = nullptr; return 0; }
int lfs_remove(lfs_t *l, const char *path) { LFS_FAULT("remove"); LfsMock::P d, n; std::string name; int e = LfsMock::find(l, path, d, name, n); if(e) return e; if(!d) return LFS_ERR_INVAL; if(n->dir && !n->kids.empty()) return LFS_ERR_NOTEMPTY; d->kids.erase(name); return LfsMock::store(l, [&] { d->kids[name] = n; }); }
int lfs_rename(lfs_t *l, const char *op, const char *np) { LFS_FAULT("rename"); LfsMock::P d, n, d2, n2; std::string a, b; int e = LfsMock::find(l, op, d, a, n); if(e) return e; if(!d) return LFS_ERR_INVAL; e = LfsMock::find(l, np, d2, b, n2); if(e && !(e == LFS_ERR_NOENT && d2)) return e; if(!d2) return LFS_ERR_INVAL; if(n == n2) return 0; if(n2) { if(n2->dir != n->dir) return n->dir ? LFS_ERR_NOTDIR : LFS_ERR_ISDIR; if(n2->dir && !n2->kids.empty()) return LFS_ERR_NOTEMPTY; } else if(b.size() > LFS_NAME_MAX) return LFS_ERR_NAMETOOLONG;
  std::vector<std::string> x, y; LfsMock::split(op, x); LfsMock::split(np, y); if(y.size() > x.size() && std::equal(x.begin(), x.end(), y.begin())) return LFS_ERR_INVAL; d->kids.erase(a); d2->kids[b] = n; return LfsMock::store(l, [&] { if(n2) d2->kids[b] = n2; else d2->kids.erase(b); d->kids[a] = n; }); }
int lfs_stat(lfs_t *l, const char *path, struct lfs_info *i) { LFS_FAULT("stat"); LfsMock::P d, n; std::string name; int e = LfsMock::find(l, path, d, name, n); if(e) return e; LfsMock::fill(i, d ? name : "/", n); return 0; }
int lfs_file_opencfg(lfs_t *l, lfs_file_t *f, const char *path, int fl, const struct lfs_file_config *) { return lfs_file_open(l, f, path, fl); }
int lfs_file_open(lfs_t *l, lfs_file_t *f, const char *path, int fl) { LfsMock::require((fl & 3) != 0, "open for neither reading nor writing"); memset(f, 0, sizeof *f); LFS_FAULT("file_open"); LfsMock::P d, n; std::string name; int e = LfsMock::find(l, path, d, name, n); if(e && !(e == LFS_ERR_NOENT && d)) return e;
  if(e) { if(!(fl & LFS_O_CREAT)) return LFS_ERR_NOENT; if(name.size() > LFS_NAME_MAX) return LFS_ERR_NAMETOOLONG; n = std::make_shared<LfsMock::Node>(); d->kids[name] = n; e = LfsMock::store(l, [&] { d->kids.erase(name); }); if(e) return e; }
  else if(fl & LFS_O_EXCL) return LFS_ERR_EXIST; else if(n->dir) return LFS_ERR_ISDIR;
  auto x = new LfsMock::File; x->node = n; x->data = n->data; if(fl & LFS_O_TRUNC) { x->data.clear(); x->dirty = true; } f->impl = x; f->flags = (uint32_t)fl; LfsMock::live()++; return 0; }
#define LF(f) ((LfsMock::File *)(f)->impl)
int lfs_file_sync(lfs_t *l, lfs_file_t *f) { LfsMock::require(f->impl != nullptr, "sync of a closed file"); if(!f->impl) return LFS_ERR_BADF; LFS_FAULT("file_sync"); auto x = LF(f); if(x->errored || !x->dirty) return 0; std::string was = x->node->data; x->node->data = x->data; int e = LfsMock::store(l, [&] { x->node->data = was; x->errored = true; }); if(e) return e; x->dirty = false; return 0; }
int lfs_file_close(lfs_t *l, lfs_file_t *f) { LfsMock::require(f->impl != nullptr, "close of a closed file"); if(!f->impl) return LFS_ERR_BADF; int e = lfs_file_sync(l, f); delete LF(f); f->impl = nullptr; LfsMock::live()--; return e; }
lfs_ssize_t lfs_file_read(lfs_t *, lfs_file_t *f, void *b, lfs_size_t n) { LfsMock::require(f->impl != nullptr, "read of a closed file"); LfsMock::require((f->flags & LFS_O_RDONLY) != 0, "read of a file open only for writing"); if(!f->impl || !(f->flags & LFS_O_RDONLY)) return LFS_ERR_BADF; LFS_FAULT("file_read"); auto x = LF(f); if(f->pos >= x->data.size()) return 0; n = (lfs_size_t)std::min<size_t>(n, x->data.size() - f->pos); memcpy(b, x->data.data() + f->pos, n); f->pos += n; return (lfs_ssize_t)n; }
lfs_ssize_t lfs_file_write(lfs_t *, lfs_file_t *f, const void *b, lfs_size_t n) { LfsMock::require(f->impl != nullptr, "write to a closed file"); LfsMock::require((f->flags & LFS_O_WRONLY) != 0, "write to a file open only for reading"); if(!f->impl || !(f->flags & LFS_O_WRONLY)) return LFS_ERR_BADF; LFS_FAULT("file_write"); auto x = LF(f); if(f->flags & LFS_O_APPEND && f->pos < x->data.size()) f->pos = (lfs_off_t)x->data.size(); if((uint64_t)f->pos + n > LFS_FILE_MAX) return LFS_ERR_FBIG; if(f->pos + n > 200000) return LFS_ERR_NOSPC; if(x->data.size() < f->pos + n) x->data.resize(f->pos + n); memcpy(&x->data[f->pos], b, n); f->pos += n; x->dirty = true; x->errored = false; return (lfs_ssize_t)n; }
lfs_soff_t lfs_file_seek(lfs_t *, lfs_file_t *f, lfs_soff_t off, int w) { LfsMock::require(f->impl != nullptr, "seek in a closed file"); if(!f->impl) return LFS_ERR_BADF; LFS_FAULT("file_seek"); int64_t p = w == LFS_SEEK_SET ? off : w == LFS_SEEK_CUR ? (int64_t)f->pos + off : (int64_t)LF(f)->data.size() + off; if(p < 0 || p > LFS_FILE_MAX) return LFS_ERR_INVAL; f->pos = (lfs_off_t)p; return (lfs_soff_t)p; }
int lfs_file_truncate(lfs_t *, lfs_file_t *f, lfs_off_t n) { LfsMock::require(f->impl != nullptr, "truncation of a closed file"); LfsMock::require((f->flags & LFS_O_WRONLY) != 0, "truncation of a file open only for reading"); if(!f->impl || !(f->flags & LFS_O_WRONLY)) return LFS_ERR_BADF; LFS_FAULT("file_truncate"); if(n > LFS_FILE_MAX) return LFS_ERR_INVAL; if(n > 200000) return LFS_ERR_NOSPC; LF(f)->data.resize(n); LF(f)->dirty = true; return 0; }
lfs_soff_t lfs_file_tell(lfs_t *, lfs_file_t *f) { LfsMock::require(f->impl != nullptr, "tell of a closed file"); return (lfs_soff_t)f->pos; }
int lfs_file_rewind(lfs_t *l, lfs_file_t *f) { lfs_soff_t r = lfs_file_seek(l, f, 0, LFS_SEEK_SET); return r < 0 ? (int)r : 0; }
lfs_soff_t lfs_file_size(lfs_t *, lfs_file_t *f) { LfsMock::require(f->impl != nullptr, "size of a closed file"); return f->impl ? (lfs_soff_t)LF(f)->data.size() : LFS_ERR_BADF; }
int lfs_mkdir(lfs_t *l, const char *path) { LFS_FAULT("mkdir"); LfsMock::P d, n; std::string name; int e = LfsMock::find(l, path, d, name, n); if(!e) return LFS_ERR_EXIST; if(!(e == LFS_ERR_NOENT && d)) return e; if(name.size() > LFS_NAME_MAX) return LFS_ERR_NAMETOOLONG; n = std::make_shared<LfsMock::Node>(); n->dir = true; d->kids[name] = n; return LfsMock::store(l, [&] { d->kids.erase(name); }); }
int lfs_dir_open(lfs_t *l, lfs_dir_t *dd, const char *path) { memset(dd, 0, sizeof *dd); LFS_FAULT("dir_open"); LfsMock::P d, n; std::string name; int e = LfsMock::find(l, path, d, name, n); if(e) return e; if(!n->dir) return LFS_ERR_NOTDIR; dd->impl = new LfsMock::Dir{n, "", 0}; dd->type = LFS_TYPE_DIR; LfsMock::live()++; return 0; }
int lfs_dir_close(lfs_t *, lfs_dir_t *d) { LfsMock::require(d->impl != nullptr, "close of a closed directory"); if(!d->impl) return LFS_ERR_BADF; delete (LfsMock::Dir *)d->impl; d->impl = nullptr; LfsMock::live()--; return 0; }
int lfs_dir_read(lfs_t *, lfs_dir_t *d, struct lfs_info *i) { LfsMock::require(d->impl != nullptr, "read of a closed directory"); memset(i, 0, sizeof *i); if(!d->impl) return LFS_ERR_BADF; LFS_FAULT("dir_read"); auto &k = ((LfsMock::Dir *)d->impl)->node->kids; if(d->pos < 2) { i->type = LFS_TYPE_DIR; strcpy(i->name, d->pos ? ".." : "."); d->pos++; return 1; } auto x = (LfsMock::Dir *)d->impl; auto it = k.begin(); if(d->pos > 2 && d->pos == x->mark) it = k.upper_bound(x->last); else { if(d->pos - 2 >= k.size()) return 0; std::advance(it, (long)d->pos - 2); } if(it == k.end()) return 0; LfsMock::fill(i, it->first, it->second); x->last = it->first; x->mark = ++d->pos; return 1; }
int lfs_dir_rewind(lfs_t *, lfs_dir_t *d) { LfsMock::require(d->impl != nullptr, "rewinding a closed directory"); LFS_FAULT("dir_rewind"); d->pos = 0; return 0; }
int lfs_dir_seek(lfs_t *, lfs_dir_t *d, lfs_off_t o) { d->pos = o; return 0; }
lfs_soff_t lfs_dir_tell(lfs_t *, lfs_dir_t *d) { return (lfs_soff_t)d->pos; }
lfs_ssize_t lfs_fs_size(lfs_t *l) { return (lfs_ssize_t)l->cfg->block_count; }
}
#endif
