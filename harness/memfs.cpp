#include "memfs.h"
#include <new>

static MemFs *FS(Evfs *v) { return (MemFs *)v->fs_data; }
MemHooks mem_hooks = {nullptr, nullptr};
namespace {
// Every operation is a scheduling point and runs outside the race detector;
// the memory of the caller is touched where the detector sees it.
struct Guard {
  bool on = true;
  explicit Guard(MemFile *f) { if(mem_hooks.enter) { mem_hooks.enter(1); f->used++; mem_hooks.enter(2); } }
  explicit Guard(const char *p, const char *q = nullptr) { if(mem_hooks.enter) { mem_hooks.enter(1); sink = strlen(p) + (q ? strlen(q) : 0); mem_hooks.enter(2); } }
  Guard() { if(mem_hooks.enter) { mem_hooks.enter(1); mem_hooks.enter(2); } }
  void end() { if(on && mem_hooks.leave) mem_hooks.leave(); on = false; }
  ~Guard() { end(); }
  volatile size_t sink = 0;
};
}

std::vector<std::string> MemFs::split(const std::string &p) {
  std::vector<std::string> v; std::string cur;
  for(char ch : p) { if(ch == '/' || ch == '\\') { if(!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch; }
  if(!cur.empty()) v.push_back(cur);
  return v;
}
static std::string joinc(const std::vector<std::string> &c) { std::string s; for(auto &x : c) s += "/" + x; return s.empty() ? "/" : s; }

static bool root_comp(MemFs *fs, const char *path, size_t *n) {
  const char *p = path;
  if(fs->style == RootStyle::Dos && ((*p >= '0' && *p <= '9') || ((*p|32) >= 'a' && (*p|32) <= 'z')) && p[1] == ':') p += 2;
  size_t k = strspn(p, "/\\"); *n = (size_t)(p - path) + k; return k > 0;
}
std::vector<std::string> MemFs::resolve(const char *p) {
  size_t n; bool abs = root_comp(this, p, &n);
  std::vector<std::string> out = abs ? std::vector<std::string>() : cwd;
  for(auto &s : split(p + n)) {
    if(s == ".") continue;
    if(s == "..") { if(!out.empty()) out.pop_back(); continue; }
    out.push_back(s);
  }
  return out;
}
NodeP MemFs::at(const std::vector<std::string> &c) {
  NodeP n = root; for(auto &s : c) { if(!n || !n->dir) return nullptr; auto it = n->kids.find(s); if(it == n->kids.end()) return nullptr; n = it->second; } return n;
}
NodeP MemFs::mk(const std::string &p, bool dir) {
  auto c = split(p); NodeP n = root;
  for(size_t i = 0; i < c.size(); i++) {
    auto &k = n->kids[c[i]];
    if(!k) { k = std::make_shared<MemNode>(); k->dir = i + 1 < c.size() || dir; }
    n = k;
  }
  return n;
}
NodeP MemFs::clone(const NodeP &n) {
  auto m = std::make_shared<MemNode>(); m->dir = n->dir; m->data = n->data; m->mtime = n->mtime;
  for(auto &k : n->kids) m->kids[k.first] = clone(k.second);
  return m;
}
void MemFs::dump(const NodeP &n, const std::string &p, std::string &o) {
  for(auto &k : n->kids) {
    std::string q = p + "/" + k.first;
    if(k.second->dir) { o += q + "/\n"; dump(k.second, q, o); }
    else { o += q + " " + std::to_string(k.second->data.size()) + ":"; o.append(k.second->data.begin(), k.second->data.end()); o += "\n"; }
  }
}
long MemFs::used(const NodeP &n) { long t = (long)n->data.size(); for(auto &k : n->kids) t += used(k.second); return t; }

int MemFs::step(const char *op) {
  if(!fail_ops.empty() && !fail_ops.count(op)) return 0;
  op_no++;
  if(change_at >= 0 && op_no == change_at) { NodeP n = at(change_path); if(n) n->data.swap(change_to); }
  if(fail_at >= 0 && (op_no == fail_at || (fail_sticky && op_no >= fail_at))) { failed = true; failed_op = op; return fail_err; }
  return 0;
}
bool MemFs::mutate() {
  mut_no++;
  if(crash_after >= 0 && mut_no > crash_after) { crashed = true; return false; }
  return true;
}
size_t MemFs::shorten(size_t n) {
  if(!partial || n <= 1) return n;
  partial_rng = partial_rng * 6364136223846793005ull + 1442695040888963407ull;
  size_t r = (size_t)(partial_rng >> 33);
  return (r & 3) ? n : 1 + (r >> 2) % n;
}

#define LOGC(...) do { if(fs->log_calls) fs->calls.push_back(MemCall{__VA_ARGS__}); } while(0)

// ---- files ----
static int f_ctrl(EvfsFile *fh, int cmd, void *arg) { Guard g((MemFile *)fh); MemFs *fs = ((MemFile *)fh)->fs; LOGC("fctrl", "", "", cmd); if(cmd != EVFS_CMD_USER_DEFINED) return EVFS_ERR_NO_SUPPORT; ++*(int *)arg; return EVFS_OK; }
static int f_close(EvfsFile *fh) { Guard g((MemFile *)fh); MemFile *f = (MemFile *)fh; f->fs->open_files--; (*f->node)->opens--; (*f->node)->dirty = false; delete f->node; f->node = nullptr; return f->fs->step("close"); }
static ptrdiff_t f_read(EvfsFile *fh, void *buf, size_t n) {
  Guard g((MemFile *)fh); MemFile *f = (MemFile *)fh; MemFs *fs = f->fs;
  if(int e = fs->step("read")) return e;
  if(!(f->flags & EVFS_READ)) return EVFS_ERR_AUTH;
  auto &d = (*f->node)->data;
  size_t k = f->pos < (long)d.size() ? d.size() - (size_t)f->pos : 0;
  if(n > k) f->eof = true;
  if(k > n) k = n;
  k = fs->shorten(k);
  uint8_t *tmp = nullptr;
  if(k) { if(mem_hooks.enter) { tmp = (uint8_t *)malloc(k); memcpy(tmp, d.data() + f->pos, k); } else memcpy(buf, d.data() + f->pos, k); }
  if((size_t)f->pos + k > fs->max_read_seen) fs->max_read_seen = (size_t)f->pos + k;
  f->pos += (long)k;
  if(tmp) { g.end(); memcpy(buf, tmp, k); free(tmp); }
  return (ptrdiff_t)k;
}
static ptrdiff_t f_write(EvfsFile *fh, const void *buf, size_t n) {
  std::vector<uint8_t> copy; if(mem_hooks.enter) { copy.assign((const uint8_t *)buf, (const uint8_t *)buf + n); buf = copy.data(); }
  Guard g((MemFile *)fh); MemFile *f = (MemFile *)fh; MemFs *fs = f->fs;
  if(int e = fs->step("write")) return e;
  if(fs->readonly) return EVFS_ERR_DISABLED;
  if(!(f->flags & (EVFS_WRITE|EVFS_APPEND))) return EVFS_ERR_AUTH;
  auto &d = (*f->node)->data;
  if(f->flags & EVFS_APPEND) f->pos = (long)d.size();
  if(f->pos > (1L << 24)) return EVFS_ERR_FS_FULL;
  size_t k = fs->partial_writes ? fs->shorten(n) : n;
  if(!fs->mutate()) {
    if(fs->mut_no == fs->crash_after + 1 && fs->crash_partial >= 0) k = (size_t)fs->crash_partial < k ? (size_t)fs->crash_partial : k; // torn write
    else return EVFS_ERR_IO;
    if((size_t)f->pos + k > d.size()) d.resize((size_t)f->pos + k);
    if(k) memcpy(d.data() + f->pos, buf, k);
    return EVFS_ERR_IO;
  }
  if(fs->capacity >= 0) {
    long grow = f->pos + (long)k - (long)d.size(); if(grow < 0) grow = 0;
    long left = fs->capacity - fs->used();
    if(grow > left) { k = (size_t)((long)k - (grow - (left > 0 ? left : 0))); if((long)k <= 0) return EVFS_ERR_FS_FULL; }
  }
  if((size_t)f->pos + k > d.size()) d.resize((size_t)f->pos + k);
  if(k) memcpy(d.data() + f->pos, buf, k);
  f->pos += (long)k; if(k) (*f->node)->dirty = true; return (ptrdiff_t)k;
}
static int f_trunc(EvfsFile *fh, evfs_off_t size) { Guard g((MemFile *)fh);
  MemFile *f = (MemFile *)fh; MemFs *fs = f->fs;
  if(int e = fs->step("truncate")) return e;
  if(fs->readonly) return EVFS_ERR_DISABLED;
  if(size < 0) return EVFS_ERR_BAD_ARG;
  if(!fs->mutate()) return EVFS_ERR_IO;
  (*f->node)->data.resize((size_t)size); (*f->node)->dirty = true; return EVFS_OK;
}
static int f_sync(EvfsFile *fh) { MemFile *f = (MemFile *)fh; Guard g(f); int s = f->fs->step("sync"); if(!s) (*f->node)->dirty = false; return s; }
static evfs_off_t f_size(EvfsFile *fh) { Guard g((MemFile *)fh); return (evfs_off_t)(*((MemFile *)fh)->node)->data.size(); }
static evfs_off_t f_tell(EvfsFile *fh) { Guard g((MemFile *)fh); return (evfs_off_t)((MemFile *)fh)->pos; }
static int f_seek(EvfsFile *fh, evfs_off_t off, EvfsSeekDir org) { Guard g((MemFile *)fh);
  MemFile *f = (MemFile *)fh; MemFs *fs = f->fs;
  if(int e = fs->step("seek")) return e;
  long p = off, sz = (long)(*f->node)->data.size();
  if(org == EVFS_SEEK_REL) p = f->pos + off; else if(org == EVFS_SEEK_REV) p = sz - off;
  if(p < 0) p = 0;
  f->pos = p; f->eof = false; return EVFS_OK;
}
static bool f_eof(EvfsFile *fh) { Guard g((MemFile *)fh); MemFile *f = (MemFile *)fh; return f->pos >= (long)(*f->node)->data.size(); }
static const EvfsFileMethods FM = { f_ctrl, f_close, f_read, f_write, f_trunc, f_sync, f_size, f_seek, f_tell, f_eof };

// ---- dirs ----
static int d_close(EvfsDir *dh) { Guard g; MemDir *d = (MemDir *)dh; d->fs->open_dirs--; delete d->list; delete d->node; d->list = nullptr; return EVFS_OK; }
static int d_read(EvfsDir *dh, EvfsInfo *info) { Guard g;
  MemDir *d = (MemDir *)dh; memset(info, 0, sizeof *info);
  if(int e = d->fs->step("readdir")) return e;
  while(d->pos < d->list->size()) {
    auto &e = (*d->list)[d->pos++];
    // entries deleted since the directory was opened are not reported
    bool dot = e.first == "." || e.first == "..";
    if(!dot && !(*d->node)->kids.count(e.first)) continue;
    snprintf(d->name, sizeof d->name, "%s", e.first.c_str());
    info->name = d->name; info->type = e.second->dir ? EVFS_FILE_DIR : 0; info->size = (evfs_off_t)e.second->data.size(); info->mtime = e.second->mtime;
    return EVFS_OK;
  }
  return EVFS_DONE;
}
static int d_rewind(EvfsDir *dh) { Guard g; ((MemDir *)dh)->pos = 0; return EVFS_OK; }
static const EvfsDirMethods DM = { d_close, d_read, d_rewind };

// ---- fs ----
static NodeP parent_of(MemFs *fs, std::vector<std::string> &c, std::string *last) {
  if(c.empty()) return nullptr;
  *last = c.back(); auto p = c; p.pop_back(); return fs->at(p);
}
static int m_open(Evfs *v, const char *path, EvfsFile *fh, int flags) { Guard g(path);
  MemFs *fs = FS(v); auto c = fs->resolve(path); LOGC("open", path, joinc(c), flags);
  fh->methods = nullptr;
  if(int e = fs->step("open")) return e;
  if(fs->readonly && (flags & ~EVFS_READ)) return EVFS_ERR_DISABLED;
  NodeP n = fs->at(c); std::string last;
  if(n && n->dir) return EVFS_ERR_IS_DIR;
  if(n && (flags & EVFS_NO_EXIST)) return EVFS_ERR_EXISTS;
  bool plain_w = fs->write_creates && (flags & EVFS_RDWR) == EVFS_WRITE && !(flags & (EVFS_APPEND | EVFS_OPEN_OR_NEW));
  if(!n) {
    NodeP p = parent_of(fs, c, &last);
    if(!p || !p->dir) return fs->missing_parent_err;
    if(!(flags & (EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE)) && !plain_w && !((fs->write_creates || fs->append_creates) && (flags & EVFS_APPEND))) return EVFS_ERR_NO_FILE;
    if(!fs->mutate()) return EVFS_ERR_IO;
    n = p->kids[last] = std::make_shared<MemNode>();
  } else if((flags & EVFS_OVERWRITE) || plain_w) {
    if(!n->data.empty()) { if(!fs->mutate()) return EVFS_ERR_IO; n->data.clear(); }
  }
  MemFile *f = (MemFile *)fh;
  f->base.methods = &FM; f->used = 0; f->fs = fs; f->node = new NodeP(n); f->flags = flags; f->eof = false; f->pos = (flags & EVFS_APPEND) ? (long)n->data.size() : 0;
  fs->open_files++; n->opens++;
  return EVFS_OK;
}
static int m_stat(Evfs *v, const char *path, EvfsInfo *info) { Guard g(path);
  MemFs *fs = FS(v); auto c = fs->resolve(path); LOGC("stat", path, joinc(c));
  memset(info, 0, sizeof *info);
  if(int e = fs->step("stat")) return e;
  NodeP n = fs->at(c);
  if(!n) { std::string last; NodeP p = parent_of(fs, c, &last); return (!p || !p->dir) ? fs->missing_parent_err : EVFS_ERR_NO_FILE; }
  info->type = n->dir ? EVFS_FILE_DIR : 0; info->size = (evfs_off_t)n->data.size(); info->mtime = n->mtime;
  return EVFS_OK;
}
static int m_delete(Evfs *v, const char *path) { Guard g(path);
  MemFs *fs = FS(v); auto c = fs->resolve(path); LOGC("delete", path, joinc(c));
  if(int e = fs->step("delete")) return e;
  if(fs->readonly) return EVFS_ERR_DISABLED;
  std::string last; NodeP p = parent_of(fs, c, &last);
  if(!p || !p->dir) return fs->missing_parent_err;
  auto it = p->kids.find(last); if(it == p->kids.end()) return EVFS_ERR_NO_FILE;
  if(it->second->dir && !it->second->kids.empty()) return EVFS_ERR_NOT_EMPTY;
  if(fs->lock_open && it->second->opens) return EVFS_ERR_AUTH;
  if(!fs->mutate()) return EVFS_ERR_IO;
  p->kids.erase(it); return EVFS_OK;
}
static int m_rename(Evfs *v, const char *a, const char *b) { Guard g(a, b);
  MemFs *fs = FS(v); auto ca = fs->resolve(a), cb = fs->resolve(b);
  LOGC("rename", a, joinc(ca)); LOGC("rename2", b, joinc(cb));
  if(int e = fs->step("rename")) return e;
  if(fs->readonly) return EVFS_ERR_DISABLED;
  std::string la, lb; NodeP pa = parent_of(fs, ca, &la), pb = parent_of(fs, cb, &lb);
  if(!pa || !pa->dir || !pb || !pb->dir) return fs->missing_parent_err;
  auto it = pa->kids.find(la); if(it == pa->kids.end()) return EVFS_ERR_NO_FILE;
  if(pb->kids.count(lb)) return EVFS_ERR_EXISTS;
  if(fs->lock_open && it->second->opens) return EVFS_ERR_AUTH;
  if(cb.size() > ca.size() && std::vector<std::string>(cb.begin(), cb.begin() + (long)ca.size()) == ca) return EVFS_ERR_BAD_ARG;
  if(!fs->mutate()) return EVFS_ERR_IO;
  NodeP n = it->second; pa->kids.erase(it); pb->kids[lb] = n; return EVFS_OK;
}
static int m_mkdir(Evfs *v, const char *path) { Guard g(path);
  MemFs *fs = FS(v); auto c = fs->resolve(path); LOGC("mkdir", path, joinc(c));
  if(int e = fs->step("mkdir")) return e;
  if(fs->readonly) return EVFS_ERR_DISABLED;
  if(fs->at(c)) return EVFS_ERR_EXISTS;
  std::string last; NodeP p = parent_of(fs, c, &last);
  if(!p || !p->dir) return fs->missing_parent_err;
  if(!fs->mutate()) return EVFS_ERR_IO;
  NodeP n = std::make_shared<MemNode>(); n->dir = true; p->kids[last] = n; return EVFS_OK;
}
static int m_opendir(Evfs *v, const char *path, EvfsDir *dh) { Guard g(path);
  MemFs *fs = FS(v); auto c = fs->resolve(path); LOGC("opendir", path, joinc(c));
  dh->methods = nullptr;
  if(int e = fs->step("opendir")) return e;
  NodeP n = fs->at(c);
  if(!n) return EVFS_ERR_NO_FILE;
  if(!n->dir) return EVFS_ERR_NO_PATH;
  MemDir *d = (MemDir *)dh; d->base.methods = &DM; d->fs = fs; d->pos = 0; d->list = new std::vector<std::pair<std::string, NodeP>>; d->node = new NodeP(n);
  if(fs->dots) { d->list->push_back({".", n}); d->list->push_back({"..", n}); }
  for(auto &k : n->kids) d->list->push_back(k);
  fs->open_dirs++;
  return EVFS_OK;
}
static int m_getcwd(Evfs *v, StringRange *r) { Guard g;
  MemFs *fs = FS(v); if(!fs->cur_dir_supported) return EVFS_ERR_NO_SUPPORT;
  std::string s = joinc(fs->cwd); if(fs->style == RootStyle::Dos) s = "0:" + s;
  LOGC("getcwd", s);
  if(s.size() + 1 > (size_t)range_size(r)) return EVFS_ERR_OVERFLOW;
  memcpy((char *)r->start, s.c_str(), s.size() + 1); return EVFS_OK;
}
static int m_setcwd(Evfs *v, const char *path) { Guard g(path);
  MemFs *fs = FS(v); auto c = fs->resolve(path); LOGC("setcwd", path, joinc(c));
  NodeP n = fs->at(c); if(!n) return EVFS_ERR_NO_FILE; if(!n->dir) return EVFS_ERR_NO_PATH;
  fs->cwd = c; return EVFS_OK;
}
static int m_ctrl(Evfs *v, int cmd, void *arg) { Guard g;
  MemFs *fs = FS(v); LOGC("ctrl", "", "", cmd);
  switch(cmd) {
    case EVFS_CMD_UNREGISTER: fs->unregistered++; return EVFS_OK;
    case EVFS_CMD_SET_READONLY: fs->readonly = *(unsigned *)arg != 0; return EVFS_OK;
    case EVFS_CMD_SET_NO_DIR_DOTS: fs->dots = !*(unsigned *)arg; return EVFS_OK;
    case EVFS_CMD_GET_STAT_FIELDS: *(unsigned *)arg = EVFS_INFO_SIZE|EVFS_INFO_TYPE|EVFS_INFO_MTIME; return EVFS_OK;
    case EVFS_CMD_GET_DIR_FIELDS: *(unsigned *)arg = EVFS_INFO_NAME|EVFS_INFO_SIZE|EVFS_INFO_TYPE|EVFS_INFO_MTIME; return EVFS_OK;
  }
  return EVFS_ERR_NO_SUPPORT;
}
static bool m_root(Evfs *v, const char *path, StringRange *r) {
  size_t n; bool abs = root_comp(FS(v), path, &n); r->start = path; r->end = path + n; return abs;
}

MemFs::MemFs(const char *n) : name(n) {
  memset(&vfs, 0, sizeof vfs);
  root = std::make_shared<MemNode>(); root->dir = true;
  vfs.vfs_name = name.c_str(); vfs.vfs_file_size = sizeof(MemFile); vfs.vfs_dir_size = sizeof(MemDir); vfs.fs_data = this;
  vfs.m_open = m_open; vfs.m_stat = m_stat; vfs.m_delete = m_delete; vfs.m_rename = m_rename; vfs.m_make_dir = m_mkdir; vfs.m_open_dir = m_opendir;
  vfs.m_get_cur_dir = m_getcwd; vfs.m_set_cur_dir = m_setcwd; vfs.m_vfs_ctrl = m_ctrl; vfs.m_path_root_component = m_root;
}
void MemFs::reg(bool deflt) { if(evfs_register(&vfs, deflt) != EVFS_OK) pbt::fail("cannot register base VFS"); }
MemFs::~MemFs() { log_calls = false; if(evfs_find_vfs(name.c_str()) == &vfs) evfs_unregister(&vfs); }
