// C31 for the littlefs driver: the stand-in for littlefs is one object that
// serializes its calls; everything around it is the code under test.
#include <cstring>
#include <cstdlib>
#define CONC_LFS
#define lfs_format mock_format
#define lfs_mount mock_mount
#define lfs_unmount mock_unmount
#define lfs_remove mock_remove
#define lfs_rename mock_rename
#define lfs_stat mock_stat
#define lfs_file_opencfg mock_file_opencfg
#define lfs_file_open mock_file_open
#define lfs_file_sync mock_file_sync
#define lfs_file_close mock_file_close
#define lfs_file_read mock_file_read
#define lfs_file_write mock_file_write
#define lfs_file_seek mock_file_seek
#define lfs_file_truncate mock_file_truncate
#define lfs_file_tell mock_file_tell
#define lfs_file_rewind mock_file_rewind
#define lfs_file_size mock_file_size
#define lfs_mkdir mock_mkdir
#define lfs_dir_open mock_dir_open
#define lfs_dir_close mock_dir_close
#define lfs_dir_read mock_dir_read
#define lfs_dir_rewind mock_dir_rewind
#define lfs_dir_seek mock_dir_seek
#define lfs_dir_tell mock_dir_tell
#define lfs_fs_size mock_fs_size
#include "lfs_mock.h"
#undef lfs_format
#undef lfs_mount
#undef lfs_unmount
#undef lfs_remove
#undef lfs_rename
#undef lfs_stat
#undef lfs_file_opencfg
#undef lfs_file_open
#undef lfs_file_sync
#undef lfs_file_close
#undef lfs_file_read
#undef lfs_file_write
#undef lfs_file_seek
#undef lfs_file_truncate
#undef lfs_file_tell
#undef lfs_file_rewind
#undef lfs_file_size
#undef lfs_mkdir
#undef lfs_dir_open
#undef lfs_dir_close
#undef lfs_dir_read
#undef lfs_dir_rewind
#undef lfs_dir_seek
#undef lfs_dir_tell
#undef lfs_fs_size
#include "memfs.h"
static thread_local volatile size_t lsink;
struct LGuard {
  LGuard(const char *p = nullptr, const char *q = nullptr) { if(mem_hooks.enter) { mem_hooks.enter(1); lsink = (p ? strlen(p) : 0) + (q ? strlen(q) : 0); mem_hooks.enter(2); } }
  ~LGuard() { if(mem_hooks.leave) mem_hooks.leave(); }
};
// The handle belongs to the caller: it is touched outside of the stand-in, so that sharing one is seen
static void own(lfs_file_t *f) { uint32_t v = *(volatile uint32_t *)&f->flags; *(volatile uint32_t *)&f->flags = v; }
static void own(lfs_dir_t *d) { uint32_t v = *(volatile uint32_t *)&d->type; *(volatile uint32_t *)&d->type = (decltype(d->type))v; }
extern "C" {
int lfs_format(lfs_t *l, const struct lfs_config *c) { LGuard g; return mock_format(l, c); }
int lfs_mount(lfs_t *l, const struct lfs_config *c) { LGuard g; return mock_mount(l, c); }
int lfs_unmount(lfs_t *l) { LGuard g; return mock_unmount(l); }
int lfs_remove(lfs_t *l, const char *p) { LGuard g(p); return mock_remove(l, p); }
int lfs_rename(lfs_t *l, const char *p, const char *q) { LGuard g(p, q); return mock_rename(l, p, q); }
int lfs_stat(lfs_t *l, const char *p, struct lfs_info *i) { struct lfs_info t; int e; { LGuard g(p); e = mock_stat(l, p, &t); } *i = t; return e; }
int lfs_file_opencfg(lfs_t *l, lfs_file_t *f, const char *p, int fl, const struct lfs_file_config *c) { own(f); LGuard g(p); return mock_file_opencfg(l, f, p, fl, c); }
int lfs_file_open(lfs_t *l, lfs_file_t *f, const char *p, int fl) { own(f); LGuard g(p); return mock_file_open(l, f, p, fl); }
int lfs_file_sync(lfs_t *l, lfs_file_t *f) { own(f); LGuard g; return mock_file_sync(l, f); }
int lfs_file_close(lfs_t *l, lfs_file_t *f) { own(f); LGuard g; return mock_file_close(l, f); }
lfs_ssize_t lfs_file_read(lfs_t *l, lfs_file_t *f, void *b, lfs_size_t n) { own(f); char *t = (char *)malloc(n ? n : 1); lfs_ssize_t k; { LGuard g; k = mock_file_read(l, f, t, n); } if(k > 0) memcpy(b, t, (size_t)k); free(t); return k; }
lfs_ssize_t lfs_file_write(lfs_t *l, lfs_file_t *f, const void *b, lfs_size_t n) { own(f); char *t = (char *)malloc(n ? n : 1); memcpy(t, b, n); lfs_ssize_t k; { LGuard g; k = mock_file_write(l, f, t, n); } free(t); return k; }
lfs_soff_t lfs_file_seek(lfs_t *l, lfs_file_t *f, lfs_soff_t o, int w) { own(f); LGuard g; return mock_file_seek(l, f, o, w); }
int lfs_file_truncate(lfs_t *l, lfs_file_t *f, lfs_off_t n) { own(f); LGuard g; return mock_file_truncate(l, f, n); }
lfs_soff_t lfs_file_tell(lfs_t *l, lfs_file_t *f) { own(f); LGuard g; return mock_file_tell(l, f); }
int lfs_file_rewind(lfs_t *l, lfs_file_t *f) { own(f); LGuard g; return mock_file_rewind(l, f); }
lfs_soff_t lfs_file_size(lfs_t *l, lfs_file_t *f) { own(f); LGuard g; return mock_file_size(l, f); }
int lfs_mkdir(lfs_t *l, const char *p) { LGuard g(p); return mock_mkdir(l, p); }
int lfs_dir_open(lfs_t *l, lfs_dir_t *d, const char *p) { own(d); LGuard g(p); return mock_dir_open(l, d, p); }
int lfs_dir_close(lfs_t *l, lfs_dir_t *d) { own(d); LGuard g; return mock_dir_close(l, d); }
int lfs_dir_read(lfs_t *l, lfs_dir_t *d, struct lfs_info *i) { own(d); struct lfs_info t; int e; { LGuard g; e = mock_dir_read(l, d, &t); } *i = t; return e; }
int lfs_dir_rewind(lfs_t *l, lfs_dir_t *d) { own(d); LGuard g; return mock_dir_rewind(l, d); }
int lfs_dir_seek(lfs_t *l, lfs_dir_t *d, lfs_off_t o) { LGuard g; return mock_dir_seek(l, d, o); }
lfs_soff_t lfs_dir_tell(lfs_t *l, lfs_dir_t *d) { LGuard g; return mock_dir_tell(l, d); }
lfs_ssize_t lfs_fs_size(lfs_t *l) { LGuard g; return mock_fs_size(l); }
}
#include "p_conc.cpp"
