PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/stat.h>
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/tar_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_rotate.h"
static Evfs slow, *host; /* The host file system with operations that take their time */
static int s_open(Evfs *v, const char *p, EvfsFile *f, int fl) { usleep(100000); return host->m_open(v, p, f, fl); }
static int s_delete(Evfs *v, const char *p) { usleep(100000); return host->m_delete(v, p); }
static void setup(void) { evfs_init(); evfs_register_stdio(true); host = evfs_find_vfs("stdio"); slow = *host; slow.vfs_name = "slow"; slow.m_open = s_open; slow.m_delete = s_delete; slow.next = NULL; evfs_register(&slow, false); }
static void two(void *(*a)(void *), void *pa, void *(*b)(void *), void *pb) { pthread_t x, y; pthread_create(&x, 0, a, pa); usleep(30000); pthread_create(&y, 0, b, pb); pthread_join(x, 0); pthread_join(y, 0); }
static int touch(const char *p) { FILE *f = fopen(p, "wb"); if(!f) return -1; return fclose(f); }
static int have(const char *p) { struct stat s; return stat(p, &s) == 0; }
'''
T = dict(threads=True)
SEEDS = [
 dict(T, id='C31a', property='C31', edits=[('src/shim_jail.c', '''  if(status == EVFS_OK)
    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
  UNLOCK();
''', '''  UNLOCK();

  if(status == EVFS_OK)
    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
''')], needs='another thread using the jail between building the path and the deletion', breaks='the wrong file is deleted',
  demo=PRE + r'''
static void *del(void *p) { evfs_delete_ex(p, "j"); return 0; } static void *st(void *p) { EvfsInfo i; evfs_stat_ex(p, &i, "j"); return 0; }
int main(void) { setup(); mkdir("jail", 0777); touch("jail/a"); touch("jail/b"); if(evfs_register_jail("j", "slow", "jail", false)) return 2; two(del, "/a", st, "/b"); return have("jail/a") || !have("jail/b"); }
'''),
 dict(T, id='C31b', property='C31', edits=[('src/evfs.c', '''      // Notify the VFS it is unregistered
      vfs->m_vfs_ctrl(vfs, EVFS_CMD_UNREGISTER, NULL);
''', '''      // Notify the VFS it is unregistered
      UNLOCK();
      vfs->m_vfs_ctrl(vfs, EVFS_CMD_UNREGISTER, NULL);
      LOCK();
''')], needs='a thread that uses the default file system while another removes it', breaks='a file system that is already released is used',
  demo=PRE + r'''
static int dead; static Evfs v; static int s_ctrl(Evfs *f, int c, void *a) { if(c == EVFS_CMD_UNREGISTER) { dead = 1; usleep(200000); } return EVFS_OK; }
static int used_dead; static int s_stat(Evfs *f, const char *p, EvfsInfo *i) { used_dead |= dead; return EVFS_OK; }
static void *un(void *p) { evfs_unregister(&v); return 0; } static void *st(void *p) { EvfsInfo i; evfs_stat("x", &i); return 0; }
int main(void) { setup(); v = *host; v.vfs_name = "v"; v.next = NULL; v.m_vfs_ctrl = s_ctrl; v.m_stat = s_stat; evfs_register(&v, true); two(un, 0, st, 0); return used_dead; }
'''),
 dict(T, id='C31c', property='C31', edits=[('src/tar_fs.c', '''  LOCK();
  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file,
                                  fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
  if(rval == EVFS_OK)
''', '''  evfs_off_t data_offset = fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos;
  ptrdiff_t rval = EVFS_OK;

  if(evfs_file_tell(fs_data->tar_file) != data_offset) // Often in place
    rval = evfs_file_seek(fs_data->tar_file, data_offset, EVFS_SEEK_TO);

  LOCK();
  if(rval == EVFS_OK)
''')], needs='two threads that read different files of one archive', breaks='a file shows the content of another',
  demo=PRE + r'''
static size_t tar_add(unsigned char *o, const char *name, const void *d, size_t n) { memset(o, 0, 512 + (n + 511) / 512 * 512); strcpy((char *)o, name); strcpy((char *)o + 100, "0000644"); strcpy((char *)o + 108, "0000000"); strcpy((char *)o + 116, "0000000"); sprintf((char *)o + 124, "%011o", (unsigned)n); strcpy((char *)o + 136, "00000000000"); memset(o + 148, ' ', 8); o[156] = '0'; memcpy(o + 257, "ustar", 6); memcpy(o + 263, "00", 2); unsigned s = 0; for(int i = 0; i < 512; i++) s += o[i]; sprintf((char *)o + 148, "%06o", s); memcpy(o + 512, d, n); return 512 + (n + 511) / 512 * 512; }
typedef struct { EvfsFile b; } F; static unsigned char D[8192]; static long pos, len; static int nap;
static ptrdiff_t F_read(EvfsFile *f, void *b, size_t n) { if(pos >= len) return 0; if((long)n > len - pos) n = len - pos; memcpy(b, D + pos, n); pos += n; return n; }
static int F_close(EvfsFile *f) { return 0; } static int F_sync(EvfsFile *f) { return 0; } static evfs_off_t F_size(EvfsFile *f) { return len; } static evfs_off_t F_tell(EvfsFile *f) { return pos; }
static int F_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { pos = d == EVFS_SEEK_TO ? o : d == EVFS_SEEK_REL ? pos + o : len - o; if(nap) usleep(100000); return 0; }
static const EvfsFileMethods M = { .m_close = F_close, .m_read = F_read, .m_sync = F_sync, .m_size = F_size, .m_seek = F_seek, .m_tell = F_tell };
static int v_open(Evfs *v, const char *p, EvfsFile *f, int fl) { f->methods = &M; return 0; } static int v_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR_NO_FILE; }
static EvfsFile *a, *b; static char x[2], y[2]; static void *rd(void *p) { evfs_file_read(p == x ? a : b, p, 1); return 0; }
int main(void) { static Evfs v; len = tar_add(D, "one", "1", 1); len += tar_add(D + len, "two", "2", 1); len += 1024; evfs_init(); v.vfs_name = "s"; v.vfs_file_size = sizeof(F); v.m_open = v_open; v.m_stat = v_stat; evfs_register(&v, true);
  EvfsFile *f; if(evfs_open_ex("x", &f, EVFS_READ, "s") || evfs_register_tar_fs("t", f, true) || evfs_open("/one", &a, EVFS_READ) || evfs_open("/two", &b, EVFS_READ)) return 2; nap = 1; two(rd, x, rd, y); return *x != '1' || *y != '2'; }
'''),
 dict(T, id='C31d', property='C31', edits=[('src/shim_rotate.c', '''  build_chunk_path(base_vfs, &rs->base, next, &joined_r);

  // Open file handle is returned through fh
  int status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);

  UNLOCK(rs->base.buf);
''', '''  build_chunk_path(base_vfs, &rs->base, next, &joined_r);

  UNLOCK(rs->base.buf);

  // Open file handle is returned through fh
  int status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);
''')], needs='two threads whose logs need a new part at the same time', breaks='data of one log is stored in the other',
  demo=PRE + r'''
static void *wr(void *p) { EvfsFile *f = p; char d[80]; memset(d, 'd', sizeof d); evfs_file_write(f, d, sizeof d); return 0; }
static int parts(const char *l) { int n = 0; char p[64]; EvfsDir *d; EvfsInfo i; if(evfs_open_dir_ex(l, &d, "stdio")) return -1; while(evfs_dir_read(d, &i) == EVFS_OK) if(i.name[0] != '.' && strchr(i.name, '_')) n++; evfs_dir_close(d); return n; }
int main(void) { setup(); RotateConfig c = {.chunk_size = 32, .max_chunks = 6}; if(evfs_register_rotate("r", "slow", &c, false)) return 2; EvfsFile *a, *b; if(evfs_open_ex("A", &a, EVFS_RDWR | EVFS_OPEN_OR_NEW, "r") || evfs_open_ex("B", &b, EVFS_RDWR | EVFS_OPEN_OR_NEW, "r")) return 2; two(wr, a, wr, b); evfs_file_close(a); evfs_file_close(b); int x = parts("A"), y = parts("B"); fprintf(stderr, "%d %d\n", x, y); return x != y; }
'''),
]
