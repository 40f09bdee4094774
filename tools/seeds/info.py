
PRE = r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <sys/stat.h>
#include "ff.h"
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
#include "evfs/shim/shim_jail.h"
static time_t now_ = 1700000000; time_t time(time_t *t) { if(t) *t = now_; return now_; }
static int put(const char *p, const char *v) { EvfsFile *f; if(evfs_open_ex(p, &f, EVFS_RDWR | EVFS_NO_EXIST, v)) return -1; evfs_file_write(f, "abc", 3); return evfs_file_close(f); }
static long listed(const char *v, const char *d, const char *n, int type) { EvfsDir *dh; EvfsInfo i; long r = -1; if(evfs_open_dir_ex(d, &dh, v)) return -2; while(evfs_dir_read(dh, &i) == EVFS_OK) if(!strcmp(i.name, n)) r = type ? i.type : i.mtime; evfs_dir_close(dh); return r; }
static int fat(void) { evfs_init(); evfs_register_stdio(true); return fatfs_make_image("img", 0, 262144) || fatfs_mount_image("img", 0) || evfs_register_fatfs("f", 0, false); }
"""
T = dict(property='I33')
SEEDS = [
 dict(T, id='I33a', edits=[('src/fatfs_fs.c', """    mtime.tm_year = (dir->info.fdate & 0x7F) + 80;
""", """    mtime.tm_year = (dir->info.fdate & 0x3F) + 80;
""")], needs='a file on FAT changed in 2044 or later', breaks='it is listed as changed 64 years earlier',
  demo=PRE + r"""
int main(void) { if(fat()) return 2; now_ = 2400000000; put("/a", "f"); return listed("f", "/", "a", 0) != now_; }
"""),
 dict(T, id='I33b', edits=[('src/stdio_fs.c', """    if(posix_entry->d_type == DT_DIR)
""", """    if(posix_entry->d_type & DT_DIR)
""")], needs='a directory with a socket in it', breaks='the socket is listed as a directory',
  demo=PRE + r"""
int main(void) { evfs_init(); evfs_register_stdio(true); if(mknod("s", S_IFSOCK | 0600, 0)) return 2; return listed("stdio", ".", "s", 1) != 0; }
"""),
 dict(T, id='I33c', edits=[('src/fatfs_image.c', """    (now.tm_min << 5) | (now.tm_sec >> 1);
""", """    (now.tm_min << 5) | ((now.tm_sec + 1) >> 1);
""")], needs='a file on FAT changed in the last second of a minute', breaks='its time is not a valid FAT time and is listed wrong',
  demo=PRE + r"""
int main(void) { if(fat()) return 2; now_ = 1699999998 + 1; now_ -= now_ % 60; now_ += 59; put("/a", "f"); return listed("f", "/", "a", 0) != now_ - 1; }
"""),
]
