PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "lfs.h"
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/littlefs_fs.h"
#include "evfs/littlefs_image.h"
static LittlefsImage img; static struct lfs_config cfg; static lfs_t lfs;
static int setup(void) { evfs_init(); evfs_register_stdio(true); cfg.context = &img; cfg.read = littlefs_image_read; cfg.prog = littlefs_image_prog; cfg.erase = littlefs_image_erase; cfg.sync = littlefs_image_sync; cfg.read_size = cfg.prog_size = 16; cfg.block_size = 512; cfg.block_count = 100; cfg.cache_size = 64; cfg.lookahead_size = 16; cfg.block_cycles = -1;
  return littlefs_make_image("img", &cfg) || littlefs_mount_image("img", &cfg, &lfs) || evfs_register_littlefs("l", &lfs, false); }
static int put(const char *p) { EvfsFile *f; if(evfs_open_ex(p, &f, EVFS_RDWR | EVFS_NO_EXIST, "l")) return -1; evfs_file_write(f, "abc", 3); return evfs_file_close(f); }
'''
T = dict(lfs=True, property='L25')
SEEDS = [
 dict(T, id='L25a', edits=[('src/littlefs_fs.c', '''    while(status >= 0 && (!strcmp(dir->info.name, ".") || !strcmp(dir->info.name, ".."))) {
''', '''    while(status > 0 && !strncmp(dir->info.name, "..", strlen(dir->info.name) > 1 ? 2 : 1)) {
''')], needs='a directory listed without dot entries that contains a file whose name begins with two dots', breaks='the file is left out of the listing',
  demo=PRE + r'''
int main(void) { if(setup()) return 2; unsigned on = 1; evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &on, "l"); put("..data"); put("b"); EvfsDir *d; EvfsInfo i; int n = 0; evfs_open_dir_ex("/", &d, "l"); while(evfs_dir_read(d, &i) == EVFS_OK) n++; evfs_dir_close(d); return n != 2; }
'''),
 dict(T, id='L25b', edits=[('src/littlefs_fs.c', '''  return littlefs__file_tell(fh) >= littlefs__file_size(fh);
''', '''  return littlefs__file_size(fh) == littlefs__file_tell(fh);
''')], needs='a position beyond the end, by a seek or a truncation', breaks='the end of the file is not recognized',
  demo=PRE + r'''
int main(void) { if(setup()) return 2; put("a"); EvfsFile *f; evfs_open_ex("a", &f, EVFS_RDWR, "l"); evfs_file_seek(f, 3, EVFS_SEEK_TO); if(!evfs_file_eof(f)) return 1; evfs_file_truncate(f, 1); int bad = !evfs_file_eof(f); evfs_file_close(f); return bad; }
'''),
 dict(T, id='L25c', edits=[('src/littlefs_image.c', '''  return evfs_file_sync(img->fh) == EVFS_OK ? LFS_ERR_OK : LFS_ERR_IO;
''', '''  // Not every container can be synced
  evfs_file_sync(img->fh);
  return LFS_ERR_OK;
''')], needs='the file that holds the image fails to sync', breaks='a commit is reported as durable although its sync failed',
  demo=PRE + r'''
static int bad_sync(EvfsFile *f) { return EVFS_ERR_IO; }
int main(void) { if(setup()) return 2; static EvfsFileMethods m; m = *img.fh->methods; m.m_sync = bad_sync; img.fh->methods = &m; return evfs_make_dir_ex("d", "l") == EVFS_OK; }
'''),
]
