PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_jail.h"
#include "ff.h"
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
static int write_all(const char *p, int fl, const void *d, size_t n) { EvfsFile *f; int s = evfs_open(p, &f, fl); if(s) return s; s = evfs_file_write(f, d, n) == (ptrdiff_t)n ? 0 : -1; int c = evfs_file_close(f); return s ? s : c; }
'''
TAR = PRE + r'''
static size_t tar_add(unsigned char *o, const char *name, char type, const void *d, size_t n) { memset(o, 0, 512 + (n + 511) / 512 * 512); strcpy((char *)o, name); strcpy((char *)o + 100, "0000644"); strcpy((char *)o + 108, "0000000"); strcpy((char *)o + 116, "0000000"); sprintf((char *)o + 124, "%011o", (unsigned)n); strcpy((char *)o + 136, "00000000000"); memset(o + 148, ' ', 8); o[156] = type; memcpy(o + 257, "ustar", 6); memcpy(o + 263, "00", 2); unsigned s = 0; for(int i = 0; i < 512; i++) s += o[i]; sprintf((char *)o + 148, "%06o", s); memcpy(o + 512, d, n); return 512 + (n + 511) / 512 * 512; }
'''
ROM = PRE + r'''
static void be(unsigned char *p, unsigned v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static unsigned sum(unsigned char *p, size_t n) { unsigned s = 0; for(size_t i = 0; i < n; i += 4) s += (unsigned)p[i] << 24 | p[i+1] << 16 | p[i+2] << 8 | p[i+3]; return s; }
/* volume with the files "." (root) and "f" */
static size_t rom(unsigned char *o, const char *vol, const void *d, size_t n) { memset(o, 0, 4096); size_t r = (16 + strlen(vol) + 1 + 15) & ~15, f = r + 32, e = (f + 32 + n + 15) & ~15; memcpy(o, "-rom1fs-", 8); be(o + 8, e); strcpy((char *)o + 16, vol);
  be(o + r, f | 1 | 8); be(o + r + 4, r); be(o + r + 8, 0); strcpy((char *)o + r + 16, "."); be(o + r + 12, -sum(o + r, 32));
  be(o + f, 2); be(o + f + 8, n); strcpy((char *)o + f + 16, "f"); be(o + f + 12, -sum(o + f, 32)); memcpy(o + f + 32, d, n); be(o + 12, -sum(o, e < 512 ? e : 512)); return (e + 1023) & ~1023; }
'''
SEEDS = [
 dict(id='S09a', property='S09', edits=[('src/stdio_fs.c', "  if(mode[0] == 'r' && (flags & EVFS_OPEN_OR_NEW)) {", "  if(mode[0] == 'r' && mode[1] == '+' && (flags & EVFS_OPEN_OR_NEW)) {")], needs='a missing file is opened only for reading with the flag that creates it', breaks='the file is not created and the open fails',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); EvfsFile *f; return evfs_open("a", &f, EVFS_READ | EVFS_OPEN_OR_NEW) != EVFS_OK; }
'''),
 dict(id='S10a', property='S10', edits=[('src/stdio_fs.c', '''  StdioFile *fil = (StdioFile *)fh;
  StdioData *fs_data = (StdioData *)fil->fs_data;

  if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;

  // Buffered''', '''  StdioFile *fil = (StdioFile *)fh;

  // Buffered''')], needs='a file is opened for writing before write protection is switched on, then truncated', breaks='the file shrinks although the file system is write protected',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); if(write_all("a", EVFS_WRITE | EVFS_NO_EXIST, "xyz", 3)) return 2; EvfsFile *f; if(evfs_open("a", &f, EVFS_RDWR)) return 2; unsigned on = 1; evfs_vfs_ctrl(EVFS_CMD_SET_READONLY, &on); evfs_file_truncate(f, 0); struct stat s; stat("a", &s); return s.st_size != 3; }
'''),
 dict(id='A19a', property='A19', edits=[('src/tar_iter.c', '  evfs_off_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;', '  evfs_off_t file_blocks = tar_it->file_size > 0 ? tar_it->file_size / TAR_BLOCK_SIZE + 1 : 0;')], needs='an archive on a file system with a file whose size is a multiple of 512, followed by others', breaks='the files after it are missing',
  demo=TAR + r'''
int main(void) { static unsigned char b[8192], d[1024]; memset(d, 'd', sizeof d); size_t n = tar_add(b, "one", '0', d, 1024); n += tar_add(b + n, "two", '0', d, 10); n += 1024; evfs_init(); evfs_register_stdio(true); if(write_all("t.tar", EVFS_WRITE | EVFS_NO_EXIST, b, n)) return 2; EvfsFile *f; if(evfs_open("t.tar", &f, EVFS_READ)) return 2; if(evfs_register_tar_fs("t", f, true)) return 1; return evfs_open("/two", &f, EVFS_READ) != EVFS_OK; }
'''),
 dict(id='A20a', property='A20', edits=[('src/romfs_common.c', 'fs->root_dir = (16 + strnlen(vol_name, EVFS_ROMFS_MAX_NAME_LEN-1)+1 + 15) & ~0xF;', 'fs->root_dir = 16 + (strnlen(vol_name, EVFS_ROMFS_MAX_NAME_LEN-1) + 15) / 16 * 16;')], needs='an image whose volume name is a multiple of 16 characters long', breaks='the root directory is looked for inside the volume name and the tree is not shown',
  demo=ROM + r'''
int main(void) { static unsigned char b[4096]; size_t n = rom(b, "sixteen char vol", "data", 4); evfs_init(); if(evfs_register_rsrc_romfs("r", b, n, true)) return 1; EvfsFile *f; char c[5] = {0}; return !(evfs_open("/f", &f, EVFS_READ) == EVFS_OK && evfs_file_read(f, c, 4) == 4 && !strcmp(c, "data")); }
'''),
 dict(id='A21a', property='A21', defs='-fsanitize=address', edits=[('src/romfs_common.c', 'fs->root_dir = (16 + strnlen(vol_name, EVFS_ROMFS_MAX_NAME_LEN-1)+1 + 15) & ~0xF;', 'fs->root_dir = (16 + strlen(vol_name)+1 + 15) & ~0xF;')], needs='an image with a correct superblock checksum whose volume name has no terminator', breaks='reads past the end of a buffer',
  demo=ROM + r'''
int main(void) { static unsigned char b[4096]; size_t n = rom(b, "v", "data", 4); memset(b + 16, 'x', 1000); be(b + 8, 1024); be(b + 12, 0); be(b + 12, -sum(b, 512)); evfs_init(); evfs_register_rsrc_romfs("r", b, 1024, true); return 0; }
'''),
 dict(id='A22a', property='A22', edits=[('src/romfs_fs.c', "  ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);", "  ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);\n  UNLOCK();\n\n  if(rval < 0) // Damaged image\n    size = rval = 0;\n\n  LOCK();"), ('src/romfs_fs.c', "  //DPRINT(\"## READ: @ %ld,  %ld  '%02X'\", fil->read_pos-size, size, *((uint8_t *)buf));\n\n  return rval;\n}\n\nstatic ptrdiff_t romfs__file_write", "  return size ? rval : 0;\n}\n\nstatic ptrdiff_t romfs__file_write")], needs='a read error in the image file while an archived file is read', breaks='the failed read looks like the end of the file',
  demo=ROM + r'''
typedef struct { EvfsFile b; } F; static unsigned char D[8192]; static long pos, len; static int bad;
static ptrdiff_t F_read(EvfsFile *f, void *b, size_t n) { if(bad) return EVFS_ERR_IO; if(pos >= len) return 0; if((long)n > len - pos) n = len - pos; memcpy(b, D + pos, n); pos += n; return n; }
static int F_close(EvfsFile *f) { return 0; } static int F_sync(EvfsFile *f) { return 0; } static evfs_off_t F_size(EvfsFile *f) { return len; } static evfs_off_t F_tell(EvfsFile *f) { return pos; }
static int F_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { pos = d == EVFS_SEEK_TO ? o : d == EVFS_SEEK_REL ? pos + o : len - o; return 0; }
static const EvfsFileMethods M = { .m_close = F_close, .m_read = F_read, .m_sync = F_sync, .m_size = F_size, .m_seek = F_seek, .m_tell = F_tell };
static int s_open(Evfs *v, const char *p, EvfsFile *f, int fl) { f->methods = &M; return 0; }
static int s_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR_NO_FILE; }
int main(void) { static Evfs v; len = rom(D, "v", "data", 4); evfs_init(); v.vfs_name = "s"; v.vfs_file_size = sizeof(F); v.m_open = s_open; v.m_stat = s_stat; evfs_register(&v, true);
  EvfsFile *f, *g; char b[8]; if(evfs_open_ex("x", &f, EVFS_READ, "s")) return 2; if(evfs_register_romfs("r", f, true)) return 2; if(evfs_open("/f", &g, EVFS_READ)) return 2; bad = 1; return evfs_file_read(g, b, 4) >= 0; }
'''),
 dict(id='F23a', property='F23', edits=[('src/fatfs_fs.c', '''  evfs_off_t cur_pos = f_tell(&fil->fil);

  // f_lseek() can grow''', '''  evfs_off_t cur_pos = f_size(&fil->fil);

  // f_lseek() can grow''')], needs='truncating a file while the position is not at its end', breaks='the position moves and later data is stored elsewhere',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); if(fatfs_make_image("img", 0, 1 << 20) || fatfs_mount_image("img", 0) || evfs_register_fatfs("f", 0, true)) return 2; EvfsFile *f; if(evfs_open("a", &f, EVFS_RDWR | EVFS_NO_EXIST)) return 2; evfs_file_write(f, "0123456789", 10); evfs_file_seek(f, 2, EVFS_SEEK_TO); evfs_file_truncate(f, 8); return evfs_file_tell(f) != 2; }
'''),
 dict(id='J12a', property='J12', edits=[('src/shim_jail.c', '''  int status = dir->base_dir->methods->m_read(dir->base_dir, info);

  return status;
''', '''  int status;

  do { // Nothing above the jail is shown
    status = dir->base_dir->methods->m_read(dir->base_dir, info);
  } while(status == EVFS_OK && strncmp(info->name, "..", 2) == 0);

  return status;
''')], needs='a directory with a name that starts with two dots', breaks='the entry is missing from listings inside the jail',
  demo=PRE + r'''
int main(void) { mkdir("jail", 0777); evfs_init(); evfs_register_stdio(true); if(evfs_register_jail("j", "stdio", "jail", true)) return 2; if(write_all("/..data", EVFS_WRITE | EVFS_NO_EXIST, "x", 1)) return 2; EvfsDir *d; EvfsInfo i; if(evfs_open_dir("/", &d)) return 2; while(evfs_dir_read(d, &i) == EVFS_OK) if(!strcmp(i.name, "..data")) return 0; return 1; }
'''),
]
