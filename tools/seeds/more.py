PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_jail.h"
#include "ff.h"
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
static int write_all(const char *p, int fl, const void *d, size_t n) { EvfsFile *f; int s = evfs_open(p, &f, fl); if(s) return s; s = evfs_file_write(f, d, n) == (ptrdiff_t)n ? 0 : -1; int c = evfs_file_close(f); return s ? s : c; }
'''
TAR = PRE + r'''
static size_t tar_add(unsigned char *o, const char *name, char type, const void *d, size_t n) { memset(o, 0, 512 + (n + 511) / 512 * 512); strcpy((char *)o, name); strcpy((char *)o + 100, "0000644"); strcpy((char *)o + 108, "0000000"); strcpy((char *)o + 116, "0000000"); sprintf((char *)o + 124, "%011o", (unsigned)n); strcpy((char *)o + 136, "00000000000"); memset(o + 148, ' ', 8); o[156] = type; memcpy(o + 257, "ustar", 6); memcpy(o + 263, "00", 2); unsigned s = 0; for(int i = 0; i < 512; i++) s += o[i]; sprintf((char *)o + 148, "%06o", s); memcpy(o + 512, d, n); return 512 + (n + 511) / 512 * 512; }
'''
ROM = PRE + r'''
static void be(unsigned char *p, unsigned v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static unsigned sum(unsigned char *p, size_t n) { unsigned s = 0; for(size_t i = 0; i < n; i += 4) s += (unsigned)p[i] << 24 | p[i+1] << 16 | p[i+2] << 8 | p[i+3]; return s; }
/* volume with the files "." (root) and "f" */
static size_t rom(unsigned char *o, const char *vol, const void *d, size_t n) { memset(o, 0, 4096); size_t r = (16 + strlen(vol) + 1 + 15) & ~15, f = r + 32, e = (f + 32 + n + 15) & ~15; memcpy(o, "-rom1fs-", 8); be(o + 8, e); strcpy((char *)o + 16, vol);
  be(o + r, f | 1 | 8); be(o + r + 4, r); be(o + r + 8, 0); strcpy((char *)o + r + 16, "."); be(o + r + 12, -sum(o + r, 32));
  be(o + f, 2); be(o + f + 8, n); strcpy((char *)o + f + 16, "f"); be(o + f + 12, -sum(o + f, 32)); memcpy(o + f + 32, d, n); be(o + 12, -sum(o, e < 512 ? e : 512)); return (e + 1023) & ~1023; }
'''

SEEDS = [
 dict(id='P05a', property='P05', edits=[('src/shim_jail.c', '  char        cur_dir[EVFS_MAX_PATH];   // CWD', '  char        cur_dir[EVFS_MAX_PATH/2]; // CWD')], needs='a current directory inside a jail whose path is longer than half of the longest path', breaks='the current directory is cut off without an error',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); char d[200] = "jail"; mkdir(d, 0777); strcat(d, "/"); memset(d + 5, 'd', 80); mkdir(d, 0777); strcat(d, "/"); memset(d + 86, 'e', 80); mkdir(d, 0777);
  if(evfs_register_jail("j", "stdio", "jail", true)) return 2; if(evfs_set_cur_dir(d + 4)) return 0; char b[256]; StringRange r = RANGE_FROM_ARRAY(b); if(evfs_get_cur_dir(&r)) return 2; return strcmp(b, d + 4) != 0; }
'''),
 dict(id='A24a', property='A24', edits=[('src/tar_iter.c', 'i = offsetof(TarHeader, type_flag); i < TAR_HEADER_SIZE; i++', 'i = offsetof(TarHeader, type_flag); i < TAR_HEADER_SIZE - 167; i++')], needs='an archive entry whose header is damaged in its prefix field', breaks='the file is served under a wrong path instead of being refused',
  demo=TAR + r'''
int main(void) { static unsigned char b[8192]; size_t n = tar_add(b, "a", '0', "x", 1); n += tar_add(b + n, "b", '0', "y", 1); n += 1024; b[1024 + 345] = 'q'; evfs_init(); evfs_register_stdio(true); if(write_all("t.tar", EVFS_WRITE | EVFS_NO_EXIST, b, n)) return 2; EvfsFile *f; if(evfs_open("t.tar", &f, EVFS_READ)) return 2; if(evfs_register_tar_fs("t", f, true)) return 0; return evfs_open("/q/b", &f, EVFS_READ) == EVFS_OK; }
'''),
 dict(id='A24b', property='A24', edits=[('src/romfs_common.c', '    if(checksum == 0) { // Valid', '    if((checksum & 0xFFFFFF) == 0) { // Valid')], needs='an image whose first block is damaged only in bytes at multiples of four', breaks='the damaged image is mounted',
  demo=ROM + r'''
int main(void) { static unsigned char b[4096]; size_t n = rom(b, "v", "data", 4); b[96] ^= 4; evfs_init(); return evfs_register_rsrc_romfs("r", b, n, true) == EVFS_OK; }
'''),
 dict(id='E34a', property='E34', edits=[('src/stdio_fs.c', '    case ENOTDIR:      return EVFS_ERR_NO_PATH; break;\n', '')], needs='a path below a file on the host', breaks='the missing file is reported as a general error, so it cannot be told from a failure',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); if(write_all("f", EVFS_WRITE | EVFS_NO_EXIST, "x", 1)) return 2; EvfsInfo i; int s = evfs_stat("f/below", &i); return s != EVFS_ERR_NO_PATH && s != EVFS_ERR_NO_FILE; }
'''),
 dict(id='R14b', property='R14', edits=[('src/shim_rotate.c', '"c%05d_%c.cnk", chunk_num.chunk,', '"c%05d_%c.cnk", chunk_num.chunk % 1000,')], needs='a log of more than a thousand chunks', breaks='later chunks overwrite the first ones',
  demo=PRE + r'''
#include "evfs/shim/shim_rotate.h"
int main(void) { evfs_init(); evfs_register_stdio(true); RotateConfig c = {.chunk_size = 32, .max_chunks = 1100}; if(evfs_register_rotate("r", "stdio", &c, true)) return 2; EvfsFile *f; char b[33] = {0}, d[33]; if(evfs_open("log", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW)) return 2;
  for(int i = 0; i < 1050; i++) { sprintf(d, "%032d", i); if(evfs_file_write(f, d, 32) != 32) return 1; } if(evfs_file_seek(f, 0, EVFS_SEEK_TO) || evfs_file_read(f, b, 32) != 32) return 1; sprintf(d, "%032d", 0); return strcmp(b, d) != 0; }
'''),
 dict(id='S09b', property='S09', edits=[('src/stdio_fs.c', '!strcmp(posix_entry->d_name, "..")))', '!strncmp(posix_entry->d_name, "..", 2)))')], needs='a directory with a name that starts with two dots, listed without the dot entries', breaks='the entry is missing from the listing',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); mkdir("d", 0777); if(write_all("d/..data", EVFS_WRITE | EVFS_NO_EXIST, "x", 1)) return 2; unsigned on = 1; evfs_vfs_ctrl(EVFS_CMD_SET_NO_DIR_DOTS, &on); EvfsDir *d; EvfsInfo i; if(evfs_open_dir("d", &d)) return 2; while(evfs_dir_read(d, &i) == EVFS_OK) if(!strcmp(i.name, "..data")) return 0; return 1; }
'''),
 dict(id='F23b', property='F23', edits=[('src/fatfs_image.c', '    return evfs_file_sync(img->fh) == EVFS_OK ? RES_OK : RES_ERROR;', '    return img->fh ? RES_OK : RES_ERROR;')], needs='the image file system keeps written data until it is synchronized', breaks='data of a synchronized file is not stored in the image',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); if(fatfs_make_image("img", 0, 1 << 20) || fatfs_mount_image("img", 0) || evfs_register_fatfs("f", 0, true)) return 2; EvfsFile *f; if(evfs_open("a", &f, EVFS_RDWR | EVFS_NO_EXIST)) return 2; evfs_file_write(f, "needle-in-image", 15); if(evfs_file_sync(f)) return 2;
  static char b[(1 << 20) + 1]; FILE *h = fopen("img", "rb"); size_t n = fread(b, 1, 1 << 20, h), dir = 0, data = 0; fclose(h); for(size_t i = 0; i + 32 < n; i++) { if(!memcmp(b + i, "A          ", 11) && b[i + 28] == 15) dir = 1; if(!memcmp(b + i, "needle-in-image", 15)) data = 1; } return !(dir && data); }
'''),
 dict(id='N35a', property='N35', edits=[('src/evfs.c', 'if(PTR_CHECK(old_path) || PTR_CHECK(new_path)) return EVFS_ERR_BAD_ARG;', 'if(PTR_CHECK(old_path)) return EVFS_ERR_BAD_ARG;')], needs='renaming without a new name', breaks='the call reaches the file system, and shims read the missing name',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); if(write_all("f", EVFS_WRITE | EVFS_NO_EXIST, "x", 1)) return 2; return evfs_rename("f", NULL) != EVFS_ERR_BAD_ARG; }
'''),
 dict(id='N35b', property='N35', edits=[('src/evfs.c', 'if(PTR_CHECK(dh) || PTR_CHECK(pattern) || PTR_CHECK(info)) return EVFS_ERR_BAD_ARG;', 'if(PTR_CHECK(dh) || PTR_CHECK(info)) return EVFS_ERR_BAD_ARG;')], needs='searching a directory with entries without a pattern', breaks='the missing pattern is read',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); mkdir("d", 0777); if(write_all("d/f", EVFS_WRITE | EVFS_NO_EXIST, "x", 1)) return 2; EvfsDir *d; EvfsInfo i; if(evfs_open_dir("d", &d)) return 2; return evfs_dir_find(d, NULL, &i) != EVFS_ERR_BAD_ARG; }
'''),
 dict(id='N35c', property='N35', edits=[('src/evfs.c', 'int evfs_file_truncate(EvfsFile *fh, evfs_off_t size) {\n  if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;', 'int evfs_file_truncate(EvfsFile *fh, evfs_off_t size) {\n  if(size < 0 && PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;')], needs='truncating without a file', breaks='the missing file is read',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); return evfs_file_truncate(NULL, 1) != EVFS_ERR_BAD_ARG; }
'''),
]
