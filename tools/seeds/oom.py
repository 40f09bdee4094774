PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_rotate.h"
extern void *__libc_malloc(size_t); extern void __libc_free(void *);
static int arm, fail_size; /* the arm-th allocation from now fails; only allocations of fail_size bytes count when it is set */
void *malloc(size_t n) { if(arm && (!fail_size || (int)n == fail_size) && --arm == 0) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
'''
ROM = PRE + r'''
static void be(unsigned char *p, unsigned v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static unsigned sum(unsigned char *p, size_t n) { unsigned s = 0; for(size_t i = 0; i < n; i += 4) s += (unsigned)p[i] << 24 | p[i+1] << 16 | p[i+2] << 8 | p[i+3]; return s; }
static void hdr(unsigned char *o, unsigned at, unsigned next, unsigned type, unsigned spec, const char *name) { be(o + at, next | type); be(o + at + 4, spec); strcpy((char *)o + at + 16, name); be(o + at + 12, -sum(o + at, 32)); }
/* "." (root), directory "sub" with file "f" */
static unsigned char o[1024];
static void rom(void) { memcpy(o, "-rom1fs-", 8); be(o + 8, 160); strcpy((char *)o + 16, "v"); hdr(o, 32, 64, 9, 32, "."); hdr(o, 64, 0, 9, 96, "sub"); hdr(o, 96, 0, 2, 0, "f"); be(o + 12, -sum(o, 160)); }
'''
SEEDS = [
 dict(id='E33a', property='E33', edits=[('src/evfs_path.c', '''    joined = evfs_malloc(joined_len);
    if(MEM_CHECK(joined)) return EVFS_ERR_ALLOC;
''', '''    joined = evfs_malloc(joined_len);
    if(MEM_CHECK(joined)) // Try without a joined path
      return evfs_vfs_path_normalize(vfs, path, absolute);
''')], needs='a relative path that does not fit beside the current directory in the output, and no memory left', breaks='a path that lacks the current directory is returned as the absolute path',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); evfs_make_dir("some_directory"); if(evfs_set_cur_dir("some_directory")) return 2; char b[200], cd[400]; StringRange c; range_init(&c, cd, sizeof cd); if(evfs_get_cur_dir(&c)) return 2; size_t n = strlen(cd) + 3; StringRange r; range_init(&r, b, n); arm = 1; int s = evfs_path_absolute("x/../y/../z/../w", &r); arm = 0; return s == EVFS_OK && strncmp(b, cd, strlen(cd)); }
'''),
 dict(id='E33b', property='E33', edits=[('src/shim_rotate.c', '''  if(status != EVFS_OK)
    goto cleanup1;

  // Read header
''', '''  if(status != EVFS_OK) { // The geometry is missing
    status = EVFS_ERR_NO_FILE;
    goto cleanup1;
  }

  // Read header
''')], needs='no memory for the handle of the geometry file when an existing container is opened', breaks='an existing log is reported as missing',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); RotateConfig cfg = { .chunk_size = 1024, .max_chunks = 3 }; if(evfs_register_rotate("r", "stdio", &cfg, false)) return 2; EvfsFile *f; if(evfs_open_ex("log", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, "r")) return 2; evfs_file_write(f, "abc", 3); evfs_file_close(f);
  for(int i = 1; i < 40; i++) { arm = i; int s = evfs_open_ex("log", &f, EVFS_RDWR, "r"); int hit = arm == 0; arm = 0; if(s == EVFS_OK) { evfs_file_close(f); if(!hit) return 0; } else if(s == EVFS_ERR_NO_FILE) return 1; } return 0; }
'''),
 dict(id='E33c', property='E33', edits=[('src/romfs_common.c', '''        char *sub_path = malloc(new_prefix_len+1);
        if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;

        AppendRange sub_path_r;
        range_init(&sub_path_r, sub_path, new_prefix_len+1);
        range_cat_str(&sub_path_r, path);
        range_cat_char(&sub_path_r, '/');
        range_cat_str(&sub_path_r, cur_file.file_name);

        //DPRINT("SUB PATH: '%s'", sub_path);
''', '''        char *sub_path = malloc(new_prefix_len+1);
        if(MEM_CHECK(sub_path)) break; // Nothing more can be indexed

        AppendRange sub_path_r;
        range_init(&sub_path_r, sub_path, new_prefix_len+1);
        range_cat_str(&sub_path_r, path);
        range_cat_char(&sub_path_r, '/');
        range_cat_str(&sub_path_r, cur_file.file_name);

        //DPRINT("SUB PATH: '%s'", sub_path);
''')], needs='an image with a subdirectory is mounted while memory runs out in the second scan', breaks='the mount succeeds and everything below the directory is missing',
  demo=ROM + r'''
int main(void) { rom(); evfs_init(); evfs_register_stdio(true); EvfsInfo i; if(evfs_register_rsrc_romfs("a", o, sizeof o, false) || evfs_stat_ex("/sub/f", &i, "a")) return 2; evfs_unregister(evfs_find_vfs("a"));
  for(int k = 1; k < 60; k++) { arm = k; int s = evfs_register_rsrc_romfs("a", o, sizeof o, false); arm = 0; if(s == EVFS_OK) { if(evfs_stat_ex("/sub/f", &i, "a")) return 1; evfs_unregister(evfs_find_vfs("a")); } } return 0; }
'''),
]
