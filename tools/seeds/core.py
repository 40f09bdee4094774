PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/util/glob.h"
'''
SEEDS = [
 dict(id='R05a', property='R05', edits=[('src/evfs.c', '''      if(s_default_vfs == vfs) // Set new default if needed
        s_default_vfs = s_vfs_list;''', '''      if(!prev_vfs && s_default_vfs == vfs) // Set new default if needed
        s_default_vfs = s_vfs_list;''')],
  needs='the default VFS is unregistered while it is not at the head of the registry list', breaks='the default keeps pointing at an unregistered VFS',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); const char *bn = evfs_default_vfs_name(); Evfs *base = evfs_find_vfs(bn);
  evfs_register_jail("j1", bn, "/tmp", false); evfs_register_jail("j2", bn, "/tmp", false);
  evfs_unregister(base);
  const char *d = evfs_default_vfs_name();
  return strcmp(d, "j1") && strcmp(d, "j2"); }
'''),
 dict(id='R06a', property='R06', edits=[('src/evfs.c', '''    int wrote = evfs_file_write(dest_fh, buf, read);
    if(wrote != read) {
      rval = wrote < 0 ? wrote : EVFS_ERR_IO;
      break;
    }
''', '''    int wrote = evfs_file_write(dest_fh, buf, read);
    if(wrote <= 0) {
      rval = wrote < 0 ? wrote : EVFS_ERR_IO;
      break;
    }
''')], needs='the destination accepts only part of a write (short write, full device)', breaks='a short write is taken as complete: the copy is missing data and reports success',
  demo=PRE + r'''
typedef struct { EvfsFile b; size_t n; } F; static size_t stored;
static int f_ctrl(EvfsFile *f, int c, void *a) { return EVFS_OK; }
static int f_close(EvfsFile *f) { stored = ((F *)f)->n; return EVFS_OK; }
static ptrdiff_t f_read(EvfsFile *f, void *b, size_t n) { memset(b, 'x', n); return (ptrdiff_t)n; }
static ptrdiff_t f_write(EvfsFile *f, const void *b, size_t n) { size_t room = 100 - ((F *)f)->n; if(!room) return EVFS_ERR_FS_FULL; if(n > 70) n = 70; if(n > room) n = room; ((F *)f)->n += n; return (ptrdiff_t)n; }
static evfs_off_t f_size(EvfsFile *f) { return 90; }
static int f_sync(EvfsFile *f) { return EVFS_OK; }
static const EvfsFileMethods M = { f_ctrl, f_close, f_read, f_write, NULL, f_sync, f_size, NULL, NULL, NULL };
static int s_open(Evfs *v, const char *p, EvfsFile *f, int fl) { ((F *)f)->n = 0; f->methods = &M; return EVFS_OK; }
static int s_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR_NO_FILE; }
int main(void) { static Evfs v; evfs_init(); v.vfs_name = "s"; v.vfs_file_size = sizeof(F); v.m_open = s_open; v.m_stat = s_stat; evfs_register(&v, true);
  EvfsFile *fh; char buf[90]; if(evfs_open("a", &fh, EVFS_READ)) return 2;
  int s = evfs_copy_to_file("b", fh, buf, sizeof buf); evfs_file_close(fh);
  return s == EVFS_OK; }
'''.replace('evfs_file_close(fh);\n', '').replace('static size_t stored;', '').replace('stored = ((F *)f)->n; ', '')),
 dict(id='R07a', property='R07', edits=[('src/util/glob.c', '''      for(int ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
        ADD_TO_SET(cs, ch);
      }
      rng_pos += 2;''', '''      for(int ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
        ADD_TO_SET(cs, ch);
      }
      rng_pos += (*(rng_pos+3) == '-') ? 3 : 2;''')],
  needs='a set in which a range is directly followed by a literal "-" that starts another range', breaks='part of a bracket set is skipped',
  demo=PRE + r'''
int main(void) { return !(glob_match("[a-c--0]x", "-x", "/") && glob_match("[a-c--0]x", ".x", "/") && glob_match("[a-c--0]x", "/x", "")); }
'''),
 dict(id='R08a', property='R08', edits=[('src/evfs.c', """  if(size > 0)
    buf = evfs_malloc(size);
""", """  if(size > 4096)
    size = 4096;

  if(size > 0)
    buf = evfs_malloc(size);
"""), ('src/evfs.c', """    vsprintf(buf, fmt, args);
""", """    vsnprintf(buf, size, fmt, args);
""")], needs='a formatted text longer than 4095 characters', breaks='long formatted output is silently cut off',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true); EvfsFile *fh; if(evfs_open("o", &fh, EVFS_RDWR | EVFS_OVERWRITE)) return 2;
  int n = evfs_file_printf(fh, "%5000d|%s", 7, "tail"); long sz = evfs_file_size(fh); evfs_file_close(fh);
  return n != 5005 || sz != 5005; }
'''),
]
