PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
'''
SEEDS = [
 dict(id='P02a', property='P02', edits=[('src/evfs_path.c', 'if(stack_head > preserved_parent_ref+1) {', 'if(stack_head > 0) {')],
  needs='a relative path of more than 32 segments that starts with more than one ".."', breaks='the fallback algorithm drops leading ".." segments of long relative paths',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true);
  char in[512] = "../../"; for(int i = 0; i < 20; i++) strcat(in, "./d/"); strcat(in, "x");
  char out[512]; StringRange r = {out, out + sizeof out};
  if(evfs_path_normalize(in, &r)) return 2;
  return strncmp(out, "../../d/", 8) ? 1 : 0; }
'''),
 dict(id='P03a', property='P03', edits=[('src/evfs_path.c', '  if(free_space >= 1 + path_len) { // No malloc needed', '  if(free_space >= path_len) { // No malloc needed')],
  needs='an output buffer whose free space after the current directory is exactly the length of the path', breaks='absolute conversion reports overflow although the normalized result fits',
  demo=PRE + r'''
int main(void) { evfs_init(); evfs_register_stdio(true);
  char cwd[300]; StringRange c = {cwd, cwd + sizeof cwd}; if(evfs_get_cur_dir(&c)) return 2;
  const char *p = "../aaa/../b"; size_t n = strlen(cwd) + 1 + strlen(p);
  for(size_t k = n - 1; k <= n + 2; k++) { char *o = malloc(k); StringRange r = {o, o + k};
    if(evfs_path_absolute(p, &r) != EVFS_OK) return 1; }
  return 0; }
'''),
 dict(id='P04a', property='P04', edits=[('src/evfs.c', '''    if(err == EVFS_ERR_NO_FILE) { // Path segment missing
      err = vfs->m_make_dir(vfs, cur_path);''', '''    if(err != EVFS_OK) { // Path segment missing
      err = vfs->m_make_dir(vfs, cur_path);''')],
  needs='the underlying file system fails to report on a segment for a reason other than it being missing', breaks='make_path creates directories after an I/O error and hides the error',
  demo=PRE + r'''
static int made, st_err;
static int s_open(Evfs *v, const char *p, EvfsFile *f, int fl) { return EVFS_ERR; }
static int s_stat(Evfs *v, const char *p, EvfsInfo *i) { return st_err; }
static int s_mkdir(Evfs *v, const char *p) { made++; return EVFS_OK; }
static bool s_root(Evfs *v, const char *p, StringRange *r) { r->start = p; r->end = p; return false; }
int main(void) { static Evfs v; evfs_init(); v.vfs_name = "s"; v.m_open = s_open; v.m_stat = s_stat; v.m_make_dir = s_mkdir; v.m_path_root_component = s_root;
  evfs_register(&v, true);
  st_err = EVFS_ERR_NO_FILE; if(evfs_make_path("a/b") != EVFS_OK || made != 2) return 2;
  made = 0; st_err = EVFS_ERR_IO; int s = evfs_make_path("a/b");
  return s == EVFS_ERR_IO && made == 0 ? 0 : 1; }
'''),
 dict(id='P01a', property='P01', edits=[('src/evfs_path.c', '''  // Get the file name
  evfs_path_basename(path, ext);
  const char *pos = ext->end;

  if(range_size(ext) > 0) {''', '''  // Get the file name
  evfs_path_basename(path, ext);
  const char *pos = ext->end;

  if(range_size(ext) > 1 && *(pos-1) != '.') {''')],
  needs='a name that ends with a period', breaks='the extension of "name." is reported empty instead of "."',
  demo=PRE + r'''
int main(void) { StringRange e; if(evfs_path_extname("dir/name.", &e)) return 2;
  return e.end - e.start == 1 ? 0 : 1; }
'''),
]
