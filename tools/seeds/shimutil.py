PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
#include "evfs/util/dhash.h"
#include "evfs/util/search.h"
#include "evfs/util/range_strings.h"
'''
ROT = PRE + r'''
#define APP (EVFS_RDWR|EVFS_APPEND|EVFS_OPEN_OR_NEW)
static void reg(unsigned cs, unsigned mc) { RotateConfig c = {.chunk_size = cs, .max_chunks = mc}; evfs_init(); evfs_register_stdio(true); if(evfs_register_rotate("rot", "stdio", &c, true)) exit(2); }
static int put(EvfsFile *f, int from, int n) { unsigned char b[1000]; for(int i = 0; i < n; i++) b[i] = (unsigned char)((from + i) * 7 + (from + i) / 32); return evfs_file_write(f, b, n) == n; }
static int same(EvfsFile *f, int from, int n) { unsigned char b[1000]; if(evfs_file_size(f) != n) return 0; evfs_file_seek(f, 0, EVFS_SEEK_TO); if(evfs_file_read(f, b, sizeof b) != n) return 0; for(int i = 0; i < n; i++) if(b[i] != (unsigned char)((from + i) * 7 + (from + i) / 32)) return 0; return 1; }
'''
SEEDS = [
 dict(id='U26a', property='U26', edits=[('src/util/dhash.c', '''    if(PROBE_COUNT(entry) < probes) {
      if(WAS_DELETED(entry)) {''', '''    if(PROBE_COUNT(entry) < probes + WAS_DELETED(entry)) {
      if(WAS_DELETED(entry)) {''')], needs='a colliding key is removed and another key that was stored behind it is replaced', breaks='the replaced key exists twice and the old value returns after removing it',
  demo=PRE + r'''
static dhIKey h(dhKey k) { return 5; }
static void destroy(dhKey k, void *v, void *c) {}
int main(void) { dhash t; dhConfig c = {.init_buckets = 20, .value_size = sizeof(int), .destroy_item = destroy, .gen_hash = h, .is_equal = dh_equal_hash_keys_string};
  if(!dh_init(&t, &c, NULL)) return 2; int v = 1; dhKey a = {"a", 1}, b = {"b", 1};
  dh_insert(&t, a, &v); dh_insert(&t, b, &v); dh_remove(&t, a, NULL); v = 2; dh_insert(&t, b, &v); dh_remove(&t, b, NULL);
  return dh_lookup(&t, b, &v); }
'''),
 dict(id='U27a', property='U27', edits=[('src/util/range_strings.c', '''    va_end(args);

    if(rval > 0) {
      if(rval < range_size(rng)) { // Success''', '''    va_end(args);

    if(rval > 0) {
      if(rval <= range_size(rng)) { // Success''')], needs='formatted text exactly one character longer than fits', breaks='text is cut without an error and the range is left full',
  demo=PRE + r'''
int main(void) { char b[8]; AppendRange r; range_init((StringRange *)&r, b, sizeof b); return range_cat_fmt(&r, "%s", "12345678") > 0; }
'''),
 dict(id='U29a', property='U29', edits=[('src/util/search.c', '''  // Coerce up if not at end of array
  if(ix < num-1 &&''', '''  // Coerce up if not at end of array
  if(ix + 1 < num-1 &&''')], needs='the nearest entry is the last but one and lies below the key', breaks='an entry below the key is returned although one above exists',
  demo=PRE + r'''
static ptrdiff_t cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
int main(void) { int v[] = {10, 20, 30, 40}, k = 31; return v[search_nearest_above(&k, v, 4, sizeof(int), cmp)] != 40; }
'''),
 dict(id='J11a', property='J11', edits=[('src/shim_jail.c', '''  // Convert path to absolute within the jail subtree
''', '''  // Clean absolute paths can be used as is
  if(path[0] == EVFS_DIR_SEP && !strstr(path, "/../") && !strchr(path, '\\\\')) {
    if(range_cat_str(real_path, shim_data->jail_root) < 0 || range_cat_str(real_path, path) < 0)
      return EVFS_ERR_TOO_LONG;
    return EVFS_OK;
  }

  // Convert path to absolute within the jail subtree
''')], needs='an absolute path that ends in a parent reference', breaks='the directory above the jail root is reachable',
  demo=PRE + r'''
int main(void) { mkdir("jail", 0777); FILE *f = fopen("secret", "w"); fclose(f); evfs_init(); evfs_register_stdio(true); if(evfs_register_jail("j", "stdio", "jail", true)) return 2;
  EvfsDir *d; EvfsInfo i; int bad = 0; if(evfs_open_dir("/..", &d)) return 0; while(evfs_dir_read(d, &i) == EVFS_OK) if(!strcmp(i.name, "secret")) bad = 1; evfs_dir_close(d); return bad; }
'''),
 dict(id='J11b', property='J11', edits=[('src/shim_jail.c', '''  if(range_size(&root_r) > 0) {
    // Shift''', '''  if(range_size(&root_r) == 1) {
    // Shift'''),], needs='a base file system with drive letters, a jail path with a drive', breaks='the path received by the base has a drive or repeated root inside, naming an object outside the jail', skip=True, demo=''),
 dict(id='T13a', property='T13', edits=[('src/shim_trace.c', '''  ptrdiff_t wrote = fil->base_file->methods->m_write(fil->base_file, buf, size);
''', '''  ptrdiff_t wrote = fil->base_file->methods->m_write(fil->base_file, buf, size);
  if(wrote > 0 && (size_t)wrote < size) { // Finish incomplete write
    ptrdiff_t rest = fil->base_file->methods->m_write(fil->base_file, (const char *)buf + wrote, size - wrote);
    wrote = rest < 0 ? rest : wrote + rest;
  }
''')], needs='a file system that accepts only part of a write', breaks='tracing changes how much is written and the result',
  demo=PRE + r'''
typedef struct { EvfsFile b; } F; static int calls;
static int f_close(EvfsFile *f) { return EVFS_OK; }
static ptrdiff_t f_write(EvfsFile *f, const void *b, size_t n) { calls++; return calls > 1 ? EVFS_ERR_FS_FULL : n > 7 ? 7 : (ptrdiff_t)n; }
static const EvfsFileMethods M = { .m_close = f_close, .m_write = f_write };
static int s_open(Evfs *v, const char *p, EvfsFile *f, int fl) { f->methods = &M; return EVFS_OK; }
static int s_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR_NO_FILE; }
static int rep(const char *b, void *c) { return 0; }
int main(void) { static Evfs v; evfs_init(); v.vfs_name = "s"; v.vfs_file_size = sizeof(F); v.m_open = s_open; v.m_stat = s_stat; evfs_register(&v, true); if(evfs_register_trace("t", "s", rep, NULL, true)) return 2;
  EvfsFile *fh; if(evfs_open("a", &fh, EVFS_WRITE)) return 2; ptrdiff_t r = evfs_file_write(fh, "0123456789", 10); return !(r == 7 && calls == 1); }
'''),
 dict(id='R14a', property='R14', edits=[('src/shim_rotate.c', '''      } else {  // Gen 1
        rs->start_chunk = (ChunkId){gen_span[1].start, 1};
        rs->end_chunk   = (ChunkId){gen_span[1].end, 1};''', '''      } else {  // Gen 1
        rs->start_chunk = (ChunkId){gen_span[1].start, 1};
        rs->end_chunk   = (ChunkId){gen_span[1].end, 0};''')], needs='the log is reopened when all its chunks belong to the second generation and then rotates', breaks='data appended after reopening cannot be read back',
  demo=ROT + r'''
int main(void) { EvfsFile *f; reg(32, 3); if(evfs_open("log", &f, APP)) return 2; if(!put(f, 0, 32 * 6)) return 2; evfs_file_close(f);
  if(evfs_open("log", &f, APP) || !put(f, 32 * 6, 40)) return 1; int ok = same(f, 32 * 5, 32 * 2 + 8); evfs_file_close(f); return !ok; }
'''),
 dict(id='R15a', property='R15', edits=[('src/shim_rotate.c', '''        rs->end_chunk.chunk = rs->cfg.max_chunks - 1;
        rs->end_chunk.gen = 1 - rs->end_chunk.gen;
''', '''        rs->end_chunk.chunk = rs->cfg.max_chunks - 1;
''')], needs='truncation of a wrapped log back to before the wrap point', breaks='truncation fails half way and the log is damaged',
  demo=ROT + r'''
int main(void) { EvfsFile *f; reg(32, 3); if(evfs_open("log", &f, APP) || !put(f, 0, 32 * 4)) return 2; if(evfs_file_truncate(f, 40)) return 1; int ok = same(f, 32, 40); evfs_file_close(f); return !ok; }
'''),
 dict(id='R16a', property='R16', edits=[('src/shim_rotate.c', '''  rs->cfg.max_chunks = geom.max_chunks;
''', '''  rs->cfg.max_chunks = MAX(geom.max_chunks, shim_data->cfg.max_chunks);
''')], needs='the shim is reconfigured to more chunks before an older container is opened and filled', breaks='an existing container does not keep its geometry',
  demo=ROT + r'''
int main(void) { EvfsFile *f; reg(32, 2); if(evfs_open("log", &f, APP) || !put(f, 0, 10)) return 2; evfs_file_close(f); RotateConfig c = {.chunk_size = 64, .max_chunks = 5}; if(evfs_vfs_ctrl(EVFS_CMD_SET_ROTATE_CFG, &c)) return 2;
  if(evfs_open("log", &f, APP) || !put(f, 10, 80)) return 2; int ok = same(f, 32, 58); evfs_file_close(f); return !ok; }
'''),
 dict(id='R17a', property='R17', edits=[('src/shim_rotate.c', '''  while(1) {
    status = evict_chunk(base_vfs, &rs->base, cur_chunk, &chunk_size);
    if(status != EVFS_OK)
      break;

    trimmed_size''', '''  ChunkId victim = trim_end; // Newest first
  while(1) {
    status = evict_chunk(base_vfs, &rs->base, victim, &chunk_size);
    if(status != EVFS_OK)
      break;

    if(--victim.chunk < 0) {
      victim.chunk = rs->cfg.max_chunks - 1;
      victim.gen = 1 - victim.gen;
    }

    trimmed_size''')], needs='a failure between the removal of two trimmed chunks', breaks='a gap is left inside the log and its content is wrong after reopening',
  demo=ROT + r'''
static int (*od)(Evfs *, const char *); static int left = 1000;
static int del(Evfs *v, const char *p) { return left-- > 0 ? od(v, p) : EVFS_ERR_IO; }
int main(void) { EvfsFile *f; reg(32, 5); Evfs *s = evfs_find_vfs("stdio"); od = s->m_delete; s->m_delete = del; if(evfs_open("log", &f, APP) || !put(f, 0, 150)) return 2;
  left = 1; evfs_off_t t = 64; evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t); evfs_file_close(f); left = 1000; if(evfs_open("log", &f, APP)) return 1; int ok = same(f, 32, 118) || same(f, 0, 150); evfs_file_close(f); return !ok; }
'''),
 dict(id='R18a', property='R18', edits=[('src/shim_rotate.c', '''    status = base_vfs->m_open(base_vfs, path, fil->base_file, flags);
''', '''    status = base_vfs->m_open(base_vfs, path, fil->base_file, flags & ~EVFS_NO_EXIST); // It exists already
''')], needs='an existing ordinary file is opened with the flag that demands a new file', breaks='an existing file is opened as if it were new',
  demo=ROT + r'''
int main(void) { FILE *p = fopen("plain", "w"); fputs("data", p); fclose(p); EvfsFile *f; reg(32, 5); int s = evfs_open("plain", &f, EVFS_RDWR|EVFS_NO_EXIST); return s == EVFS_OK; }
'''),
]
SEEDS = [s for s in SEEDS if not s.get('skip')]
