/* Stand-in for littlefs (the submodule is not part of this checkout): the subset
   of its interface which the driver uses, with its documented behaviour.  The
   implementation (lfs_mock.h) keeps the volume in the block device it is given. */
#ifndef LFS_H
#define LFS_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#define LFS_VERSION 0x00020004
typedef uint32_t lfs_size_t; typedef uint32_t lfs_off_t; typedef int32_t lfs_ssize_t; typedef int32_t lfs_soff_t; typedef uint32_t lfs_block_t;
#define LFS_NAME_MAX 255
#define LFS_FILE_MAX 2147483647
#define LFS_ATTR_MAX 1022
enum lfs_error { LFS_ERR_OK = 0, LFS_ERR_IO = -5, LFS_ERR_CORRUPT = -84, LFS_ERR_NOENT = -2, LFS_ERR_EXIST = -17, LFS_ERR_NOTDIR = -20, LFS_ERR_ISDIR = -21, LFS_ERR_NOTEMPTY = -39, LFS_ERR_BADF = -9, LFS_ERR_FBIG = -27, LFS_ERR_INVAL = -22, LFS_ERR_NOSPC = -28, LFS_ERR_NOMEM = -12, LFS_ERR_NOATTR = -61, LFS_ERR_NAMETOOLONG = -36 };
enum lfs_type { LFS_TYPE_REG = 0x001, LFS_TYPE_DIR = 0x002 };
enum lfs_open_flags { LFS_O_RDONLY = 1, LFS_O_WRONLY = 2, LFS_O_RDWR = 3, LFS_O_CREAT = 0x0100, LFS_O_EXCL = 0x0200, LFS_O_TRUNC = 0x0400, LFS_O_APPEND = 0x0800 };
enum lfs_whence_flags { LFS_SEEK_SET = 0, LFS_SEEK_CUR = 1, LFS_SEEK_END = 2 };
struct lfs_config {
  void *context;
  int (*read)(const struct lfs_config *c, lfs_block_t block, lfs_off_t off, void *buffer, lfs_size_t size);
  int (*prog)(const struct lfs_config *c, lfs_block_t block, lfs_off_t off, const void *buffer, lfs_size_t size);
  int (*erase)(const struct lfs_config *c, lfs_block_t block);
  int (*sync)(const struct lfs_config *c);
  lfs_size_t read_size, prog_size, block_size, block_count;
  int32_t block_cycles;
  lfs_size_t cache_size, lookahead_size;
  void *read_buffer, *prog_buffer, *lookahead_buffer;
  lfs_size_t name_max, file_max, attr_max;
};
struct lfs_info { uint8_t type; lfs_size_t size; char name[LFS_NAME_MAX + 1]; };
struct lfs_file_config { void *buffer; void *attrs; lfs_size_t attr_count; };
typedef struct lfs_dir { void *impl; uint8_t type; lfs_off_t pos; } lfs_dir_t;
typedef struct lfs_file { void *impl; uint32_t flags; lfs_off_t pos; } lfs_file_t;
typedef struct lfs { void *impl; const struct lfs_config *cfg; } lfs_t;
int lfs_format(lfs_t *lfs, const struct lfs_config *config);
int lfs_mount(lfs_t *lfs, const struct lfs_config *config);
int lfs_unmount(lfs_t *lfs);
int lfs_remove(lfs_t *lfs, const char *path);
int lfs_rename(lfs_t *lfs, const char *oldpath, const char *newpath);
int lfs_stat(lfs_t *lfs, const char *path, struct lfs_info *info);
int lfs_file_open(lfs_t *lfs, lfs_file_t *file, const char *path, int flags);
int lfs_file_opencfg(lfs_t *lfs, lfs_file_t *file, const char *path, int flags, const struct lfs_file_config *config);
int lfs_file_close(lfs_t *lfs, lfs_file_t *file);
int lfs_file_sync(lfs_t *lfs, lfs_file_t *file);
lfs_ssize_t lfs_file_read(lfs_t *lfs, lfs_file_t *file, void *buffer, lfs_size_t size);
lfs_ssize_t lfs_file_write(lfs_t *lfs, lfs_file_t *file, const void *buffer, lfs_size_t size);
lfs_soff_t lfs_file_seek(lfs_t *lfs, lfs_file_t *file, lfs_soff_t off, int whence);
int lfs_file_truncate(lfs_t *lfs, lfs_file_t *file, lfs_off_t size);
lfs_soff_t lfs_file_tell(lfs_t *lfs, lfs_file_t *file);
int lfs_file_rewind(lfs_t *lfs, lfs_file_t *file);
lfs_soff_t lfs_file_size(lfs_t *lfs, lfs_file_t *file);
int lfs_mkdir(lfs_t *lfs, const char *path);
int lfs_dir_open(lfs_t *lfs, lfs_dir_t *dir, const char *path);
int lfs_dir_close(lfs_t *lfs, lfs_dir_t *dir);
int lfs_dir_read(lfs_t *lfs, lfs_dir_t *dir, struct lfs_info *info);
int lfs_dir_seek(lfs_t *lfs, lfs_dir_t *dir, lfs_off_t off);
lfs_soff_t lfs_dir_tell(lfs_t *lfs, lfs_dir_t *dir);
int lfs_dir_rewind(lfs_t *lfs, lfs_dir_t *dir);
lfs_ssize_t lfs_fs_size(lfs_t *lfs);
#ifdef __cplusplus
}
#endif
#endif
