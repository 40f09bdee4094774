// In-memory VFS used as an instrumented base filesystem: it records every call,
// injects faults and partial transfers, freezes at a crash point, and is itself
// the reference model for file contents.
#ifndef MEMFS_H
#define MEMFS_H
#include "pbt.h"
#include "evfs.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <set>
#include <functional>
#include <cstring>

struct MemNode {
  bool dir = false;
  std::map<std::string, std::shared_ptr<MemNode>> kids;
  std::vector<uint8_t> data;
  time_t mtime = 0;
  int opens = 0;
  bool dirty = false;               // written to and neither synced nor closed since
};
using NodeP = std::shared_ptr<MemNode>;

struct MemCall { std::string op, path, path2; int flags = 0; long arg = 0; int result = 0; };

enum class RootStyle { Posix, Dos };

struct MemFs {
  Evfs vfs;                         // first: cast target
  std::string name;
  NodeP root;
  std::vector<std::string> cwd;     // components
  RootStyle style = RootStyle::Posix;
  bool log_calls = false;
  std::vector<MemCall> calls;
  bool dots = false;                // list "." and ".."
  bool readonly = false;
  bool lock_open = false;           // refuse to delete or rename open files
  bool write_creates = false;       // plain EVFS_WRITE behaves like stdio's "w"
  bool append_creates = false;      // EVFS_APPEND creates missing files
  int open_files = 0, open_dirs = 0;
  int unregistered = 0;
  bool cur_dir_supported = true;
  int missing_parent_err = EVFS_ERR_NO_PATH;

  // fault plan
  long op_no = 0;                   // fallible operations seen
  long mut_no = 0;                  // mutating operations seen
  long crash_after = -1;            // after this many mutations nothing changes any more
  bool crashed = false;
  long fail_at = -1; int fail_err = EVFS_ERR_IO; bool failed = false; std::string failed_op; bool fail_sticky = false;
  std::set<std::string> fail_ops;   // empty: any operation
  long change_at = -1; std::string change_path; std::vector<uint8_t> change_to;  // a file whose content changes by itself before an operation
  bool partial = false;             // short reads and writes
  bool partial_writes = true;       // with partial: writes as well
  uint64_t partial_rng = 1;
  long crash_partial = -1;          // bytes of the crashing write that still land
  long capacity = -1;               // total bytes of file data allowed; -1 unlimited
  size_t max_read_seen = 0;

  explicit MemFs(const char *n = "mem");
  ~MemFs();
  void reg(bool deflt);

  // model-side helpers (no logging, no faults)
  static std::vector<std::string> split(const std::string &p);
  std::vector<std::string> resolve(const char *p);           // absolute components, "." and ".." applied
  NodeP at(const std::vector<std::string> &c);
  NodeP at(const std::string &p) { return at(split(p)); }
  NodeP mk(const std::string &p, bool dir);                   // make with parents
  void put(const std::string &p, const void *d, size_t n) { NodeP x = mk(p, false); x->data.assign((const uint8_t *)d, (const uint8_t *)d + n); }
  void put(const std::string &p, const std::vector<uint8_t> &d) { put(p, d.data(), d.size()); }
  static NodeP clone(const NodeP &n);
  std::string dump() { std::string o; dump(root, "", o); return o; }  // canonical listing with contents
  static void dump(const NodeP &n, const std::string &p, std::string &o);
  long used() { return used(root); }
  static long used(const NodeP &n);

  static bool unsynced(const NodeP &n) { if(n->dirty) return true; for(auto &k : n->kids) if(unsynced(k.second)) return true; return false; }
  // fault bookkeeping: returns 0 or an error to report
  int step(const char *op);
  bool mutate();                    // false when the crash point has passed
  size_t shorten(size_t n);
};

// Hooks around every operation (concurrency): enter(1) schedules, enter(2) and
// leave() bracket the part the race detector ignores.
struct MemHooks { void (*enter)(int); void (*leave)(); };
extern MemHooks mem_hooks;
struct MemFile { EvfsFile base; unsigned long used; MemFs *fs; NodeP *node; long pos; int flags; bool eof; };
struct MemDir { EvfsDir base; MemFs *fs; std::vector<std::pair<std::string, NodeP>> *list; size_t pos; NodeP *node; char name[300]; };
#endif
