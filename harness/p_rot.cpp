// Rotate shim: rotating containers against a byte-string model, crash and fault tolerance, plain files.
#include "fsdiff.h"
extern "C" {
#include "evfs/shim/shim_rotate.h"
}
using namespace pbt;
void pbt::harness_setup() { evfs_init(); }
typedef std::vector<uint8_t> Bytes;

struct Model {
  size_t cs, mc; Bytes d; size_t pos = 0; int rotations = 0;
  size_t cap() const { return cs * mc; }
  void rotate() { d.erase(d.begin(), d.begin() + (long)cs); pos = pos > cs ? pos - cs : 0; rotations++; }
  void write(const uint8_t *p, size_t n, bool append) {
    while(n) {
      size_t at = append ? d.size() : pos;
      if(at == cap()) { rotate(); continue; }
      size_t k = std::min(n, cs - at % cs);
      if(d.size() < at + k) d.resize(at + k);
      memcpy(d.data() + at, p, k); p += k; n -= k; if(!append) pos += k;
    }
  }
  size_t trim(size_t n) {
    size_t k = n / cs; if(!k) return 0;
    if(k * cs >= d.size()) { size_t r = d.size(); d.clear(); pos = 0; return r; }
    d.erase(d.begin(), d.begin() + (long)(k * cs)); pos = pos > k * cs ? pos - k * cs : 0; return k * cs;
  }
  void trunc(size_t n) { if(n < d.size()) { d.resize(n); if(pos > n) pos = n; } }
};

// what the container directory must look like whatever happened before
static void check_dir(MemFs &m, const std::string &path, size_t cs, size_t mc) {
  NodeP n = m.at(path); REQUIRE(n && n->dir, "container directory missing");
  size_t chunks = 0, total = 0;
  for(auto &k : n->kids) { if(k.first == "geom.dat") continue; chunks++; total += k.second->data.size(); REQUIRE(k.second->data.size() <= cs, "chunk %s holds %zu bytes, chunk size %zu", k.first.c_str(), k.second->data.size(), cs); }
  REQUIRE(chunks <= mc, "%zu chunk files, at most %zu allowed", chunks, mc);
  REQUIRE(total <= cs * mc, "%zu bytes stored, capacity %zu", total, cs * mc);
}
static Bytes readall(Case &c, EvfsFile *f, size_t limit) {
  Bytes out; size_t bs = 1 + c.below(97); Exact b(bs);
  for(;;) { ptrdiff_t r = evfs_file_read(f, b.p, bs); REQUIRE(r >= 0, "read = %s", ENAME(r)); if(!r) break; REQUIRE((size_t)r <= bs, "read %td of %zu", r, bs); out.insert(out.end(), b.p, b.p + r); REQUIRE(out.size() <= limit, "more than %zu bytes read from the file", limit); }
  return out;
}
static std::string diffs(const Bytes &a, const Bytes &b) {
  size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return "got " + std::to_string(a.size()) + " bytes, expected " + std::to_string(b.size()) + ", first difference at " + std::to_string(i);
}
static void verify(Case &c, EvfsFile *f, Model &mo, const char *what) {
  evfs_off_t sz = evfs_file_size(f); REQUIRE((size_t)sz == mo.d.size(), "%s: size %ld, expected %zu", what, (long)sz, mo.d.size());
  evfs_off_t pos = evfs_file_tell(f); REQUIRE((size_t)pos == mo.pos, "%s: position %ld, expected %zu", what, (long)pos, mo.pos);
  REQUIRE(evfs_file_eof(f) == (mo.pos >= mo.d.size()), "%s: eof %d at %zu of %zu", what, evfs_file_eof(f), mo.pos, mo.d.size());
  if(c.chance(50)) {
    REQUIRE(evfs_file_seek(f, 0, EVFS_SEEK_TO) == EVFS_OK, "%s: rewind", what);
    Bytes got = readall(c, f, mo.cap() + 1); REQUIRE(got == mo.d, "%s: %s", what, diffs(got, mo.d).c_str());
    REQUIRE(evfs_file_seek(f, (evfs_off_t)mo.pos, EVFS_SEEK_TO) == EVFS_OK, "%s: seek back", what);
  }
}
static void geometry(Case &c, RotateConfig &cfg) {
  cfg.chunk_size = 32 + (uint32_t)(c.chance(60) ? c.below(8) : c.below(100)); cfg.max_chunks = 2 + (uint32_t)(c.chance(80) ? c.below(5) : c.below(20));
}
static Bytes stream(uint64_t &ctr, size_t n) {   // recognizable, non-repeating bytes
  Bytes b(n); for(size_t i = 0; i < n; i++) { uint64_t z = (ctr + i) / 4 * 0x9E3779B97F4A7C15ull; b[i] = (uint8_t)(z >> (40 + 5 * ((ctr + i) % 4))); } ctr += n; return b;
}
static const int APP = EVFS_RDWR | EVFS_APPEND | EVFS_OPEN_OR_NEW;

// ------------------------------------------------------------ R14 appends
static void append_prop(Case &c) {
  Lib lib; MemFs m("mem"); m.reg(true); m.lock_open = c.chance(50); if(c.chance(30)) m.partial = true; if(c.chance(20)) m.dots = true;
  RotateConfig cfg; geometry(c, cfg); bool many = c.below(400) == 0; if(many) { cfg.chunk_size = 32; cfg.max_chunks = 990 + (uint32_t)c.below(60); }
  REQUIRE(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register");
  int nf = many ? 1 : c.chance(25) ? 2 : 1; static const char *NM[] = { "/log", "/d/other.log" }; m.mk("/d", true);
  EvfsFile *f[2] = {nullptr, nullptr}; std::vector<Model> mo; for(int i = 0; i < 2; i++) mo.push_back(Model{cfg.chunk_size, cfg.max_chunks});
  c.note("chunk size %u, %u chunks, %d files, %s%s", cfg.chunk_size, cfg.max_chunks, nf, m.lock_open ? "locking base " : "", m.partial ? "partial transfers" : "");
  uint64_t ctr = 0; size_t n = many ? 2 + c.below(4) : 2 + c.size(30); int writes = 0;
  size_t record = c.chance(50) ? (size_t)cfg.chunk_size / c.pick({1, 2, 4}) : 0;   // fixed record size dividing the chunk
  for(size_t i = 0; i < n; i++) {
    int k = (int)c.below((uint64_t)nf); Model &M = mo[(size_t)k];
    if(!f[k]) { int fl = c.pick({APP, EVFS_WRITE|EVFS_APPEND, EVFS_RDWR|EVFS_APPEND}); if(!m.at(NM[k])) fl = APP; fl |= EVFS_READ; c.note("open %s", NM[k]); int s = evfs_open_ex(NM[k], &f[k], fl, "rot"); REQUIRE(s == EVFS_OK, "open %s = %s", NM[k], ENAME(s)); M.pos = 0; }
    switch(c.weighted({80, 12, 8})) {
    case 0: { size_t w = record ? record : c.weighted({1, 1}) ? c.size(M.cs * 2) : c.size(M.cap() + M.cs); if(c.chance(10)) w = M.cs - M.d.size() % M.cs; if(many && !M.rotations) w = M.cap() - 200 + c.below(600);
      Bytes b = stream(ctr, w); Exact x(b.data(), w); c.note("append %zu to %s (%zu stored)", w, NM[k], M.d.size());
      ptrdiff_t r = evfs_file_write(f[k], x.p, w); REQUIRE(r == (ptrdiff_t)w, "write of %zu = %td", w, r); M.write(b.data(), w, true); if(w) writes++; break; }
    case 1: c.note("close %s", NM[k]); REQUIRE(evfs_file_close(f[k]) == EVFS_OK, "close"); f[k] = nullptr; break;
    default: c.note("sync"); REQUIRE(evfs_file_sync(f[k]) == EVFS_OK, "sync"); REQUIRE(!MemFs::unsynced(m.at(NM[k])), "data neither synced nor closed on the file system below after a sync"); break;
    }
    if(f[k]) verify(c, f[k], M, "after append");
    check_dir(m, NM[k], M.cs, M.mc);
  }
  for(int k = 0; k < 2; k++) if(f[k]) REQUIRE(evfs_file_close(f[k]) == EVFS_OK, "close");
  for(int k = 0; k < nf; k++) if(m.at(NM[k])) {
    REQUIRE(evfs_open_ex(NM[k], &f[k], EVFS_READ, "rot") == EVFS_OK, "reopen"); Bytes g = readall(c, f[k], mo[(size_t)k].cap() + 1);
    REQUIRE(g == mo[(size_t)k].d, "%s after reopening: %s", NM[k], diffs(g, mo[(size_t)k].d).c_str()); evfs_file_close(f[k]);
  }
  c.nontrivial(writes >= 2 && mo[0].rotations >= 1);
  REQUIRE(m.open_files == 0 && m.open_dirs == 0, "handles left open on the base"); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}

// ------------------------------------------------------------ R15 random access
static void random_prop(Case &c) {
  Lib lib; MemFs m("mem"); m.reg(true); m.lock_open = c.chance(50); if(c.chance(30)) m.partial = true;
  RotateConfig cfg; geometry(c, cfg); REQUIRE(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register");
  Model M{cfg.chunk_size, cfg.max_chunks}; uint64_t ctr = 0; EvfsFile *f = nullptr; bool app = c.chance(30); int muts = 0, reads = 0;
  c.note("chunk size %u, %u chunks, %s%s%s", cfg.chunk_size, cfg.max_chunks, app ? "append " : "", m.lock_open ? "locking base " : "", m.partial ? "partial transfers" : "");
  REQUIRE(evfs_open_ex("log", &f, app ? APP : EVFS_RDWR|EVFS_OPEN_OR_NEW, "rot") == EVFS_OK, "open");
  size_t n = 3 + c.size(35);
  for(size_t i = 0; i < n; i++) {
    const char *what = "";
    switch(c.weighted({35, 20, 22, 8, 8, 7, 5})) {
    case 6: c.note("sync"); what = "sync"; REQUIRE(evfs_file_sync(f) == EVFS_OK, "sync"); REQUIRE(!MemFs::unsynced(m.at("/log")), "data neither synced nor closed on the file system below after a sync"); break;
    case 0: { size_t w = c.chance(60) ? c.size(M.cs + 10) : c.size(M.cap() + 10); if(c.chance(15)) w = M.cs - (app ? M.d.size() : M.pos) % M.cs; Bytes b = stream(ctr, w); Exact x(b.data(), w); what = "write";
      c.note("write %zu at %zu of %zu", w, app ? M.d.size() : M.pos, M.d.size()); ptrdiff_t r = evfs_file_write(f, x.p, w); REQUIRE(r == (ptrdiff_t)w, "write of %zu = %td", w, r); M.write(b.data(), w, app); if(w) muts++; break; }
    case 1: { size_t w = c.size(M.cap() + 20); Exact x(w); what = "read"; c.note("read %zu at %zu of %zu", w, M.pos, M.d.size()); ptrdiff_t r = evfs_file_read(f, x.p, w); size_t e = std::min(w, M.d.size() - M.pos);
      REQUIRE(r >= 0 && (size_t)r <= e && (r > 0 || e == 0), "read of %zu at %zu of %zu = %td", w, M.pos, M.d.size(), r); if(!m.partial) REQUIRE((size_t)r == e, "read of %zu at %zu of %zu = %td", w, M.pos, M.d.size(), r);
      REQUIRE(!memcmp(x.p, M.d.data() + M.pos, (size_t)r), "read of %zu at %zu: wrong data", w, M.pos); M.pos += (size_t)r; if(r) reads++; break; }
    case 2: { EvfsSeekDir o = c.pick({EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); long off = (long)(c.chance(40) ? c.below(M.mc + 1) * M.cs : c.below(M.cap() + 40)); if(c.chance(o == EVFS_SEEK_REL ? 50 : 10)) off = -off; what = "seek";
      long t = o == EVFS_SEEK_TO ? off : o == EVFS_SEEK_REL ? (long)M.pos + off : (long)M.d.size() - off; c.note("seek %ld mode %d", off, o); int s = evfs_file_seek(f, (evfs_off_t)off, o);
      if(t < 0) t = 0;
      if(t <= (long)M.d.size()) { REQUIRE(s == EVFS_OK, "seek to %ld of %zu = %s", t, M.d.size(), ENAME(s)); M.pos = (size_t)t; } else REQUIRE(s < 0, "seek to %ld beyond %zu = %s", t, M.d.size(), ENAME(s));
      break; }
    case 3: { size_t t = c.chance(30) ? c.below(M.mc + 1) * M.cs : c.below(M.d.size() + 5); c.note("truncate %zu of %zu", t, M.d.size()); what = "truncate"; int s = evfs_file_truncate(f, (evfs_off_t)t); REQUIRE(s == EVFS_OK, "truncate = %s", ENAME(s)); M.trunc(t); muts++; break; }
    case 4: { evfs_off_t t = (evfs_off_t)(c.chance(30) ? c.below(M.mc + 2) * M.cs : c.below(M.cap() + 20)); c.note("trim %ld of %zu", (long)t, M.d.size()); what = "trim"; int s = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t);
      size_t e = M.trim((size_t)t); REQUIRE(s == (int)e, "trim of %ld = %d (%s), expected %zu bytes", (long)t, s, ENAME(s), e); muts++; break; }
    default: { what = "reopen"; bool na = c.chance(30); c.note("reopen%s", na ? " for append" : ""); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); app = na; REQUIRE(evfs_open_ex("log", &f, app ? APP : EVFS_RDWR, "rot") == EVFS_OK, "reopen"); M.pos = 0; break; }
    }
    verify(c, f, M, what); check_dir(m, "/log", M.cs, M.mc);
  }
  REQUIRE(evfs_file_close(f) == EVFS_OK, "close");
  c.nontrivial(muts >= 3 && reads >= 1 && M.d.size() > M.cs);
  REQUIRE(m.open_files == 0 && m.open_dirs == 0, "handles left open on the base"); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}

// ------------------------------------------------------------ R16 persistence and geometry
static void persist_prop(Case &c) {
  Lib lib; MemFs m("mem"); m.reg(true); m.lock_open = c.chance(50);
  RotateConfig cfg; geometry(c, cfg);
  // settings outside the documented limits are refused
  if(c.chance(40)) { RotateConfig bad = cfg; switch(c.below(3)) { case 0: bad.chunk_size = (uint32_t)c.below(32); break; case 1: bad.max_chunks = (uint32_t)c.below(2); break; default: bad.max_chunks = 100000 + (uint32_t)c.below(1u << 30); break; }
    int s = evfs_register_rotate("rot", "mem", &bad, false); REQUIRE(s < 0 && !evfs_find_vfs("rot") && alloc_live() == 0, "registering with chunk size %u, %u chunks = %s", bad.chunk_size, bad.max_chunks, ENAME(s)); }
  if(c.chance(15)) { if(c.chance(50)) cfg.max_chunks = c.pick({99999u, 2u, 99998u}); else cfg.chunk_size = c.pick({0x7fffffffu, 32u, 0x7ffffff0u}); }   // the limits themselves are allowed
  REQUIRE(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register %u x %u", cfg.chunk_size, cfg.max_chunks);
  RotateConfig cur = cfg; uint64_t ctr = 0; static const char *NM[] = { "a.log", "b.log", "c.log" };
  std::vector<std::unique_ptr<Model>> mo(3); size_t n = 3 + c.size(25); int reconf = 0, used = 0;
  for(size_t i = 0; i < n; i++) {
    size_t k = c.below(3); std::string p = std::string("/") + NM[k];
    switch(c.weighted({20, 60, 10, 10, 12, 4})) {
    case 0: { RotateConfig g; if(c.chance(40)) { g = cur; switch(c.below(3)) { case 0: g.chunk_size = (uint32_t)c.below(32); break; case 1: g.max_chunks = (uint32_t)c.below(2); break; default: g.max_chunks = 100000 + (uint32_t)c.below(1000); }
        int s = evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &g, "rot"); REQUIRE(s < 0, "settings %u x %u accepted", g.chunk_size, g.max_chunks); }
      else { geometry(c, g); if(c.chance(10)) { if(c.chance(50)) g.max_chunks = c.pick({99999u, 2u}); else g.chunk_size = c.pick({0x7fffffffu, 32u}); } c.note("reconfigure %u x %u", g.chunk_size, g.max_chunks); REQUIRE(evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &g, "rot") == EVFS_OK, "reconfigure"); cur = g; reconf++; }
      break; }
    case 1: { EvfsFile *f = nullptr; bool app = c.chance(70); c.note("open %s%s", NM[k], app ? " for append" : ""); int s = evfs_open_ex(p.c_str(), &f, app ? APP : EVFS_RDWR|EVFS_OPEN_OR_NEW, "rot"); REQUIRE(s == EVFS_OK, "open %s = %s", NM[k], ENAME(s));
      if(!mo[k]) mo[k].reset(new Model{cur.chunk_size, cur.max_chunks}); else used++;
      Model &M = *mo[k]; M.pos = 0; verify(c, f, M, "after opening");
      size_t ops = c.below(4);
      for(size_t j = 0; j < ops; j++) { size_t w = c.size(std::min<size_t>(M.cap() + 5, 3000)); Bytes b = stream(ctr, w); c.note("write %zu", w); ptrdiff_t r = evfs_file_write(f, w ? (void *)b.data() : (void *)&r, w); REQUIRE(r == (ptrdiff_t)w, "write of %zu = %td", w, r); M.write(b.data(), w, app);
        if(c.chance(20)) { size_t t = c.below(M.d.size() + 1); c.note("truncate %zu", t); REQUIRE(evfs_file_truncate(f, (evfs_off_t)t) == EVFS_OK, "truncate"); M.trunc(t); }
        verify(c, f, M, "after a write"); }
      REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); check_dir(m, p, M.cs, M.mc); break; }
    case 2: { if(!mo[k]) break; c.note("delete %s", NM[k]); int s = evfs_delete_ex(p.c_str(), "rot"); REQUIRE(s == EVFS_OK, "delete = %s", ENAME(s)); REQUIRE(!m.at(p), "container still there after deleting it"); mo[k].reset(); break; }
    case 4: { // flags: nothing is created for reading, nothing existing is opened as new, nothing changes through a read handle
      EvfsFile *f = nullptr; int fl = c.pick({(int)EVFS_READ, EVFS_WRITE|EVFS_NO_EXIST, EVFS_RDWR|EVFS_NO_EXIST, EVFS_RDWR|EVFS_OVERWRITE, EVFS_RDWR|EVFS_OVERWRITE|EVFS_APPEND, EVFS_RDWR|EVFS_NO_EXIST|EVFS_APPEND}); c.note("open %s flags %#x", NM[k], fl);
      int s = evfs_open_ex(p.c_str(), &f, fl, "rot"); bool had = !!mo[k];
      if(fl == EVFS_READ) {
        if(!had) { REQUIRE(s == EVFS_ERR_NO_FILE && !m.at(p), "opening a missing container for reading = %s%s", ENAME(s), m.at(p) ? ", and it was created" : ""); break; }
        REQUIRE(s == EVFS_OK, "open for reading = %s", ENAME(s)); Model &M = *mo[k]; M.pos = 0; uint8_t b[40] = {0}; evfs_off_t t = (evfs_off_t)std::min<size_t>(M.cs * M.mc, 0x7fffffff);
        REQUIRE(evfs_file_write(f, b, 40) < 0, "wrote through a handle opened for reading"); REQUIRE(!M.d.size() || evfs_file_truncate(f, 0) < 0, "truncated through a handle opened for reading");
        REQUIRE(M.d.size() < M.cs || evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t) < 0, "trimmed through a handle opened for reading"); verify(c, f, M, "read only handle");
      } else if((fl & EVFS_NO_EXIST) && had) { REQUIRE(s == EVFS_ERR_EXISTS, "opening an existing container as new = %s", ENAME(s)); break; }
      else { REQUIRE(s == EVFS_OK, "open = %s", ENAME(s)); if(!had) mo[k].reset(new Model{cur.chunk_size, cur.max_chunks}); mo[k]->trunc(0); mo[k]->pos = 0; verify(c, f, *mo[k], "new or overwritten container"); }
      REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); break; }
    case 5: { // paths near the limit: it works completely or not at all
      std::string lp(1 + 230 + c.below(40), 'x'); lp[0] = '/'; EvfsFile *f = nullptr; std::string before = m.dump(); int s = evfs_open_ex(lp.c_str(), &f, APP, "rot"); c.note("open a path of %zu characters: %s", lp.size(), ENAME(s));
      if(s != EVFS_OK) { REQUIRE(m.dump() == before, "failed to open a path of %zu characters but changed the base", lp.size()); REQUIRE(lp.size() + 14 > EVFS_MAX_PATH, "path of %zu characters refused: %s", lp.size(), ENAME(s)); break; }
      Model M{cur.chunk_size, cur.max_chunks}; Bytes b = stream(ctr, 100); REQUIRE(evfs_file_write(f, b.data(), 100) == 100, "write"); M.write(b.data(), 100, true); verify(c, f, M, "long path"); REQUIRE(evfs_file_close(f) == EVFS_OK, "close"); check_dir(m, lp, M.cs, M.mc);
      REQUIRE(evfs_delete_ex(lp.c_str(), "rot") == EVFS_OK && m.dump() == before, "deleting a container with a path of %zu characters", lp.size()); break; }
    default: { size_t q = c.below(3); if(!mo[k] || mo[q]) break; c.note("rename %s to %s", NM[k], NM[q]); std::string pq = std::string("/") + NM[q]; REQUIRE(evfs_rename_ex(p.c_str(), pq.c_str(), "rot") == EVFS_OK, "rename"); mo[q] = std::move(mo[k]); break; }
    }
    EvfsDir *d = nullptr; if(mo[k] && c.chance(20)) { std::string q = c.pick({p, p + "/", "/" + p, "/." + p, p + "/.", p.substr(1)}); int s = evfs_open_dir_ex(q.c_str(), &d, "rot"); REQUIRE(s < 0, "the container %s was opened as a directory", q.c_str()); }
    if(c.chance(10)) { c.note("shim unregistered and registered again"); evfs_unregister(evfs_find_vfs("rot")); REQUIRE(evfs_register_rotate("rot", "mem", &cur, false) == EVFS_OK, "register again"); }
  }
  c.nontrivial(used >= 2 && reconf >= 1);
  REQUIRE(m.open_files == 0 && m.open_dirs == 0, "handles left open on the base"); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
// containers that are not as the shim left them are refused or read, never crash it
static void malformed_prop(Case &c) {
  Lib lib; MemFs m("mem"); m.reg(true); RotateConfig cfg; geometry(c, cfg); REQUIRE(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register");
  uint32_t g[4] = { 0x53465645u, 0x00000101u, cfg.chunk_size, cfg.max_chunks }; int bad = 0;
  if(c.chance(40)) { g[2] = c.pick({0u, 1u, 31u, 32u, 0xffffffffu, 0x80000000u, 40u}); bad++; } if(c.chance(40)) { g[3] = c.pick({0u, 1u, 2u, 3u, 99999u, 100000u, 0xffffffffu, 0x80000000u}); bad++; }
  if(c.chance(10)) g[0] ^= 1u << c.below(32); if(c.chance(10)) g[1] ^= 1u << c.below(32);
  size_t gl = c.chance(20) ? c.below(17) : 16; m.mk("/log", true); m.put("/log/geom.dat", g, gl);
  size_t n = c.size(8); std::string names;
  for(size_t i = 0; i < n; i++) { char b[40]; std::string nm;
    switch(c.weighted({55, 15, 15, 15})) { case 0: snprintf(b, sizeof b, "c%05u_%c.cnk", (unsigned)c.below(8), (int)('0' + c.below(2))); nm = b; break;
      case 1: snprintf(b, sizeof b, "c%05u_%c.cnk", (unsigned)c.below(100000), (int)c.range(33, 126)); nm = b; if(nm.find('/') != std::string::npos || nm.find('\\') != std::string::npos) nm = "c00001_9.cnk"; break;
      case 2: nm = "c" + c.chars("0123456789_-xX ", 0, 12) + ".cnk"; break; default: nm = c.pick(std::vector<std::string>{"c.cnk", "c99999_0.cnk", "c-0001_1.cnk", "c00000_\xff.cnk", "readme.txt", "cabcde_1.cnk", "c00002_1.cnk", "caaaaaaa.cnk"}); }
    auto d = c.blob(c.chance(50) ? cfg.chunk_size : c.size(cfg.chunk_size + 10)); m.put("/log/" + nm, d); names += nm + "(" + std::to_string(d.size()) + ") "; bad++; }
  c.note("geometry %u x %u (%zu bytes), files %s", g[2], g[3], gl, names.c_str());
  EvfsFile *f = nullptr; int fl = c.chance(50) ? APP : EVFS_RDWR; int s = evfs_open_ex("log", &f, fl, "rot");
  bool okgeo = gl == 16 && g[0] == 0x53465645u && (g[1] & 0xff) == 1 && g[2] >= 32 && g[3] >= 2 && g[3] <= 99999;
  if(!okgeo) REQUIRE(s < 0, "container with geometry %u x %u (%zu bytes, magic %x type %x) opened", g[2], g[3], gl, g[0], g[1]);
  if(s == EVFS_OK) {
    Exact b(200); size_t ops = c.below(8);
    for(size_t i = 0; i < ops; i++) switch(c.below(6)) {
      case 0: { size_t lim = 0; ptrdiff_t r; while((r = evfs_file_read(f, b.p, 1 + c.below(200))) > 0) { lim += (size_t)r; REQUIRE(lim < 1u << 20, "endless file"); } break; }
      case 1: evfs_file_write(f, b.p, c.below(200)); break;
      case 2: evfs_file_seek(f, (evfs_off_t)c.below(1000), c.pick({EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV})); break;
      case 3: evfs_file_truncate(f, (evfs_off_t)c.below(500)); break;
      case 4: { evfs_off_t t = (evfs_off_t)c.below(800); evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t); break; }
      default: evfs_file_size(f); evfs_file_tell(f); evfs_file_eof(f); break;
    }
    REQUIRE(evfs_file_close(f) == EVFS_OK, "close");
  }
  s = evfs_delete_ex("log", "rot"); REQUIRE(s == EVFS_OK && !m.at("/log"), "deleting the container = %s", ENAME(s));
  c.nontrivial(bad >= 2);
  REQUIRE(m.open_files == 0 && m.open_dirs == 0, "handles left open on the base"); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}

// ------------------------------------------------------------ R17 crashes
static bool is_legal(const std::vector<Model> &legal, const Bytes &g) { for(auto &l : legal) if(l.d == g) return true; return false; }
static void crash(Case &c, bool oom) {
  Lib lib; MemFs m("mem"); m.reg(true); if(c.chance(30)) m.partial = true; if(c.chance(30)) m.dots = true;
  RotateConfig cfg; geometry(c, cfg); if(cfg.max_chunks > 6) cfg.max_chunks = 6; REQUIRE(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register");
  Model M{cfg.chunk_size, cfg.max_chunks}; uint64_t ctr = 0; int crashes = 0;
  bool power = !oom && c.chance(60), out = false;   // power failure, or a single failing operation
  size_t rounds = 1 + c.below(3);
  c.note("chunk size %u, %u chunks, %s", cfg.chunk_size, cfg.max_chunks, power ? "power failures" : oom ? "no memory" : "I/O errors");
  for(size_t rd = 0; rd < rounds; rd++) {
    M.pos = 0; std::vector<Model> legal = { M }; bool creating = !m.at("/log"), failed = false;
    m.mut_no = 0; m.op_no = 0; m.crashed = m.failed = out = false; size_t live = alloc_live(); auto faulted = [&] { out |= oom && alloc_failed(); return m.crashed || m.failed || out; };
    if(power) { m.crash_after = (long)c.below(c.chance(50) ? 12 : 40); m.crash_partial = c.chance(50) ? (long)c.below(100) : -1; c.note("power fails after %ld changes, torn write %ld", m.crash_after, m.crash_partial); }
    else if(oom) { long k = 1 + (long)c.below(c.chance(50) ? 6 : 40); if(c.chance(30)) k = -k; alloc_fail_at(k); c.note("allocation %ld fails", k); }
    else { m.fail_ops = {"open", "read", "write", "seek", "truncate", "delete", "mkdir", "opendir", "readdir", "sync", "stat"}; if(c.chance(50)) m.fail_ops.erase("stat"); m.fail_at = 1 + (long)c.below(60); m.fail_err = file_error(c); c.note("operation %ld fails", m.fail_at); }
    EvfsFile *f = nullptr; int s = evfs_open_ex("log", &f, APP, "rot");
    bool hit = faulted();
    if(s != EVFS_OK) { REQUIRE(hit, "open = %s without any fault", ENAME(s)); REQUIRE(!oom || s == EVFS_ERR_ALLOC, "open without memory = %s", ENAME(s)); failed = true; f = nullptr; }
    else if(power && m.crashed && creating) failed = true;
    else if(!power && m.failed) { /* an error that was tolerated must not have changed what is visible */ }
    size_t n = failed ? 0 : 1 + c.size(12);
    for(size_t i = 0; i < n && !failed; i++) {
      int op = (int)c.weighted({70, 8, 8, 14, 10}); Bytes old = M.d; Model before = M;
      if(op == 3) { size_t t = c.below(M.d.size() + 1); c.note("seek %zu", t); int r = evfs_file_seek(f, (evfs_off_t)t, EVFS_SEEK_TO); REQUIRE(r == EVFS_OK, "seek to %zu of %zu = %s", t, M.d.size(), ENAME(r)); M.pos = t; legal = { M }; continue; }
      if(op == 4) { // an error while reading loses nothing: what was not delivered comes next
        size_t w = c.size(M.cap()); c.note("read %zu at %zu", w, M.pos); Exact x(w); ptrdiff_t r = evfs_file_read(f, x.p, w); size_t e = std::min(w, M.d.size() - M.pos);
        if(r < 0) { REQUIRE(faulted(), "read = %s without any fault", ENAME(r)); failed = true; c.note("fault hit"); break; }
        REQUIRE((size_t)r <= e && (r > 0 || !e) && (m.partial || faulted() || (size_t)r == e), "read of %zu at %zu of %zu = %td", w, M.pos, M.d.size(), r); REQUIRE(!memcmp(x.p, M.d.data() + M.pos, (size_t)r), "read of %zu at %zu: wrong data", w, M.pos); M.pos += (size_t)r; legal = { M }; continue; }
      if(op == 0) { size_t w = c.chance(60) ? c.size(M.cs + 5) : c.size(M.cap()); if(c.chance(15)) w = M.cs - M.d.size() % M.cs; Bytes b = stream(ctr, w); c.note("append %zu to %zu", w, M.d.size());
        ptrdiff_t r = evfs_file_write(f, w ? (void *)b.data() : (void *)&r, w); M.write(b.data(), w, true);
        if(m.crashed || r != (ptrdiff_t)w) {
          REQUIRE(faulted(), "write of %zu = %td without any fault", w, r); REQUIRE(!oom || r >= 0 || r == EVFS_ERR_ALLOC, "write without memory = %s", ENAME(r));
          failed = true; legal.clear();
          for(size_t k = 0; k <= w; k++) { Model x = before; x.write(b.data(), k, true); legal.push_back(x); if(x.d.size() == x.cap() && k < w) { x.rotate(); legal.push_back(x); } }
        } else legal = { M };
      } else if(op == 1) { size_t t = c.below(M.d.size() + 1); c.note("truncate %zu", t); int r = evfs_file_truncate(f, (evfs_off_t)t); M.trunc(t);
        if(m.crashed || r != EVFS_OK) { REQUIRE(faulted(), "truncate = %s without any fault", ENAME(r)); REQUIRE(!oom || r == EVFS_ERR_ALLOC, "truncate without memory = %s", ENAME(r)); failed = true; legal.clear(); for(size_t k = t; k <= old.size(); k++) { Model x = before; x.trunc(k); legal.push_back(x); } } else legal = { M };
      } else { evfs_off_t t = (evfs_off_t)c.below(M.cap()); c.note("trim %ld", (long)t); int r = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t); size_t e = M.trim((size_t)t);
        if(m.crashed || r != (int)e) { REQUIRE(faulted(), "trim = %d without any fault", r); REQUIRE(!oom || r >= 0 || r == EVFS_ERR_ALLOC, "trim without memory = %s", ENAME(r)); failed = true; legal.clear(); for(size_t k = 0; k <= (size_t)t; k += M.cs) { Model x = before; x.trim(k); legal.push_back(x); if(k >= old.size()) break; } } else legal = { M };
      }
      if(failed) c.note("fault hit");
    }
    if(failed) crashes++; alloc_fail_at(0);
    if(f && faulted() && !power && c.chance(60)) {
      // the open handle still describes the container and goes on working
      m.fail_at = -1; m.failed = false; m.fail_ops.clear(); out = false; c.note("going on with the same handle");
      size_t sz = (size_t)evfs_file_size(f), at = (size_t)evfs_file_tell(f); const Model *now = nullptr; REQUIRE(evfs_file_seek(f, 0, EVFS_SEEK_TO) == EVFS_OK, "rewinding after an error"); Bytes g = readall(c, f, M.cap() + 1);
      for(auto &l : legal) if(l.d == g && l.pos == at) { now = &l; break; }
      REQUIRE(g.size() == sz, "size %zu after an error, %zu bytes can be read", sz, g.size());
      REQUIRE(is_legal(legal, g), "content after an error is none of the %zu legal outcomes: %zu bytes; against the last: %s", legal.size(), g.size(), diffs(g, legal.back().d).c_str());
      REQUIRE(now, "position %zu after an error, %zu expected", at, [&] { for(auto &l : legal) if(l.d == g) return l.pos; return (size_t)0; }());
      M = Model(*now); REQUIRE(evfs_file_seek(f, (evfs_off_t)M.pos, EVFS_SEEK_TO) == EVFS_OK, "seeking back after an error");
      for(size_t k = c.below(4); k; k--) {
        switch(c.below(4)) {
        case 0: case 1: { size_t w = c.size(M.cap()); Bytes b = stream(ctr, w); c.note("append %zu", w); ptrdiff_t r = evfs_file_write(f, w ? (void *)b.data() : (void *)&r, w); REQUIRE(r == (ptrdiff_t)w, "write of %zu = %td after an error", w, r); M.write(b.data(), w, true); break; }
        case 2: { size_t t = c.below(M.d.size() + 1); c.note("truncate %zu", t); int r = evfs_file_truncate(f, (evfs_off_t)t); REQUIRE(r == EVFS_OK, "truncate = %s after an error", ENAME(r)); M.trunc(t); break; }
        default: { evfs_off_t t = (evfs_off_t)c.below(M.cap()); c.note("trim %ld", (long)t); int r = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t); size_t e = M.trim((size_t)t); REQUIRE(r == (int)e, "trim of %ld = %d after an error, expected %zu bytes", (long)t, r, e); break; }
        }
        verify(c, f, M, "same handle after an error");
      }
      legal = { M };
    }
    // reboot
    if(f) evfs_file_close(f);
    if(oom) REQUIRE(alloc_live() == live, "%zu blocks leaked", alloc_live() - live);
    REQUIRE(m.open_files == 0 && m.open_dirs == 0, "handles left open on the base");
    m.crash_after = -1; m.crashed = false; m.fail_at = -1; m.failed = false; m.fail_ops.clear();
    f = nullptr; s = evfs_open_ex("log", &f, EVFS_RDWR | EVFS_APPEND, "rot");
    if(s != EVFS_OK) {
      REQUIRE(creating && failed, "container cannot be opened after the fault: %s", ENAME(s)); REQUIRE(power || !m.at("/log"), "a failed creation left a container that cannot be opened behind: %s", ENAME(s));
      c.note("interrupted creation: %s", ENAME(s));
      s = evfs_delete_ex("log", "rot"); REQUIRE(s == EVFS_OK, "the remains of the container cannot be deleted: %s", ENAME(s));
      s = evfs_open_ex("log", &f, APP, "rot"); REQUIRE(s == EVFS_OK, "creating again = %s", ENAME(s)); Model x = M; x.d.clear(); x.pos = 0; legal = { x };
    }
    Bytes g = readall(c, f, M.cap() + 1);
    REQUIRE(is_legal(legal, g), "content after the fault is none of the %zu legal outcomes: %zu bytes, first legal %zu, last legal %zu; against the last: %s", legal.size(), g.size(), legal[0].d.size(), legal.back().d.size(), diffs(g, legal.back().d).c_str());
    M.d = g; M.pos = g.size(); verify(c, f, M, "after recovery"); check_dir(m, "/log", M.cs, M.mc);
    if(c.chance(70)) { size_t w = c.size(M.cap()); Bytes b = stream(ctr, w); c.note("append %zu after recovery", w); ptrdiff_t r = evfs_file_write(f, w ? (void *)b.data() : (void *)&r, w); REQUIRE(r == (ptrdiff_t)w, "append after recovery = %td", r); M.write(b.data(), w, true); verify(c, f, M, "append after recovery"); check_dir(m, "/log", M.cs, M.mc); }
    REQUIRE(evfs_file_close(f) == EVFS_OK, "close");
  }
  c.nontrivial(crashes >= 1 && (M.rotations >= 1 || M.d.size() > M.cs));
  REQUIRE(m.open_files == 0 && m.open_dirs == 0, "handles left open on the base"); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}

static void crash_prop(Case &c) { crash(c, false); }
static void oom_prop(Case &c) { crash(c, true); }

// ------------------------------------------------------------ R18 everything that is not a container
static void plain_prop(Case &c) {
  Lib lib; MemFs m1("mem"), m2("ref"); m1.reg(true); m2.reg(false); if(c.chance(30)) m1.dots = m2.dots = true;
  RotateConfig cfg; geometry(c, cfg); REQUIRE(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register");
  // plain files and directories exist already; a container sits beside them
  for(MemFs *m : {&m1, &m2}) { int t = 0; for(auto &x : FsDiff::names()) { t++; if(t % 2) { m->put("/" + x, "initial content, initial content, initial content", (size_t)(3 * t)); m->at("/" + x)->mtime = 1000 + t; } else { m->mk("/" + x, true); for(auto &y : FsDiff::names()) m->put("/" + x + "/" + y, "below--", (size_t)(t % 6)); } } }
  EvfsFile *lf = nullptr; REQUIRE(evfs_open_ex("/the.log", &lf, APP, "rot") == EVFS_OK, "open container"); uint64_t ctr = 0; Model M{cfg.chunk_size, cfg.max_chunks};
  m2.mk("/the.log", true); // seen as a directory in listings
  auto sync_ref = [&]() { m2.at("/the.log")->kids.clear(); for(auto &k : m1.at("/the.log")->kids) m2.at("/the.log")->kids[k.first] = MemFs::clone(k.second); };
  FsDiff d(c, "rot", "ref");
  // opening a missing path makes a container: only open what exists
d.open_ok = [&](const std::string &p) { return m2.at(m2.resolve(p.c_str())) != nullptr; };
  size_t n = 5 + c.size(40);
  for(size_t i = 0; i < n; i++) {
    if(c.chance(15)) { size_t w = c.size(M.cs * 2); Bytes b = stream(ctr, w); REQUIRE(evfs_file_write(lf, w ? (void *)b.data() : (void *)&w, w) == (ptrdiff_t)w, "container write"); M.write(b.data(), w, true); verify(c, lf, M, "container beside plain files"); }
    sync_ref(); d.step();
    std::string x = m1.dump(), y; sync_ref(); y = m2.dump(); REQUIRE(x == y, "base tree\n%s\nreference\n%s", x.c_str(), y.c_str());
  }
  d.finish(); REQUIRE(evfs_file_close(lf) == EVFS_OK, "close container");
  c.nontrivial(d.ok_mut >= 2 && d.ok_reads >= 1);
  REQUIRE(m1.open_files == 0 && m1.open_dirs == 0, "handles left open on the base"); evfs_unregister_all(); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}

const pbt::Prop pbt::props[] = {
  {"R14", append_prop, 90000, 1000000, 5, 20, ""},
  {"R15", random_prop, 150000, 1000000, 5, 20, ""},
  {"R16.persist", persist_prop, 80000, 600000, 5, 20, ""},
  {"R16.malformed", malformed_prop, 400000, 1000000, 5, 20, ""},
  {"R17", crash_prop, 150000, 1000000, 5, 20, ""},
  {"E33.rotate", oom_prop, 80000, 1000000, 5, 20, ""},
  {"E33.rotate.bare", oom_prop, 60000, 1000000, 5, 20, ""},
  {"R18", plain_prop, 60000, 1000000, 5, 20, ""},
  {nullptr, nullptr, 0, 0, 0, 0, nullptr}
};
