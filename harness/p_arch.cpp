// Read-only archive file systems: tar and romfs, from files and from memory.
#include "arch.h"
void pbt::harness_setup() { evfs_init(); }

struct Mount {
  MemFs host{"host"}; std::unique_ptr<Exact> mem; EvfsFile *img = nullptr; int status = 0, hits = 0; size_t limit = 0;
  ~Mount() { evfs_unregister_all(); }
  void open(Case &c, Arch &a, bool oom = false) {
    Oom o; o.on = oom; o.permille = 700; auto T = [&](std::function<int()> f) { return (int)o.call(c, "registering", [&] { int r = f(); REQUIRE((r == EVFS_OK) == (evfs_find_vfs("arch") != nullptr), "registering = %s", ENAME(r)); return r; }); };
    host.reg(false); host.style = RootStyle::Posix;
    if(a.rsrc) { mem.reset(new Exact(a.img.data(), a.img.size())); status = T([&] { return a.tar ? evfs_register_tar_rsrc_fs("arch", (uint8_t *)mem->p, mem->n, true) : evfs_register_rsrc_romfs("arch", (uint8_t *)mem->p, mem->n, true); }); }
    else { host.put("/image", a.img); REQUIRE(evfs_open_ex("/image", &img, EVFS_READ, "host") == EVFS_OK, "open"); status = T([&] { return a.tar ? evfs_register_tar_fs("arch", img, true) : evfs_register_romfs("arch", img, true); }); hits += o.errors; if(status != EVFS_OK) evfs_file_close(img); }
  }
  void check(Arch &a) { if(a.rsrc) REQUIRE(!memcmp(mem->p, a.img.data(), a.img.size()), "the resource was modified"); else { NodeP n = host.at("/image"); REQUIRE(n && n->data == a.img, "the image was modified"); REQUIRE(host.open_files == 0, "the image is still open"); } }
};
static std::string spoil(Case &c, std::string p) {   // the same path written differently
  std::string o; for(size_t i = 0; i < p.size(); i++) { o += p[i]; if(p[i] == '/' && c.chance(12)) o += c.pick({std::string("./"), std::string("/"), std::string("a/../"), std::string("zz/../")}); }
  if(c.chance(8)) o += "/"; return o;
}
static void fidelity(Case &c, bool tar, bool oom = false) {
  Lib lib; MemFs m("mem"); m.reg(false); Arch a; a.rsrc = c.chance(50); m.root->dir = true;
  if(tar) gen_tar(c, a, m); else gen_rom(c, a, m);
  Mount mt; mt.host.partial = !a.rsrc && c.chance(25); mt.host.partial_rng = c.byte() + 1; mt.open(c, a, oom); REQUIRE(mt.status == EVFS_OK, "registering a valid %s%s = %s", tar ? "tar" : "romfs", a.rsrc ? " resource" : "", ENAME(mt.status));
  bool nodots = !tar && c.chance(50); if(nodots) { unsigned v = 1; REQUIRE(evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &v, "arch") == EVFS_OK, "vfs_ctrl"); }
  m.readonly = true; FsDiff d(c, "arch", "mem"); d.oom.on = oom; d.exact = false; d.mtime = false; d.fctrl = false; d.dir_atomic = true; d.no_dots = nodots; d.dirs = !tar; d.min_io = 1; d.max_io = c.chance(20) ? 2500 : 300;
  d.path = [&]() { std::string cur; { for(auto &s : m.cwd) cur += "/" + s; } std::string p = c.chance(75) ? c.pick(a.paths) : c.pick(a.paths) + "/" + any_name(c, 12);
    if(p.compare(0, 2, "//") == 0) p.erase(0, 1); if(c.chance(30) && p.size() > cur.size() && p.compare(0, cur.size() + 1, cur + "/") == 0) p = p.substr(cur.size() + 1); else if(c.chance(10) && cur.size() < 100) p = any_name(c, 12);
    if(c.chance(30)) p = spoil(c, p); if(p.size() + (p[0] == '/' ? 0 : cur.size() + 1) > 250) p = "/"; return p; };
  d.flags = [&]() { return c.chance(80) ? (int)EVFS_READ : (int)(EVFS_READ | c.below(64)); };
  d.open_ok = [&](const std::string &p) { NodeP n = m.at(m.resolve(p.c_str())); return !n || !a.special.count(n.get()); };
  d.odd_seek = d.clip_seek = true; d.seek_ok = [](FsDiff::Slot &s, long off, EvfsSeekDir o) { long t = o == EVFS_SEEK_TO ? off : o == EVFS_SEEK_REL ? evfs_file_tell(s.b) + off : evfs_file_size(s.b) - off; return t >= 0 && t <= evfs_file_size(s.b); };
  if(a.parents && !mt.host.partial) { size_t n = 5 + c.size(40); for(size_t i = 0; i < n; i++) d.step(); d.finish(); }
  // every file, completely, in pieces of any size
  for(auto &f : a.files) {
    if(!m.at(f.first)) continue;
    EvfsFile *fh = nullptr; int s = evfs_open_ex(f.first.c_str(), &fh, EVFS_READ, "arch"); REQUIRE(s == EVFS_OK, "open %s = %s", quote(f.first).c_str(), ENAME(s));
    REQUIRE(evfs_file_size(fh) == (evfs_off_t)f.second.size(), "size of %s: %ld, not %zu", quote(f.first).c_str(), (long)evfs_file_size(fh), f.second.size());
    Bytes got; size_t step = 1 + c.size(700), guard = 0; for(;;) { REQUIRE(guard++ < 20000, "reading does not end"); Exact b(step); ptrdiff_t k = evfs_file_read(fh, b.p, step); REQUIRE(k >= 0 && k <= (ptrdiff_t)step, "read %zu from %s = %td", step, quote(f.first).c_str(), k); if(k == 0) break; got.insert(got.end(), b.p, b.p + k); REQUIRE(evfs_file_tell(fh) == (evfs_off_t)got.size(), "position %ld after %zu bytes", (long)evfs_file_tell(fh), got.size()); }
    REQUIRE(got == f.second, "%s: %zu bytes read differ from the %zu archived", quote(f.first).c_str(), got.size(), f.second.size()); REQUIRE(evfs_file_eof(fh), "no end of file");
    uint8_t *ad = nullptr; s = evfs_file_ctrl(fh, EVFS_CMD_GET_RSRC_ADDR, &ad); REQUIRE((s == EVFS_OK) == a.rsrc, "resource address = %s", ENAME(s));
    if(s == EVFS_OK) { REQUIRE(f.second.empty() || ((char *)ad >= mt.mem->p && (char *)ad + f.second.size() <= mt.mem->p + mt.mem->n), "resource address outside of the resource"); REQUIRE(f.second.empty() || !memcmp(ad, f.second.data(), f.second.size()), "resource address of %s does not hold its content", quote(f.first).c_str()); }
    evfs_file_close(fh);
  }
  c.nontrivial(a.files.size() >= 2 && a.paths.size() >= 3 && (!oom || mt.hits + d.oom.errors));
  evfs_unregister_all(); mt.check(a); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
static void tar_fid(Case &c) { fidelity(c, true); }
static void rom_fid(Case &c) { fidelity(c, false); }
static void tar_oom(Case &c) { fidelity(c, true, true); }
static void rom_oom(Case &c) { fidelity(c, false, true); }

// ---------------------------------------------------------------- iterators over the entries of a tar archive
static void tar_iter(Case &c) {
  Lib lib; MemFs m("mem"), host("host"); m.root->dir = true; host.reg(false); Arch a; gen_tar(c, a, m); a.rsrc = c.chance(50);
  if(a.img.empty()) return;
  std::unique_ptr<Exact> mem; TarFileIterator fi; TarRsrcIterator ri; EvfsFile *fh = nullptr; host.put("/image", a.img); host.partial = c.chance(30); host.partial_rng = c.byte() + 1;
  if(a.rsrc) { mem.reset(new Exact(a.img.data(), a.img.size())); tar_rsrc_iter_init(&ri, (uint8_t *)mem->p, mem->n); }
  else { REQUIRE(evfs_open_ex("/image", &fh, EVFS_READ, "host") == EVFS_OK, "open"); tar_iter_init(&fi, fh); if(c.chance(25)) { host.fail_ops = {"read", "seek"}; host.op_no = 0; host.fail_at = 1 + (long)c.below(30); host.fail_err = any_error(c); host.failed = false; } }
  auto go = [&](int op, size_t off, bool ok, size_t at) {   // 0: seek, 1: next, 2: reset
    bool was = host.failed, r = a.rsrc ? op == 0 ? tar_rsrc_iter_seek(&ri, (evfs_off_t)off) : op == 1 ? tar_rsrc_iter_next(&ri) : tar_rsrc_iter_reset(&ri) : op == 0 ? tar_iter_seek(&fi, (evfs_off_t)off) : op == 1 ? tar_iter_next(&fi) : tar_iter_reset(&fi);
    c.note("%s %zu: %d", op == 0 ? "seek" : op == 1 ? "next after" : "reset", op == 0 ? off : at, r);
    if(host.failed && !was) { REQUIRE(!r && fi.status == host.fail_err, "a failed access to the archive gives %d with status %s", r, ENAME(fi.status)); return false; }
    if(!a.rsrc) REQUIRE(fi.status == EVFS_OK, "status %s without an error", ENAME(fi.status));
    REQUIRE(r == ok, "entry %zu of %zu: %d", at, a.recs.size(), r); if(!ok) return true;
    auto &e = a.recs[at]; const TarHeader *h = a.rsrc ? ri.cur_header : &fi.cur_header; size_t ho = a.rsrc ? ri.header_offset : (size_t)fi.header_offset, fs = a.rsrc ? ri.file_size : (size_t)fi.file_size, fo = a.rsrc ? tar_rsrc_iter_file_offset(&ri) : (size_t)tar_iter_file_offset(&fi), size = e.e.type == '5' || e.e.type == '2' ? 0 : e.e.data.size();
    REQUIRE(ho == e.off && fs == size && fo == e.off + 512, "entry %zu at %zu with %zu bytes at %zu, expected %zu, %zu, %zu", at, ho, fs, fo, e.off, size, e.off + 512); REQUIRE(!memcmp(h, &a.img[e.off], TAR_HEADER_SIZE), "the header of entry %zu differs", at);
    std::string want = e.e.path; if(want.compare(0, 2, "./") == 0) want.erase(0, 2); else if(want == ".") want = ""; char b[TAR_MAX_PATH_LEN]; size_t n = tar_header_path(h, b); REQUIRE(n == want.size() && want == b, "path of entry %zu is %s, expected %s", at, quote(b).c_str(), quote(want).c_str());
    return true; };
  size_t n = a.recs.size(), steps = 0, rounds = 1 + c.below(3); bool alive = true;
  for(size_t r = 0; alive && r < rounds; r++) {
    size_t at = r ? c.below(n + 1) : 0; size_t off = at < n ? a.recs[at].off : n ? a.recs[n-1].off + 512 + (a.recs[n-1].e.type == '5' || a.recs[n-1].e.type == '2' ? 0 : (a.recs[n-1].e.data.size() + 511) / 512 * 512) : 0;
    alive = go(0, off, at < n, at);
    while(alive && at < n) {
      steps++; if(c.chance(10)) { if(fh && c.chance(50)) { char t[100]; bool f = host.failed; evfs_file_read(fh, t, c.below(100)); if(host.failed && !f) { alive = false; break; } } if(!(alive = go(2, 0, true, at))) break; }
      if(c.chance(4)) break; at++; alive = go(1, 0, at < n, at); } }
  if(fh) { host.fail_at = -1; tar_iter_close(&fi); } REQUIRE(host.open_files == 0 && host.at("/image")->data == a.img, "the archive is open or modified"); REQUIRE(alloc_live() == 0, "leak");
  c.nontrivial(n >= 2 && steps >= 2);
}

// ---------------------------------------------------------------- damaged images
static void fix_sums(Case &c, Bytes &b, bool tar) {   // keep the damage behind correct checksums
  if(tar) { for(size_t p = 0; p + 512 <= b.size(); p += 512) if(!memcmp(&b[p + 257], "ustar", 5) && c.chance(85)) tar_sum(&b[p], 1); }
  else { if(c.chance(30)) return;
    for(size_t p = 16; p + 32 <= b.size(); p += 16) { size_t l = 16 + a16(strnlen((char *)&b[p + 16], std::min<size_t>(31, b.size() - p - 16)) + 1); if(p + l > b.size()) continue; if(c.chance(50)) continue; be32(b, p + 12, 0); be32(b, p + 12, -sum32(b, p, l)); }
    size_t n = b.size() < 512 ? b.size() & ~3u : 512; be32(b, 12, 0); be32(b, 12, -sum32(b, 0, n)); }
}
static void use(Case &c, Arch &a, Mount &mt) {
  // everything must return, inside its bounds
  size_t n = 4 + c.size(25); EvfsFile *fh = nullptr; std::vector<std::string> ps = a.paths; ps.push_back("/");
  size_t entries = 0;
  for(size_t i = 0; i < n; i++) {
    std::string p = c.pick(ps); if(c.chance(15)) p = spoil(c, p); if(p.size() > 250) continue; EvfsInfo in;
    switch(c.below(5)) {
    case 0: c.note("stat %s", quote(p).c_str()); evfs_stat_ex(p.c_str(), &in, "arch"); break;
    case 1: { EvfsDir *dh = nullptr; if(a.tar) break; c.note("list %s", quote(p).c_str()); if(evfs_open_dir_ex(p.c_str(), &dh, "arch") != EVFS_OK) break; size_t k = 0; while(evfs_dir_read(dh, &in) == EVFS_OK) { REQUIRE(++k <= a.img.size(), "listing %s does not end", quote(p).c_str()); REQUIRE(in.name && strlen(in.name) < 256, "entry name"); if(entries++ < 40) ps.push_back(p + "/" + in.name); } evfs_dir_close(dh); break; }
    case 2: { c.note("chdir %s", quote(p).c_str()); evfs_set_cur_dir_ex(p.c_str(), "arch"); char b[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(b); evfs_get_cur_dir_ex(&r, "arch"); break; }
    default: { c.note("read %s", quote(p).c_str()); if(evfs_open_ex(p.c_str(), &fh, EVFS_READ, "arch") != EVFS_OK) break; long sz = evfs_file_size(fh); REQUIRE(sz >= 0, "size %ld", sz);
      if(c.chance(40)) { EvfsSeekDir o = c.pick({EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); evfs_file_seek(fh, (evfs_off_t)(c.chance(50) ? c.size(2000) : c.below(1ull << 31)), o); long t = evfs_file_tell(fh); REQUIRE(t >= 0 && t <= sz, "position %ld of %ld", t, sz); }
      size_t total = 0, want = 1 + c.size(4000); Exact b(want); ptrdiff_t k; size_t guard = 0; while((k = evfs_file_read(fh, b.p, want)) > 0) { REQUIRE(k <= (ptrdiff_t)want, "read %td of %zu", k, want); total += (size_t)k; REQUIRE(total <= std::max(a.img.size(), mt.limit) && guard++ < 10000, "more data than the image has"); }
      uint8_t *ad = nullptr; if(evfs_file_ctrl(fh, EVFS_CMD_GET_RSRC_ADDR, &ad) == EVFS_OK) { REQUIRE(a.rsrc, "resource address"); REQUIRE(sz == 0 || ((char *)ad >= mt.mem->p && (size_t)((char *)ad - mt.mem->p) + (size_t)sz <= mt.mem->n), "%ld bytes at the resource address of %s exceed the resource", sz, quote(p).c_str()); }
      evfs_file_close(fh); break; }
    }
  }
}
static void robust(Case &c, bool tar) {
  Lib lib; MemFs m("mem"); m.root->dir = true; Arch a; a.rsrc = c.chance(60); if(tar) gen_tar(c, a, m); else gen_rom(c, a, m);
  Bytes &b = a.img; Bytes intact = b; size_t k = 1 + c.size(6);
  for(size_t i = 0; i < k && b.size(); i++) switch(c.weighted({30, 30, 12, 10, 18})) {
    case 0: { size_t p = c.below(b.size()); uint8_t v = c.byte(); c.note("byte %zu = %#x", p, v); b[p] = v; break; }
    case 1: { // a field of a header
      if(tar) { size_t h = 512 * c.below((b.size() + 511) / 512); static const int off[] = {0, 99, 124, 124, 124, 135, 156, 156, 345, 499, 148, 257}; size_t p = h + (size_t)c.pick(off); static const std::vector<std::string> v = {"77777777777", "-0000001000", "00000000001", "777777777777", "20000000000", "17777777777", "-7777777777", "           ", "5", "0", "x", std::string(1, 0), std::string(4, (char)0xff), std::string(100, 'q'), std::string(155, 'p'), std::string(12, '0')}; const std::string &s = c.pick(v); c.note("header field at %zu = %s", p, quote(s).c_str()); for(size_t j = 0; j < s.size() && p + j < b.size(); j++) b[p + j] = (uint8_t)s[j]; }
      else { size_t h = 16 * c.below(b.size() / 16 + 1), p = h + 4 * c.below(3); uint32_t v = c.weighted({60, 20, 20}) == 0 ? (uint32_t)(16 * c.below(b.size() / 16 + 1)) : c.chance(50) ? (uint32_t)c.pick({0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xffffffffu, 0x7ffffff0u, 0u, 1u}) : (uint32_t)c.below(b.size() + 40); if(p == h) v = (v & ~15u) | (uint32_t)c.below(16); if(p + 4 <= b.size()) { be32(b, p, v); c.note("word at %zu = %#x", p, v); } }
      break; }
    case 2: { size_t n = c.below(b.size() + 1); c.note("cut to %zu", n); b.resize(n); break; }
    case 3: { size_t u = tar ? 512 : 16; size_t n = b.size() / u; if(n < 2) break; size_t x = c.below(n) * u, y = c.below(n) * u; c.note("copy block %zu over %zu", x, y); memmove(&b[y], &b[x], u); break; }
    default: { if(tar) break; size_t n = b.size() / 16; if(n < 4) break; size_t x = 16 * c.below(n), y = 16 * c.below(n); if(x + 8 > b.size()) break; uint32_t low = b[x + 3] & 15; bool sp = c.chance(50); c.note("%s of %zu points to %zu", sp ? "content" : "next", x, y); if(sp) be32(b, x + 4, (uint32_t)y); else be32(b, x, (uint32_t)y | low); break; }
  }
  if(c.chance(3)) { b = c.blob(c.size(2000)); c.note("arbitrary bytes"); }
  if(b.size() >= 64) fix_sums(c, b, tar);
  // damage that comes or goes while the image is in use
  Mount mt; Bytes next; if(!a.rsrc && c.chance(40)) { bool goes = c.chance(60); mt.host.fail_ops = {"read"}; mt.host.change_at = 1 + c.size(c.chance(60) ? 30 : 200); mt.host.change_path = "/image"; mt.host.change_to = next = goes ? intact : b; mt.limit = std::max(b.size(), intact.size()); if(!goes) b = intact; c.note("damage %s before read %ld", goes ? "ends" : "starts", mt.host.change_at); }
  mt.open(c, a); c.note("register = %s", ENAME(mt.status)); if(mt.status == EVFS_OK) use(c, a, mt); c.nontrivial(mt.status == EVFS_OK && a.paths.size() > 2);
  evfs_unregister_all(); if(mt.host.change_at >= 0 && mt.host.op_no >= mt.host.change_at) b = next; mt.host.change_at = -1; mt.check(a); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
static void tar_rob(Case &c) { robust(c, true); }
static void rom_rob(Case &c) { robust(c, false); }
// the file system below fails: an error may be reported, wrong data never
static void faults(Case &c) {
  Lib lib; MemFs m("mem"); m.root->dir = true; Arch a; a.rsrc = false; bool tar = c.chance(50); if(tar) gen_tar(c, a, m); else gen_rom(c, a, m);
  Mount mt; if(c.chance(40)) { mt.host.fail_ops = {"read", "seek"}; mt.host.fail_at = 1 + c.size(120); mt.host.fail_sticky = c.chance(20); }
  mt.host.fail_err = file_error(c);
  mt.host.partial = c.chance(30); mt.host.partial_rng = c.byte() + 1; mt.open(c, a); bool hit = mt.host.failed;
  if(mt.status != EVFS_OK) REQUIRE(hit, "registration failed without a reason: %s", ENAME(mt.status));
  else {
    REQUIRE(!hit, "the image could not be read completely, registration reported success");
    if(mt.host.fail_at < 0 && c.chance(85)) { mt.host.fail_ops = {"read", "seek"}; mt.host.fail_at = mt.host.op_no + 1 + (c.chance(50) ? c.size(30) : c.size(300)); mt.host.fail_sticky = c.chance(20); }
    for(auto &f : a.files) {
      if(!m.at(f.first)) continue; EvfsFile *fh = nullptr; bool before = mt.host.failed; int s = evfs_open_ex(f.first.c_str(), &fh, EVFS_READ, "arch"); bool bad = mt.host.failed && (!before || mt.host.fail_sticky);
      if(s != EVFS_OK) { REQUIRE(bad, "open %s = %s", quote(f.first).c_str(), ENAME(s)); continue; }
      Bytes got; size_t step = 1 + c.size(700), guard = 0; int errs = 0;
      for(;;) { REQUIRE(guard++ < 20000, "reading does not end"); Exact b(step); before = mt.host.failed; ptrdiff_t k = evfs_file_read(fh, b.p, step); bad = mt.host.failed && (!before || mt.host.fail_sticky);
        if(k < 0) { REQUIRE(bad, "read = %s without a reason", ENAME(k)); if(mt.host.fail_sticky || errs++ > 3) break; continue; }
        if(k == 0) { REQUIRE(!bad || got.size() == f.second.size(), "a failed read of %s looks like the end of the file", quote(f.first).c_str()); break; }
        got.insert(got.end(), b.p, b.p + k); }
      REQUIRE(got.size() <= f.second.size() && std::equal(got.begin(), got.end(), f.second.begin()), "%s: wrong data after a failure", quote(f.first).c_str());
      if(!mt.host.failed || !mt.host.fail_sticky) REQUIRE(got == f.second, "%s: %zu of %zu bytes after a failed read was repeated", quote(f.first).c_str(), got.size(), f.second.size());
      evfs_file_close(fh);
    }
    // every directory is listed completely or with an error, which can be repeated
    if(!tar) for(auto &p : a.paths) {
      NodeP n = m.at(p); EvfsInfo in; int s; bool before = mt.host.failed; s = evfs_stat_ex(p.c_str(), &in, "arch"); bool bad = mt.host.failed && (!before || mt.host.fail_sticky);
      if(s != EVFS_OK) REQUIRE(bad, "stat %s = %s", quote(p).c_str(), ENAME(s)); else REQUIRE(!!(in.type & EVFS_FILE_DIR) == n->dir && (n->dir || a.special.count(n.get()) || in.size == (evfs_off_t)n->data.size()), "wrong information for %s", quote(p).c_str());
      if(!n->dir) continue;
      EvfsDir *dh = nullptr; before = mt.host.failed; s = evfs_open_dir_ex(p.c_str(), &dh, "arch"); bad = mt.host.failed && (!before || mt.host.fail_sticky); if(s != EVFS_OK) { REQUIRE(bad, "open_dir %s = %s", quote(p).c_str(), ENAME(s)); continue; }
      std::multiset<std::string> got, want; for(auto &k : n->kids) want.insert(k.first); size_t guard = 0; bool part = false;
      for(;;) { REQUIRE(guard++ < 1000, "listing does not end"); before = mt.host.failed; s = evfs_dir_read(dh, &in); bad = mt.host.failed && (!before || mt.host.fail_sticky);
        if(s == EVFS_DONE) break;
        if(s != EVFS_OK) { REQUIRE(bad, "dir_read %s = %s", quote(p).c_str(), ENAME(s)); if(mt.host.fail_sticky) { part = true; break; } continue; }
        std::string e = in.name; if(e == "." || e == "..") continue; got.insert(e); if(want.count(e)) REQUIRE(!!(in.type & EVFS_FILE_DIR) == n->kids[e]->dir, "%s in %s: wrong type", quote(e).c_str(), quote(p).c_str()); }
      if(part) { for(auto &e : got) REQUIRE(want.count(e), "%s lists the unknown entry %s", quote(p).c_str(), quote(e).c_str()); } else REQUIRE(got == want, "%s: %zu of %zu entries listed", quote(p).c_str(), got.size(), want.size());
      evfs_dir_close(dh);
    }
  }
  c.nontrivial(mt.host.failed && !a.files.empty());
  mt.host.fail_at = -1; evfs_unregister_all(); mt.check(a); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
// ---------------------------------------------------------------- damage that checksums and format marks tell
static bool same_file(const std::string &p, const Bytes &want, Arch &a) {   // opened and read completely
  EvfsFile *fh = nullptr; int s = evfs_open_ex(p.c_str(), &fh, EVFS_READ, "arch"); if(s != EVFS_OK) { REQUIRE(!fh, "a handle without success"); return false; }
  REQUIRE(evfs_file_size(fh) == (evfs_off_t)want.size(), "%s has %ld bytes, archived were %zu", quote(p).c_str(), (long)evfs_file_size(fh), want.size());
  Exact b(want.size() + 1); size_t n = 0; ptrdiff_t k; while(n <= want.size() && (k = evfs_file_read(fh, b.p + n, want.size() + 1 - n)) > 0) n += (size_t)k; REQUIRE(n == want.size() && (n == 0 || !memcmp(b.p, want.data(), n)), "%s: %zu bytes differ from the %zu archived", quote(p).c_str(), n, want.size());
  evfs_file_close(fh); return true;
}
static void hurt(Case &c, Bytes &b, size_t at, size_t len, const char *what) { // some bytes take other values
  size_t k = 1 + (c.chance(25) ? c.below(3) : 0); for(size_t i = 0; i < k; i++) { size_t p = at + c.below(len); uint8_t v; switch(c.below(4)) { case 0: v = b[p] ^ (uint8_t)(1u << c.below(8)); break; case 1: v = (uint8_t)(b[p] + 1); break; case 2: v = 0; break; default: v = c.byte(); break; } c.note("%s: byte %zu from %#x to %#x", what, p, b[p], v); b[p] = v; }
}
static unsigned tar_bytes(const Bytes &b, size_t p) { unsigned s = 0; for(size_t i = 0; i < 512; i++) s += i >= 148 && i < 156 ? ' ' : b[p + i]; return s; }
static void checks_tar(Case &c) {
  Lib lib; MemFs m("mem"); m.root->dir = true; Arch a; a.rsrc = c.chance(50); gen_tar(c, a, m); if(a.recs.empty()) discard();
  size_t bad = c.below(a.recs.size()), off = a.recs[bad].off; Bytes &b = a.img; const Bytes was = b;
  switch(c.weighted({60, 20, 20})) {
  case 0: hurt(c, b, off, c.chance(50) ? 148 : 345 + 150, "header"); { for(size_t i = 148; i < 156; i++) b[off + i] = was[off + i]; } if(tar_bytes(b, off) == tar_bytes(was, off)) discard(); break;
  case 1: { unsigned v = tar_bytes(b, off); unsigned w = c.chance(60) ? v + 1 + (unsigned)c.below(3) : (unsigned)c.below(0x3ffff); if(v == w) discard(); octal(&b[off + 148], 7, w); c.note("checksum of entry %zu from %o to %o", bad, v, w); break; }
  default: { static const char *no[] = {"xstar ", "ustas ", "USTAR ", "ustar\1", "\0\0\0\0\0\0", "ustarx"}; size_t k = c.below(6); memcpy(&b[off + 257], no[k], 6); tar_sum(&b[off], 1); c.note("mark %zu in entry %zu", k, bad); break; } }
  std::map<std::string, Bytes> first; std::set<std::string> later, dirs; std::map<std::string, std::vector<Bytes>> any;
  for(size_t i = 0; i < a.recs.size(); i++) { auto &e = a.recs[i].e; std::string p = e.path; if(p.compare(0, 2, "./") == 0) p.erase(0, 2); p = "/" + p; if(e.type == '5') { if(i < bad && p != "/" && p != "/.") dirs.insert(p); continue; } if(e.type != '0') continue; if(i != bad) any[p].push_back(e.data); if(i < bad) first[p] = e.data; else later.insert(p); }
  Mount mt; mt.host.partial = !a.rsrc && c.chance(20); mt.host.partial_rng = c.byte() + 1; mt.open(c, a); c.note("register = %s", ENAME(mt.status));
  if(mt.status == EVFS_OK) {
    for(auto &f : first) REQUIRE(same_file(f.first, f.second, a), "%s, archived before the damaged header, is not available", quote(f.first).c_str());
    for(auto &d : dirs) { EvfsInfo in; int s = evfs_stat_ex(d.c_str(), &in, "arch"); REQUIRE(s == EVFS_OK && (in.type & EVFS_FILE_DIR), "the directory %s, archived before the damaged header = %s", quote(d).c_str(), ENAME(s)); }
    for(auto &p : later) if(!first.count(p)) { EvfsFile *fh = nullptr; if(evfs_open_ex(p.c_str(), &fh, EVFS_READ, "arch") != EVFS_OK) continue; size_t sz = (size_t)evfs_file_size(fh); evfs_file_close(fh); bool ok = false; for(auto &d : any[p]) ok = ok || d.size() == sz; REQUIRE(ok, "%s is served from a damaged header", quote(p).c_str()); }
  } else REQUIRE(first.empty(), "registering = %s, although files come before the damaged header", ENAME(mt.status));
  c.nontrivial(a.recs.size() >= 2 && first.size() + later.size() >= 1);
  evfs_unregister_all(); mt.check(a); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
static void checks_rom(Case &c) {
  Lib lib; MemFs m("mem"); m.root->dir = true; Arch a; a.rsrc = c.chance(50); gen_rom(c, a, m); Bytes &b = a.img; const Bytes was = b; size_t n = std::min<size_t>(512, b.size()); bool refused = false;
  auto fix = [&]() { be32(b, 12, 0); be32(b, 12, -sum32(b, 0, n)); };
  auto whole = [&](const Arch::Head &h) { size_t l = 16 + a16(strnlen((char *)&b[h.off + 16], std::min<size_t>(256, b.size() - h.off - 16)) + 1); return h.off + l <= b.size() && sum32(b, h.off, l) == 0; };   // the header as it is now is a valid one
  switch(c.weighted({22, 8, 8, 62})) {
  case 0: hurt(c, b, 0, n, "first block"); if(sum32(b, 0, n) == 0) discard(); refused = true; break;
  case 1: hurt(c, b, 0, 8, "mark"); if(!memcmp(&b[0], &was[0], 8)) discard(); fix(); refused = true; break;
  case 2: { uint32_t v = (uint32_t)b.size() + 1 + (c.chance(50) ? (uint32_t)c.below(40) : (uint32_t)c.below(0x7fffffff)); be32(b, 8, v); fix(); c.note("size %u for %zu bytes", v, b.size()); refused = true; break; }
  default: { size_t k = 1 + c.below(2); for(size_t i = 0; i < k; i++) { auto &h = c.pick(a.heads); hurt(c, b, h.off, h.len, "header"); } fix(); break; } }
  std::set<size_t> bad; for(auto &h : a.heads) if(memcmp(&b[h.off], &was[h.off], h.len)) { if(!refused && whole(h)) discard(); bad.insert(h.off); }
  if(!refused && bad.empty()) discard();
  Mount mt; mt.host.partial = !a.rsrc && c.chance(20); mt.host.partial_rng = c.byte() + 1; mt.open(c, a); c.note("register = %s", ENAME(mt.status));
  if(refused) REQUIRE(mt.status != EVFS_OK, "an image with a damaged first block is registered");
  else if(mt.status == EVFS_OK) {
    auto way = [&](const Arch::Head &h) { for(size_t o : h.route) if(bad.count(o)) return false; return true; };
    std::set<std::string> twice; { std::set<std::string> s; for(auto &h : a.heads) if(!s.insert(h.path).second) twice.insert(h.path); }
    for(auto &h : a.heads) { auto f = a.files.find(h.path); if(f == a.files.end() || twice.count(h.path)) continue; bool ok = same_file(h.path, f->second, a); if(way(h)) REQUIRE(ok, "%s, with no damage on the way, is not available", quote(h.path).c_str()); else REQUIRE(!ok, "%s is available behind a damaged header", quote(h.path).c_str()); }
    std::vector<std::pair<std::string, bool>> dirs = {{"/", !bad.count(a.root_list)}}; for(auto &h : a.heads) if(h.type == 1 && !h.path.empty() && h.path.compare(h.path.size() - 2, 2, "/.")) dirs.push_back({h.path, way(h)});
    for(auto &d : dirs) {
      EvfsDir *dh = nullptr; int s = evfs_open_dir_ex(d.first.c_str(), &dh, "arch"); if(s != EVFS_OK) { REQUIRE(!d.second, "%s, with no damage on the way = %s", quote(d.first).c_str(), ENAME(s)); continue; }
      std::string pre = d.first == "/" ? "" : d.first; std::vector<const Arch::Head *> list; size_t lst = 0; for(auto &h : a.heads) if(h.path.compare(0, pre.size() + 1, pre + "/") == 0 && h.path.find('/', pre.size() + 1) == std::string::npos) { lst = h.list; break; }
      for(auto &h : a.heads) if(h.list == lst) list.push_back(&h);
      size_t at = 0; EvfsInfo in; for(;;) { s = evfs_dir_read(dh, &in); if(s != EVFS_OK) break; REQUIRE(at < list.size(), "%s lists more than it has", quote(d.first).c_str()); auto &h = *list[at++]; std::string nm = h.path.empty() ? "." : h.path.substr(h.path.rfind('/') + 1); REQUIRE(nm == in.name, "%s lists %s instead of %s", quote(d.first).c_str(), quote(in.name).c_str(), quote(nm).c_str()); REQUIRE(!bad.count(h.off), "%s lists %s from a damaged header", quote(d.first).c_str(), quote(nm).c_str());
        auto f = a.files.find(h.path); if(f != a.files.end() && !twice.count(h.path)) { size_t w = h.target && bad.count(h.target) ? 0 : f->second.size(); REQUIRE((size_t)in.size == w, "%s is listed with %ld bytes, not %zu", quote(h.path).c_str(), (long)in.size, w); } }
      bool end = at == list.size(); if(s == EVFS_DONE) REQUIRE(end, "%s ends after %zu of %zu entries", quote(d.first).c_str(), at, list.size()); else { REQUIRE(!end && bad.count(list[at]->off), "reading entry %zu of %zu (%zu, %zu) of %s = %s", at, list.size(), end ? 0 : list[at]->off, *bad.begin(), quote(d.first).c_str(), ENAME(s)); }
      evfs_dir_close(dh); }
  } else REQUIRE(bad.count(a.root_list), "registering = %s, although the first block is intact", ENAME(mt.status));
  c.nontrivial(refused || a.files.size() >= 2);
  evfs_unregister_all(); mt.check(a); REQUIRE(alloc_live() == 0, "%zu blocks leaked", alloc_live());
}
const pbt::Prop pbt::props[] = {
  {"E33.tar", tar_oom, 60000, 800000, 5, 20, ""},
  {"E33.tar.bare", tar_oom, 60000, 800000, 5, 20, ""},
  {"E33.romfs", rom_oom, 60000, 800000, 5, 20, ""},
  {"E33.romfs.bare", rom_oom, 60000, 800000, 5, 20, ""},
  {"A19", tar_fid, 120000, 2000000, 5, 20, ""},
  {"A19.iter", tar_iter, 60000, 800000, 5, 20, ""},
  {"A20", rom_fid, 60000, 1000000, 5, 20, ""},
  {"A20.slow", rom_fid, 60000, 1000000, 5, 20, ""},
  {"A21.tar", tar_rob, 100000, 1500000, 5, 20, ""},
  {"A21.romfs", rom_rob, 100000, 1500000, 5, 20, ""},
  {"A21.slow", rom_rob, 100000, 1500000, 5, 20, ""},
  {"A24.tar", checks_tar, 60000, 1000000, 5, 20, ""},
  {"A24.romfs", checks_rom, 60000, 1000000, 5, 20, ""},
  {"A24.slow", checks_rom, 60000, 1000000, 5, 20, ""},
  {"A22", faults, 100000, 1500000, 5, 20, ""},
  {"A22.slow", faults, 100000, 1500000, 5, 20, ""},
  {nullptr, nullptr, 0, 0, 0, 0, nullptr}
};
