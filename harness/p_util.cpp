// Support library: hash table, string ranges, tokenizer, approximate search, integer math.
#include "common.h"
#include <map>
#include <algorithm>
#include <cmath>
#include <climits>
extern "C" {
#include "evfs/util/dhash.h"
#include "evfs/util/search.h"
#include "evfs/util/intmath.h"
}
using namespace pbt;
void pbt::harness_setup() { evfs_init(); }

// ------------------------------------------------------------ U26 hash table
struct HCtx { std::vector<std::pair<std::string, uint32_t>> destroyed; bool refuse = false; int replaced = 0; bool refuse_grow = false; };
static uint32_t val_id(const void *v) { uint32_t x; memcpy(&x, v, sizeof x); return x; }
static std::string key_str(dhKey k) { return k.data ? std::string((const char *)k.data, k.length) : std::string("(null key)"); }
static bool g_intkeys;
static std::string key_name(dhKey k) { return g_intkeys ? std::to_string((uintptr_t)k.data) : key_str(k); }
static void h_destroy(dhKey k, void *v, void *ctx) { ((HCtx *)ctx)->destroyed.push_back({key_name(k), val_id(v)}); }
static bool h_replace(dhKey, void *, void *, void *ctx) { HCtx *h = (HCtx *)ctx; h->replaced++; return !h->refuse; }
static bool h_grow(size_t, void *ctx) { return !((HCtx *)ctx)->refuse_grow; }
static dhIKey h_collide(dhKey k) { return k.length ? ((const uint8_t *)k.data)[0] & 3 : 0; }
static dhIKey h_zero(dhKey) { return 0; }

static void dhash_prop(Case &c) {
  Lib lib; HCtx hc; dhash h; dhConfig cfg; memset(&cfg, 0, sizeof cfg);
  g_intkeys = c.chance(30);
  size_t vs = 4 + c.below(21); bool ext = c.chance(25);
  cfg.init_buckets = c.below(40); cfg.value_size = vs;
  cfg.destroy_item = h_destroy; cfg.is_equal = g_intkeys ? dh_equal_hash_keys_int : dh_equal_hash_keys_string;
  int hk = (int)c.below(5);
  cfg.gen_hash = g_intkeys ? dh_gen_hash_int : hk == 0 ? h_collide : hk == 1 ? h_zero : hk == 2 ? dh_gen_hash_string_no_case : dh_gen_hash_string;
  const uint64_t MUL[] = {1, 1, 2, 7, 16, 256, 65536, 0x10001, 0x100000000ull, 0x100000001ull, 0x7fffffffull}; uint64_t mul = MUL[c.below(11)];
  if(c.chance(30)) cfg.replace_item = h_replace;
  if(c.chance(20)) cfg.grow_hash = h_grow;
  size_t ext_bytes = ext ? c.size(4000) : 0; Exact store(ext_bytes);
  if(ext) { cfg.ext_storage = store.p; cfg.max_storage = ext_bytes; }
  else if(c.chance(15)) cfg.max_storage = 200 + c.below(6000);
  c.note("hash of %zu-byte values, %s keys, hash fn %d, %zu initial buckets, ext %zu, max %zu", vs, g_intkeys ? "int" : "string", hk, cfg.init_buckets, ext_bytes, cfg.max_storage);
  if(!dh_init(&h, &cfg, &hc)) { REQUIRE(ext || cfg.max_storage, "init failed"); REQUIRE(alloc_live() == 0, "failed init leaked"); return; }
  // key storage outlives the table
  size_t nk = 1 + c.below(c.chance(20) ? 150 : 30);
  std::vector<std::string> keys; for(size_t i = 0; i < nk; i++) keys.push_back(g_intkeys ? std::to_string((uint64_t)i * mul) : std::string(1, (char)('a' + i % 7)) + std::to_string(i));
  { std::string a = c.chars("aBcXyZ09-_", 0, 20), b = a; for(auto &x : b) if(c.chance(50)) x = (char)(isupper(x) ? tolower(x) : toupper(x)); dhKey ka = {a.data(), a.size()}, kb = {b.data(), b.size()}; REQUIRE(dh_gen_hash_string_no_case(ka) == dh_gen_hash_string_no_case(kb), "caseless hashes of %s and %s differ", a.c_str(), b.c_str());
    REQUIRE(dh_equal_hash_keys_string(ka, kb, nullptr) == (a == b), "keys %s and %s compare wrong", a.c_str(), b.c_str()); dhKey kc = {a.data(), c.below(a.size() + 1)}; REQUIRE(dh_equal_hash_keys_string(ka, kc, nullptr) == (kc.length == a.size()), "a key equals its prefix"); }
  auto mk = [&](size_t i) { dhKey k; if(g_intkeys) { k.data = (void *)(uintptr_t)std::stoull(keys[i]); k.length = 0; } else { k.data = keys[i].data(); k.length = keys[i].size(); } return k; };
  std::map<std::string, uint32_t> m; uint32_t next = 1; size_t n = 2 + c.size(c.chance(20) ? 400 : 60); bool removed = false, regrew = false, reins = false; size_t cap0 = dh_cur_capacity(&h);
  std::map<std::string, bool> gone;
  for(size_t s = 0; s < n; s++) {
    size_t i = c.below(nk); dhKey k = mk(i); const std::string &kn = keys[i]; hc.destroyed.clear(); hc.replaced = 0;
    bool had = m.count(kn) != 0;
    switch(c.weighted({45, 20, 8, 15, 4, 4, 4})) {
    case 0: {
      uint32_t id = next++; Exact v(vs); memset(v.p, (int)(id & 0x7f), vs); memcpy(v.p, &id, 4);
      hc.refuse = cfg.replace_item && c.chance(20); hc.refuse_grow = cfg.grow_hash && c.chance(10);
      bool af = c.chance(5); if(af) alloc_fail_at(1); else alloc_fail_at(0);
      size_t cap = dh_cur_capacity(&h); bool full = m.size() >= cap;
      bool ok = dh_insert(&h, k, v.p); bool failed = alloc_failed(); alloc_fail_at(0);
      c.note("insert %s -> %u: %d%s", kn.c_str(), id, ok, failed ? " (allocation failed)" : "");
      bool may_fail = full && (ext || failed || cfg.max_storage || hc.refuse_grow);
      bool refuse = had && hc.refuse && (hc.replaced || !ok);
      if(refuse || (hc.refuse && had)) { REQUIRE(!ok, "insert succeeded although replacing was refused"); REQUIRE(hc.destroyed.empty(), "a refused replacement destroyed the old value"); break; }
      if(!ok) { REQUIRE(may_fail, "insert of %s failed with %zu of %zu entries used", kn.c_str(), m.size(), cap); REQUIRE(hc.destroyed.empty(), "a failed insert destroyed a value"); break; }
      if(had) { REQUIRE(hc.destroyed.size() == 1 && hc.destroyed[0].second == m[kn] && hc.destroyed[0].first == kn, "replacing %s destroyed %zu values, first %u of %s", kn.c_str(), hc.destroyed.size(), hc.destroyed.empty() ? 0 : hc.destroyed[0].second, hc.destroyed.empty() ? "" : hc.destroyed[0].first.c_str()); }
      else REQUIRE(hc.destroyed.empty() && hc.replaced == 0, "inserting new key %s destroyed or replaced something", kn.c_str());
      if(gone.count(kn)) reins = true;
      m[kn] = id; break; }
    case 1: {
      bool keep = c.chance(50); Exact v(vs); bool ok = dh_remove(&h, k, keep ? v.p : nullptr);
      c.note("remove %s: %d", kn.c_str(), ok);
      REQUIRE(ok == had, "remove(%s) = %d", kn.c_str(), ok);
      if(had) {
        if(keep) { REQUIRE(hc.destroyed.empty() && val_id(v.p) == m[kn], "removed value is %u, expected %u", val_id(v.p), m[kn]); for(size_t b = 4; b < vs; b++) REQUIRE((uint8_t)v.p[b] == (m[kn] & 0x7f), "removed value is damaged at byte %zu", b); }
        else REQUIRE(hc.destroyed.size() == 1 && hc.destroyed[0].second == m[kn] && hc.destroyed[0].first == kn, "removing %s destroyed %zu values, first %u of key %s", kn.c_str(), hc.destroyed.size(), hc.destroyed.empty() ? 0 : hc.destroyed[0].second, hc.destroyed.empty() ? "" : hc.destroyed[0].first.c_str());
        m.erase(kn); removed = true; gone[kn] = true;
      }
      break; }
    case 2: {
      size_t add = c.below(60); bool af = c.chance(20); alloc_fail_at(af ? 1 : 0); hc.refuse_grow = cfg.grow_hash && c.chance(20);
      bool ok = dh_reserve_capacity(&h, add); bool failed = alloc_failed(); alloc_fail_at(0);
      c.note("reserve %zu: %d", add, ok);
      if(ok) REQUIRE(dh_cur_capacity(&h) >= m.size() + add, "reserved %zu more than %zu entries but the capacity is %zu", add, m.size(), dh_cur_capacity(&h));
      else REQUIRE(ext || cfg.max_storage || failed || hc.refuse_grow, "reserve failed");
      break; }
    case 3: {
      Exact v(vs); bool ok = dh_lookup(&h, k, v.p); void *pv = nullptr; bool ok2 = dh_lookup_in_place(&h, k, &pv);
      REQUIRE(ok == had && ok2 == had && dh_exists(&h, k) == had, "lookup(%s) = %d/%d, expected %d", kn.c_str(), ok, ok2, had);
      if(had) { REQUIRE(val_id(v.p) == m[kn] && val_id(pv) == m[kn], "lookup(%s) = %u, expected %u", kn.c_str(), val_id(v.p), m[kn]); for(size_t b = 4; b < vs; b++) REQUIRE((uint8_t)v.p[b] == (m[kn] & 0x7f), "value of %s is damaged at byte %zu", kn.c_str(), b); }
      break; }
    case 4: case 5: {
      std::map<std::string, uint32_t> seen; dhIter it; dhKey ik; void *iv; dh_iter_init(&h, &it); size_t cnt = 0;
      while(dh_iter_next(&it, &ik, &iv)) { seen[key_name(ik)] = val_id(iv); REQUIRE(++cnt <= m.size(), "iteration yields too many entries"); }
      REQUIRE(cnt == m.size() && seen == m, "iteration yields %zu entries, expected %zu, or differs", cnt, m.size());
      REQUIRE(!dh_iter_next(&it, &ik, &iv), "a finished iterator yields an entry");
      break; }
    default: {
      struct V { std::map<std::string, uint32_t> seen; size_t stop; } vv; vv.stop = c.below(20);
      dh_foreach(&h, [](dhKey fk, void *fv, void *ctx) { V *x = (V *)ctx; x->seen[key_name(fk)] = val_id(fv); return x->seen.size() < x->stop || !x->stop; }, &vv);
      REQUIRE(vv.seen.size() == (vv.stop ? std::min(vv.stop, m.size()) : m.size()), "foreach visited %zu entries", vv.seen.size());
      for(auto &x : vv.seen) REQUIRE(m.count(x.first) && m[x.first] == x.second, "foreach reports %s = %u", x.first.c_str(), x.second); }
    }
    REQUIRE(dh_num_items(&h) == m.size(), "%zu items, expected %zu", dh_num_items(&h), m.size());
    REQUIRE(m.size() <= dh_cur_capacity(&h), "more items than capacity");
    if(dh_cur_capacity(&h) > cap0) regrew = true;
  }
  for(size_t i = 0; i < nk; i++) { Exact v(vs); bool ok = dh_lookup(&h, mk(i), v.p); REQUIRE(ok == (m.count(keys[i]) != 0) && (!ok || val_id(v.p) == m[keys[i]]), "at the end: lookup(%s) = %d", keys[i].c_str(), ok); }
  hc.destroyed.clear(); dh_free(&h);
  std::map<std::string, uint32_t> d(hc.destroyed.begin(), hc.destroyed.end());
  REQUIRE(hc.destroyed.size() == m.size() && d == m, "freeing destroyed %zu values, expected %zu, or others", hc.destroyed.size(), m.size());
  REQUIRE(alloc_live() == 0, "leak");
  if(regrew) c.label("grew"); if(reins) c.label("reinserted");
  c.nontrivial(removed && m.size() >= 2 && (regrew || reins));
}

// ------------------------------------------------------------ U27 string ranges
static int cat_vfmt(AppendRange *r, const char *f, ...) { va_list a; va_start(a, f); int k = range_cat_vfmt(r, f, a); va_end(a); return k; }
static void ranges(Case &c) {
  size_t n = c.chance(10) ? c.below(3) : c.size(60); Exact b(n); if(n) b.p[0] = 0;
  AppendRange r; range_init(&r, b.p, n);
  std::string m; bool term = n > 0, bounded = false; size_t steps = 1 + c.below(12);
  c.note("append range of %zu bytes", n);
  for(size_t i = 0; i < steps; i++) {
    size_t room = n - m.size();    // bytes left, including the terminator
    std::string s = c.chars("abc %/.", 0, c.chance(20) ? room + 3 : 12); int ret = 0; bool nul = true; std::string add = s; long need = (long)s.size();
    int op = (int)c.weighted({25, 20, 12, 12, 10, 10, 8, 8});
    if(!term && (op == 5 || op == 0)) {}
    switch(op) {
      case 0: { Exact e(s); ret = range_cat_str(&r, e.p); break; }
      case 1: { Exact e(s.data(), s.size()); StringRange q; range_init(&q, e.p, s.size()); ret = range_cat_range(&r, &q); break; }
      case 2: { Exact e(s); nul = false; ret = range_cat_str_no_nul(&r, e.p); break; }
      case 3: { Exact e(s.data(), s.size()); nul = false; StringRange q; range_init(&q, e.p, s.size()); ret = range_cat_range_no_nul(&r, &q); break; }
      case 4: { int v = (int)c.range(-100000, 100000); char t[200]; int k = snprintf(t, sizeof t, "%d:%s", v, s.c_str()); add.assign(t, (size_t)k); need = k; ret = c.chance(50) ? range_cat_fmt(&r, "%d:%s", v, s.c_str()) : cat_vfmt(&r, "%d:%s", v, s.c_str()); break; }
      case 5: { char ch = "xyz"[c.below(3)]; add = std::string(1, ch); need = 1; bool nn = c.chance(30); nul = !nn; ret = nn ? range_cat_char_no_nul(&r, ch) : range_cat_char(&r, ch); break; }
      case 6: { uint32_t v = c.chance(30) ? (uint32_t)c.below(12) : (uint32_t)c.range(0, UINT32_MAX); add = std::to_string(v); need = (long)add.size(); ret = range_cat_uint(&r, v); break; }
      default: { int32_t v = c.chance(10) ? INT32_MIN : (int32_t)c.range(INT32_MIN, INT32_MAX); add = std::to_string(v); need = (long)add.size(); ret = range_cat_int(&r, v); break; }
    }
    c.note("op %d adds %ld to %zu of %zu: %d", op, need, m.size(), n, ret);
    bool fits = (size_t)need + 1 <= room, tight = !nul && (size_t)need == room && need > 0;
    if(fits) REQUIRE(ret == need, "appending %ld bytes with %zu free returned %d", need, room, ret);
    else if(!tight && need > 0) { REQUIRE(ret < 0, "appending %ld bytes with %zu free returned %d", need, room, ret); if(op != 5 && op != 6) REQUIRE(-ret >= need || op == 7, "needed size %ld reported as %d", need, ret); }
    if(!fits) bounded = true;
    if(fits) { m += add; if(nul) term = true; else if(need) term = false; }
    else if(tight && ret > 0) { m += add; term = false; }
    else {
      REQUIRE(std::string(b.p, m.size()) == m || op == 7, "a failed append damaged what was there");
      if(op == 7) break;   // the sign may have been written
      if(room > 0 && op != 5 && !(op == 6 && add == "0") && need > 0) term = true;
    }
    REQUIRE((size_t)(r.start - b.p) == m.size() && r.end == b.p + n, "range starts at %td after %zu bytes", r.start - b.p, m.size());
    REQUIRE(std::string(b.p, m.size()) == m, "buffer holds %s, expected %s", quote(b.p, m.size()).c_str(), quote(m).c_str());
    if(term && m.size() < n) REQUIRE(b.p[m.size()] == 0, "no terminator after %s", quote(m).c_str());
  }
  c.nontrivial(bounded && m.size() > 0);
}
static bool sp(char x) { return x == ' ' || x == '\t' || x == '\n' || x == '\r' || x == '\v' || x == '\f'; }
static void range_views(Case &c) {
  std::string s = c.chars("ab \t\n1" "9\xa0", 0, 20); Exact e(s.data(), s.size()); StringRange r; range_init(&r, e.p, s.size());
  c.note("views of %s", quote(s).c_str());
  size_t l = 0, t = s.size(); while(l < t && sp(s[l])) l++; while(t > l && sp(s[t-1])) t--;
  StringRange q = r; range_ltrim(&q); REQUIRE(rstr(q) == s.substr(l), "ltrim(%s) = %s", quote(s).c_str(), quote(rstr(q)).c_str());
  size_t tt = s.size(); while(tt > 0 && sp(s[tt-1])) tt--;
  q = r; range_rtrim(&q); REQUIRE(rstr(q) == s.substr(0, tt), "rtrim(%s) = %s", quote(s).c_str(), quote(rstr(q)).c_str());
  q = r; range_trim(&q); REQUIRE(rstr(q) == s.substr(l, t - l), "trim(%s) = %s", quote(s).c_str(), quote(rstr(q)).c_str());
  std::string o = c.chance(50) ? s : c.chars("ab \t\n1" "9\xa0", 0, 20); if(c.chance(30) && !o.empty()) { if(c.chance(50)) o.pop_back(); else o += 'a'; }
  Exact oe(o), oo(o.data(), o.size()); StringRange r2; range_init(&r2, oo.p, o.size());
  REQUIRE(range_eq(&r, oe.p) == (s == o), "range_eq(%s, %s)", quote(s).c_str(), quote(o).c_str());
  REQUIRE(range_eq_range(&r, &r2) == (s == o), "range_eq_range(%s, %s)", quote(s).c_str(), quote(o).c_str());
  REQUIRE(range_strlen(&r) == s.size(), "range_strlen");
  if(!s.empty()) { bool d = true; for(char ch : s) d = d && ch >= '0' && ch <= '9'; REQUIRE(range_is_int(&r) == d, "range_is_int(%s)", quote(s).c_str()); }
  // bounded copy, padding, shortening
  size_t n = c.below(24); Exact b(n); AppendRange a; range_init(&a, b.p, n); bool tr = c.chance(50); Exact se(s);
  int k = range_copy_str(&a, se.p, tr);
  if(s.size() < n) { REQUIRE(k == (int)s.size() && !strcmp(b.p, s.c_str()), "copy of %s into %zu bytes = %d", quote(s).c_str(), n, k); }
  else if(n > 0) { REQUIRE(k <= 0 && (k < 0 || n == 1 || s.empty()), "truncated copy returned %d", k); REQUIRE(b.terminated() && b.str() == (tr ? s.substr(0, n - 1) : ""), "truncated copy holds %s", quote(b.str()).c_str()); if(!tr) REQUIRE(k == -(int)s.size(), "needed length %zu reported as %d", s.size(), k); }
  if(n == 0) { AppendRange ga; range_init(&ga, b.p, 0); range_terminate(&ga); }
  if(n > 0) {
    std::string cur = b.str(); StringRange w; range_init(&w, b.p, n); int pad = range_pad_right(&w, '.');
    REQUIRE(pad == (int)(n - 1 - cur.size()) && b.str() == cur + std::string(n - 1 - cur.size(), '.'), "padding %s to %zu gives %s", quote(cur).c_str(), n, quote(b.str()).c_str());
    size_t len = c.below(30); std::string full = b.str(); range_set_len(&w, len); REQUIRE(b.str() == full.substr(0, std::min(len, full.size())), "set_len %zu gives %s", len, quote(b.str()).c_str());
    Exact g(n); memset(g.p, 'q', n); if(c.chance(50)) g.p[c.below(n)] = 0; std::string gs = std::string(g.p, strnlen(g.p, n)); AppendRange ga; range_init(&ga, g.p, n); range_terminate(&ga);
    REQUIRE(g.terminated() && g.str() == (gs.size() == n ? gs.substr(0, n - 1) : gs), "terminate");
  }
  { char *mb = nullptr; size_t ml = 0; FILE *f = open_memstream(&mb, &ml); if(!f) pbt::fail("memstream"); Exact z(s); StringRange w; range_init(&w, z.p, s.size() + c.below(2)); int how = (int)c.below(3); if(how == 2) { FILE *keep = stdout; stdout = f; range_puts(&w); stdout = keep; } else if(how) range_fputs(&r, f); else range_fputs(&w, f); fclose(f); std::string got(mb, ml); free(mb); REQUIRE(got == s, "printing %s gives %s", quote(s).c_str(), quote(got).c_str()); }
  c.nontrivial(!s.empty() && (l > 0 || tt < s.size() || s.size() >= n));
}
static void tokens(Case &c) {
  std::string s = c.chars("ab/\\/..c", 0, 24), d = c.pick({"/", "/\\", ".", "/.", ""});
  std::vector<std::string> all; { std::string cur; for(char ch : s) { if(d.find(ch) != std::string::npos) { if(!cur.empty()) all.push_back(cur); cur.clear(); } else cur += ch; } if(!cur.empty()) all.push_back(cur); }
  c.note("tokens of %s by %s", quote(s).c_str(), quote(d).c_str());
  Exact z(s); StringRange t = {nullptr, nullptr}; std::vector<std::string> got;
  for(bool ok = range_token(z.p, d.c_str(), &t); ok; ok = range_token(nullptr, d.c_str(), &t)) { got.push_back(rstr(t)); REQUIRE(got.size() <= all.size(), "too many tokens"); }
  REQUIRE(got == all, "%zu tokens, expected %zu, or they differ", got.size(), all.size());
  // limited: only the first lim bytes exist
  size_t lim = c.below(s.size() + 1); std::string p = s.substr(0, lim); Exact x(p.data(), p.size());
  std::vector<std::string> part; { std::string cur; for(char ch : p) { if(d.find(ch) != std::string::npos) { if(!cur.empty()) part.push_back(cur); cur.clear(); } else cur += ch; } if(!cur.empty()) part.push_back(cur); }
  got.clear(); size_t left = lim;
  for(bool ok = range_token_limit(x.p, d.c_str(), &t, &left); ok; ok = range_token_limit(nullptr, d.c_str(), &t, &left)) { got.push_back(rstr(t)); REQUIRE(got.size() <= part.size(), "too many tokens in a limited string"); REQUIRE(t.start >= x.p && t.end <= x.p + lim, "token outside the limit"); }
  REQUIRE(got == part, "limit %zu: %zu tokens, expected %zu, or they differ", lim, got.size(), part.size());
  c.nontrivial(all.size() >= 2 && lim < s.size());
}

// ------------------------------------------------------------ U29 search
static bool g_desc;
static ptrdiff_t cmp_near(const void *k, const void *e) { ptrdiff_t a = *(const int *)k, b = *(const int *)e; return g_desc ? b - a : a - b; }
static void searching(Case &c) {
  size_t n = 1 + c.size(40); std::vector<int> v; g_desc = c.chance(30); int span = c.chance(50) ? 30 : 1000000;
  for(size_t i = 0; i < n; i++) v.push_back((int)c.range(-span, span));
  std::sort(v.begin(), v.end()); if(g_desc) std::reverse(v.begin(), v.end());
  Exact a(v.data(), n * sizeof(int)); const int *A = (const int *)a.p;
  int key = c.chance(40) ? v[c.below(n)] : (int)c.range(-span - 5, span + 5);
  c.note("search %d in %zu %s entries", key, n, g_desc ? "descending" : "ascending");
  ptrdiff_t ex = search_exact(&key, A, n, sizeof(int), cmp_near);
  bool has = std::find(v.begin(), v.end(), key) != v.end();
  REQUIRE(has ? ex >= 0 && (size_t)ex < n && A[ex] == key : ex == -1, "search_exact = %td", ex);
  size_t k = search_nearest(&key, A, n, sizeof(int), cmp_near); REQUIRE(k < n, "nearest index %zu", k);
  long best = LONG_MAX; for(int x : v) best = std::min(best, std::labs((long)x - key));
  REQUIRE(std::labs((long)A[k] - key) == best, "nearest to %d is %d, a distance of %ld exists", key, A[k], best);
  auto above = [&](int x) { return g_desc ? x <= key : x >= key; }; auto below = [&](int x) { return g_desc ? x >= key : x <= key; };
  k = search_nearest_above(&key, A, n, sizeof(int), cmp_near); REQUIRE(k < n, "index %zu", k);
  bool any = false; best = LONG_MAX; for(int x : v) if(above(x)) { any = true; best = std::min(best, std::labs((long)x - key)); }
  if(any) REQUIRE(above(A[k]) && std::labs((long)A[k] - key) == best, "nearest above %d is %d", key, A[k]); else REQUIRE(A[k] == v.back(), "past the end gives %d", A[k]);
  k = search_nearest_below(&key, A, n, sizeof(int), cmp_near); REQUIRE(k < n, "index %zu", k);
  any = false; best = LONG_MAX; for(int x : v) if(below(x)) { any = true; best = std::min(best, std::labs((long)x - key)); }
  if(any) REQUIRE(below(A[k]) && std::labs((long)A[k] - key) == best, "nearest below %d is %d", key, A[k]); else REQUIRE(A[k] == v.front(), "before the start gives %d", A[k]);
  REQUIRE(search_exact(&key, A, 0, sizeof(int), cmp_near) == -1, "found in an empty array");
  c.nontrivial(n >= 3);
}

// ------------------------------------------------------------ U28 integer math and fixed-point numbers
typedef __int128 wide;
static wide wabs(wide x) { return x < 0 ? -x : x; }
static wide p10(int e) { wide r = 1; while(e-- > 0) r *= 10; return r; }
// num / den, rounded to the nearest, halves away from zero
static wide half_away(wide num, wide den) { wide q = (wabs(num) * 2 + den) / (den * 2); return num < 0 ? -q : q; }
static int digits_for(uint64_t scale) { int d = 0; for(wide p = 1; scale > 1 && p < (wide)scale; p *= 10) d++; return d; }
static uint64_t gen_scale(Case &c) {
  switch(c.weighted({30, 30, 20, 10, 10})) {
    case 0: return (uint64_t)p10((int)c.below(10));
    case 1: return 1ull << c.below(30);
    case 2: return 1 + c.below(1000);
    case 3: { int64_t v = (int64_t)p10((int)c.range(1, 9)) + c.range(-1, 0); return (uint64_t)v; }
    default: return 1 + c.below(1000000000);
  }
}
// values around the places where rounding and carries happen
static int64_t gen_value(Case &c, uint64_t scale, int64_t lo, int64_t hi) {
  wide v;
  switch(c.weighted({25, 30, 25, 10, 10})) {
    case 0: v = c.range(-3000, 3000); break;
    case 1: { wide whole = c.range(-2000, 2000), p = p10((int)c.below(7)); v = whole * (wide)scale + (c.chance(50) ? -1 : 1) * ((wide)scale * (p - 1) / p + c.range(-2, 2)); break; }
    case 2: { wide whole = c.range(-200, 200), p = 2 * p10((int)c.below(8)); v = whole * (wide)scale + (wide)scale * c.range(-9, 9) / p + c.range(-1, 1); break; }
    case 3: v = c.chance(50) ? (wide)hi - c.below(3) : (wide)lo + c.below(3); break;
    default: v = c.range(lo, hi);
  }
  return v < lo ? lo : v > hi ? hi : (int64_t)v;
}
// value of printed text times 10^places; false if it is not a number
static bool parse_dec(const std::string &t, wide *n, int *places, bool *neg) {
  size_t i = 0; *neg = false; *n = 0; *places = 0; if(i < t.size() && t[i] == '-') { *neg = true; i++; }
  size_t d0 = i; while(i < t.size() && isdigit((unsigned char)t[i])) *n = *n * 10 + (t[i++] - '0'); if(i == d0 || (i - d0 > 1 && t[d0] == '0')) return false;
  if(i < t.size() && t[i] == '.') { i++; size_t f0 = i; while(i < t.size() && isdigit((unsigned char)t[i])) *n = *n * 10 + (t[i++] - '0'); *places = (int)(i - f0); if(i == f0) return false; }
  if(*neg) *n = -*n; return i == t.size();
}
static void fixed_text(Case &c) {
  bool sgn = c.chance(60); uint64_t scale = gen_scale(c); int64_t v = sgn ? gen_value(c, scale, c.chance(70) ? INT32_MIN : INT64_MIN + 1, c.chance(70) ? INT32_MAX : INT64_MAX) : gen_value(c, scale, 0, UINT32_MAX);
  int places = sgn ? (int)c.range(-1, 10) : (int)c.range(0, 10), pad = c.chance(40) ? 0 : (int)c.range(-30, 30);
  size_t n = c.chance(60) ? 80 : 1 + c.below(36), used = n > 4 && c.chance(40) ? c.below(4) : 0; Exact b(n); b.p[0] = 0; AppendRange r; range_init(&r, b.p, n); for(size_t i = 0; i < used; i++) range_cat_char(&r, '#');
  int ret = sgn ? range_cat_fixed_padded(&r, (long)v, (unsigned)scale, places, pad) : range_cat_ufixed_padded(&r, (unsigned)v, (unsigned)scale, (unsigned)places, pad);
  // The same without padding and with plenty of room gives the digits
  Exact big(200); AppendRange rb; range_init(&rb, big.p, 200); int len = sgn ? range_cat_fixed(&rb, (long)v, (unsigned)scale, places) : range_cat_ufixed(&rb, (unsigned)v, (unsigned)scale, (unsigned)places);
  std::string num = big.str(); REQUIRE(len == (int)num.size() && rb.start == big.p + len, "formatting %s returned %d", num.c_str(), len);
  c.note("%s %lld / %llu, %d places, padded to %d, %zu bytes free: %d, %s", sgn ? "signed" : "unsigned", (long long)v, (unsigned long long)scale, places, pad, n - used, ret, num.c_str());
  wide got; int d; bool neg; REQUIRE(parse_dec(num, &got, &d, &neg), "%s is not a decimal number", num.c_str());
  int D = digits_for(scale), want = places < 0 ? D : places; REQUIRE(d <= want || (places > 0 && d == 1 && D == 0), "%d fraction places asked for, %s has %d", places, num.c_str(), d); REQUIRE(d >= std::min(want, D), "%d fraction places asked for (%d are exact), %s has %d", places, D, num.c_str(), d);
  wide direct = half_away((wide)v * p10(d), (wide)scale), twice = d < D ? half_away(half_away((wide)v * p10(D), (wide)scale), p10(D - d)) : direct;
  REQUIRE(got == direct || got == twice, "%lld / %llu is written as %s", (long long)v, (unsigned long long)scale, num.c_str());
  REQUIRE(!neg || v < 0, "%lld / %llu is written as %s", (long long)v, (unsigned long long)scale, num.c_str());
  int width = std::max(std::abs(pad), len); std::string pre(used, '#'), full = pad < 0 ? num + std::string((size_t)(width - len), ' ') : std::string((size_t)(width - len), ' ') + num;
  if((size_t)width + 1 <= n - used) {
    REQUIRE(ret == width, "%d bytes were written, %d returned", width, ret); REQUIRE(b.str() == pre + full && r.start == b.p + used + width, "buffer holds %s, expected %s", quote(b.str().c_str(), b.str().size()).c_str(), quote(full.c_str(), full.size()).c_str());
  } else { REQUIRE(ret == -width, "%d bytes are needed, %d returned", width, ret); REQUIRE(std::string(b.p, used) == pre, "earlier text was damaged"); REQUIRE(b.terminated(), "no terminator"); }
  c.nontrivial(scale > 1 && v != 0 && (wide)v % (wide)scale != 0);
}
static void fixed_parts(Case &c) {
  uint64_t scale = gen_scale(c); bool nt = false;
  switch(c.below(6)) {
    case 0: { // to integer and fraction, then to fewer places
      int64_t v = gen_value(c, scale, INT64_MIN + 1, INT64_MAX); int places = (int)c.range(-1, 10), D = digits_for(scale); long i, f; int d = to_fixed_base10_parts((long)v, scale, &i, &f);
      wide n = half_away((wide)v * p10(D), (wide)scale); c.note("parts of %lld / %llu: %ld %ld E-%d", (long long)v, (unsigned long long)scale, i, f, d);
      REQUIRE(d == D && (wide)i == n / p10(D) && (wide)f == n % p10(D), "parts of %lld / %llu: %ld and %ld with %d digits", (long long)v, (unsigned long long)scale, i, f, d);
      long i2 = i, f2 = f; int d2 = fixed_base10_adjust(&i2, &f2, d, places); int e = places < 0 || places >= D ? D : places; wide m = half_away(n, p10(D - e));
      REQUIRE(d2 <= e && wabs(f2) < p10(d2) && ((wide)i2 * p10(d2) + f2) * p10(e - d2) == m, "%ld %ld E-%d to %d places gives %ld %ld E-%d", i, f, d, places, i2, f2, d2);
      wide all = m; if(wabs(all) < INT64_MAX) { int x; long w = to_fixed_base10((long)v, scale, places, &x); REQUIRE(x <= 0 && -x <= e && (wide)w * p10(e + x) == m, "%lld / %llu to %d places gives %ld E%d", (long long)v, (unsigned long long)scale, places, w, x); }
      nt = e > 0 && v; break; }
    case 1: { // rounding of arbitrary decimal numbers
      int D = (int)c.range(0, 17), places = (int)c.range(-1, 18); wide n = gen_value(c, (uint64_t)p10(D > 9 ? 9 : D), -INT64_MAX / 2, INT64_MAX / 2); long i = (long)(n / p10(D)), f = (long)(n % p10(D)), i2 = i, f2 = f;
      int d = fixed_base10_adjust(&i2, &f2, D, places); int e = places < 0 || places >= D ? D : places; wide m = half_away(n, p10(D - e)); c.note("%ld %ld E-%d to %d places: %ld %ld E-%d", i, f, D, places, i2, f2, d);
      REQUIRE(d <= e && wabs(f2) < p10(d) && ((wide)i2 * p10(d) + f2) * p10(e - d) == m, "%ld %ld E-%d to %d places gives %ld %ld E-%d", i, f, D, places, i2, f2, d);
      nt = e < D && n; break; }
    case 2: { // to integers
      if(c.chance(50)) { unsigned s = c.chance(20) ? (unsigned)c.range(1, UINT32_MAX) : (unsigned)scale, v = c.chance(30) ? UINT32_MAX - (unsigned)c.below(3) : (unsigned)gen_value(c, s, 0, UINT32_MAX), q = ufixed_to_uint(v, s); c.note("%u / %u to %u", v, s, q); REQUIRE((wide)q == half_away(v, s), "%u / %u = %u", v, s, q); nt = s > 1 && v; }
      else { unsigned s = c.chance(20) ? (unsigned)c.range(1, INT32_MAX) : (unsigned)scale; int v = (int)gen_value(c, s, INT32_MIN, INT32_MAX), q = fixed_to_int(v, s); c.note("%d / %u to %d", v, s, q); REQUIRE((wide)q == half_away(v, s), "%d / %u = %d", v, s, q); nt = s > 1 && v; }
      break; }
    default: { // SI prefixes
      int ex = (int)c.range(-18, 20); bool two = c.chance(40); if(two || c.chance(30)) ex = 0; unsigned s = (unsigned)(c.chance(50) ? p10((int)c.below(6)) : 1 + c.below(70000)); static const char pf[] = "afpnum kMGTPE";
      int mod = ((ex % 3) + 3) % 3; wide lim = (wide)INT64_MAX / (wide)s / p10(mod) / 2; int64_t base = two ? 1024 : 1000, v;
      if(c.chance(60)) { wide w = 1; int k = (int)c.below(7); while(k-- > 0 && w * base < lim) w *= base; w = w * c.range(1, base) / c.range(1, 3) + c.range(-2, 2); if(c.chance(50)) w = -w; v = (int64_t)(w > lim ? lim : w < -lim ? -lim : w); } else v = (int64_t)(c.chance(50) ? c.range(-5000, 5000) : (wide)c.range(INT64_MIN + 1, INT64_MAX) % (lim + 1));
      if(wabs(v) > lim) v = (int64_t)lim;
      char ch = 'x'; long got = to_fixed_si((long)v, ex, s, &ch, two); c.note("%lld E%d scaled by %u%s: %ld '%c'", (long long)v, ex, s, two ? " binary" : "", got, ch ? ch : '0');
      const char *at = ch && ch != ' ' ? strchr(pf, ch) : pf + 6; REQUIRE(at, "prefix %d", ch); int k = (int)(at - pf) - 6, k0 = (ex - mod) / 3; REQUIRE(k >= k0, "%lld E%d gets prefix '%c'", (long long)v, ex, ch);
      wide den = 1; for(int i = k0; i < k; i++) den *= (ex == 0 && two ? 1024 : 1000); wide num = (wide)v * p10(mod);
      REQUIRE((wide)got == half_away(num * s, den), "%lld E%d scaled by %u is %ld '%c'", (long long)v, ex, s, got, ch ? ch : ' ');
      REQUIRE(k == k0 || wabs(num) >= den, "%lld E%d gets the larger prefix '%c'", (long long)v, ex, ch ? ch : ' '); REQUIRE(k == 6 || wabs(num) < den * (ex == 0 && two ? 1024 : 1000), "%lld E%d gets the smaller prefix '%c'", (long long)v, ex, ch ? ch : ' ');
      nt = k > k0; break; }
  }
  c.nontrivial(nt);
}
static uint32_t gen_u32(Case &c) {
  switch(c.below(4)) { case 0: return 1u + (uint32_t)c.below(300); case 1: { uint32_t p = 1u << c.below(32); return std::max(1u, p + (uint32_t)c.range(-1, 1)); } case 2: { wide p = p10((int)c.below(10)) + c.range(-1, 1); return (uint32_t)std::max<wide>(1, p); } default: return (uint32_t)c.range(1, UINT32_MAX); }
}
static void int_math(Case &c) {
  uint32_t n = gen_u32(c); c.note("n = %u", n);
  { uint32_t f = floor_pow2(n); REQUIRE(f && !(f & (f - 1)) && f <= n && n - f < f, "floor_pow2(%u) = %u", n, f); }
  if(n <= 0x80000000u) { uint32_t f = ceil_pow2(n); REQUIRE(f && !(f & (f - 1)) && f >= n && f / 2 < n, "ceil_pow2(%u) = %u", n, f); }
  { unsigned l = ilog10(n); REQUIRE(p10((int)l) <= n && n < p10((int)l + 1), "ilog10(%u) = %u", n, l); REQUIRE(base10_digits(n) == l + 1 && base10_digits(0) == 1, "base10_digits(%u) = %u", n, base10_digits(n)); }
  { unsigned b = c.chance(50) ? 2 + (unsigned)c.below(40) : std::max(2u, gen_u32(c)), l = ilog_b(n, b); wide p = 1; unsigned k = 0; while(p * b <= n) { p *= b; k++; } REQUIRE(l == k && ilog_b(0, b) == 0, "ilog_b(%u, %u) = %u", n, b, l); }
  { unsigned e = (unsigned)c.below(33); int32_t l = log2_fixed(n, e); double x = (log2((double)n) - e) * 32768; REQUIRE(fabs(l - x) <= 3, "log2_fixed(%u, %u) = %d, expected %.1f", n, e, l, x); }
  { unsigned e = 2 * (unsigned)c.below(24); uint64_t v = (c.chance(50) ? (uint64_t)n : ((uint64_t)gen_u32(c) << 32 | n)) >> c.below(40); if(e == 0 && c.chance(50)) v = (uint64_t)n * n + (uint64_t)c.range(-1, 1); uint64_t q = isqrt_fixed(v, e);
    long double x = sqrtl((long double)v) * ldexpl(1, (int)e / 2); c.note("isqrt_fixed(%llu, %u) = %llu", (unsigned long long)v, e, (unsigned long long)q); REQUIRE(fabsl((long double)q - x) <= 1.0L, "isqrt_fixed(%llu, %u) = %llu, expected %.2Lf", (unsigned long long)v, e, (unsigned long long)q, x); }
  c.nontrivial(n > 2);
}
static int16_t gen_coord(Case &c) { switch(c.below(4)) { case 0: return (int16_t)c.range(-50, 50); case 1: return (int16_t)(c.chance(50) ? INT16_MIN + (int)c.below(4) : INT16_MAX - (int)c.below(4)); case 2: return (int16_t)c.range(0, INT16_MAX); default: return (int16_t)c.range(INT16_MIN, INT16_MAX); } }
static uint16_t gen_t(Case &c) { return c.chance(30) ? (uint16_t)(c.chance(50) ? 65535 - c.below(3) : c.below(3)) : (uint16_t)c.below(65536); }
static double bez(double a, double b, double d, double t) { double u = 1 - t; return u * u * a + 2 * u * t * b + t * t * d; }
static void curves(Case &c) {
  Point16 p[3]; for(auto &q : p) { q.x = gen_coord(c); q.y = gen_coord(c); } uint16_t t = gen_t(c); double ft = t / 65536.0;
  c.note("points %d,%d %d,%d %d,%d at %u", p[0].x, p[0].y, p[1].x, p[1].y, p[2].x, p[2].y, t);
  { Point16 q = interpolate_points(p[0], p[1], t); double x = p[0].x + ft * (p[1].x - p[0].x), y = p[0].y + ft * (p[1].y - p[0].y); REQUIRE(fabs(q.x - x) <= 1 && fabs(q.y - y) <= 1, "interpolated point %d,%d, expected %.1f,%.1f", q.x, q.y, x, y); REQUIRE(q.x >= std::min(p[0].x, p[1].x) && q.x <= std::max(p[0].x, p[1].x), "interpolated outside of the points"); }
  { Point16 q = quadratic_bezier(p[0], p[1], p[2], t); double x = bez(p[0].x, p[1].x, p[2].x, ft), y = bez(p[0].y, p[1].y, p[2].y, ft); REQUIRE(fabs(q.x - x) <= 3 && fabs(q.y - y) <= 3, "curve point %d,%d, expected %.1f,%.1f", q.x, q.y, x, y); REQUIRE(quadratic_eval(p[0].x, p[1].x, p[2].x, t) == q.x, "curve and polynomial differ"); }
  std::sort(p, p + 3, [](const Point16 &a, const Point16 &b) { return a.x < b.x; }); int16_t x = c.chance(10) ? gen_coord(c) : (int16_t)c.range(p[0].x, p[2].x);
  auto at = [&](uint16_t u) { return bez(p[0].x, p[1].x, p[2].x, u / 65536.0); };
  { uint16_t u = bezier_search_t(p[0], p[1], p[2], x); double want = std::min<double>(std::max(x, p[0].x), p[2].x); c.note("x %d found at %u: %.1f", x, u, at(u)); REQUIRE(fabs(at(u) - want) <= 6, "x %d is found at %u, where the curve is at %.1f", x, u, at(u)); }
  if(p[0].x >= 0 && x >= p[0].x && x <= p[2].x) { uint16_t u = bezier_solve_t(p[0].x, p[1].x, p[2].x, x); c.note("x %d solved at %u: %.1f", x, u, at(u)); c.label("solved"); REQUIRE(fabs(at(u) - x) <= 128, "x %d is solved at %u, where the curve is at %.1f", x, u, at(u)); }
  c.nontrivial(p[0].x < p[1].x && p[1].x < p[2].x);
}

const Prop pbt::props[] = {
  { "U26", dhash_prop, 500000, 5000000, 5, 30, "" },
  { "U27.append", ranges, 1500000, 10000000, 5, 30, "" },
  { "U27.view", range_views, 800000, 5000000, 5, 30, "" },
  { "U27.token", tokens, 800000, 5000000, 5, 30, "" },
  { "U28.text", fixed_text, 600000, 6000000, 5, 30, "" },
  { "U28.parts", fixed_parts, 1500000, 10000000, 5, 30, "" },
  { "U28.int", int_math, 1500000, 10000000, 5, 30, "" },
  { "U28.curve", curves, 1500000, 10000000, 5, 30, "" },
  { "U29", searching, 6000000, 20000000, 5, 30, "" },
  { nullptr, nullptr, 0, 0, 0, 0, nullptr }
};
