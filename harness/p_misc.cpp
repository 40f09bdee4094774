// Support library: byte order access, bounded string copies, command line options.
#include "common.h"
#include <algorithm>
#include <cctype>
#include <map>
#include <type_traits>
#include "evfs/util/unaligned_access.h"
extern "C" {
#include "evfs/util/getopt_r.h"
size_t strlcpy(char *dst, const char *src, size_t size) noexcept; size_t strlcat(char *dst, const char *src, size_t size) noexcept; size_t strxcpy(char *dst, const char *src, size_t size);
#define DECL(T, N) T gen_get_##N(const void *); T gen_get_be_##N(const void *); T gen_get_le_##N(const void *); void gen_set_##N(T, void *); void gen_set_be_##N(T, void *); void gen_set_le_##N(T, void *);
DECL(uint16_t, u16) DECL(int16_t, s16) DECL(uint32_t, u32) DECL(int32_t, s32) DECL(uint64_t, u64) DECL(int64_t, s64)
}
using namespace pbt;
void pbt::harness_setup() { evfs_init(); }

// ------------------------------------------------------------ U32 byte order
template<class T> static void one_width(Case &c, const char *name, T (*get)(const void *), T (*getb)(const void *), T (*getl)(const void *), void (*set)(T, void *), void (*setb)(T, void *), void (*setl)(T, void *)) {
  constexpr size_t W = sizeof(T); using U = typename std::make_unsigned<T>::type;
  U v = 0; for(size_t i = 0; i < W; i++) { static const uint8_t sp[] = { 0, 1, 0x7f, 0x80, 0xff }; v = (U)((uint64_t)v << 8) | (c.chance(40) ? c.pick(sp) : c.byte()); }
  size_t off = c.below(8), tail = c.below(4); Exact b(off + W + tail); std::string orig(b.p, b.n); char *p = b.p + off;
  c.note("%s %llx at offset %zu", name, (unsigned long long)v, off);
  for(int order = 0; order < 3; order++) for(int with = 0; with < 2; with++) {
    std::string want = orig; for(size_t i = 0; i < W; i++) want[off + (order == 1 ? W - 1 - i : i)] = (char)(v >> (8 * i)); // native order is little endian here
    memcpy(b.p, orig.data(), b.n);
    if(with == 0) (order == 0 ? set : order == 1 ? setb : setl)((T)v, p); else if(order == 0) ::set_unaligned<T>((T)v, p); else if(order == 1) ::set_unaligned_be<T>((T)v, p); else ::set_unaligned_le<T>((T)v, p);
    REQUIRE(std::string(b.p, b.n) == want, "storing %s %llx as %s gives %s", name, (unsigned long long)v, order == 0 ? "native" : order == 1 ? "big endian" : "little endian", quote(p, W).c_str());
    T got = with == 0 ? (order == 0 ? get : order == 1 ? getb : getl)(p) : order == 0 ? ::get_unaligned<T>((const T *)p) : order == 1 ? ::get_unaligned_be<T>((const T *)p) : ::get_unaligned_le<T>((const T *)p);
    REQUIRE(got == (T)v, "loading %s %llx as %s gives %llx", name, (unsigned long long)v, order == 0 ? "native" : order == 1 ? "big endian" : "little endian", (unsigned long long)(U)got);
  }
  c.nontrivial(v != 0);
}
#define FNS(T, N) one_width<T>(c, #T, [](const void *p) -> T { return get_unaligned_##N(p); }, [](const void *p) -> T { return get_unaligned_##N##be(p); }, [](const void *p) -> T { return get_unaligned_##N##le(p); }, set_unaligned_##N, set_unaligned_##N##be, set_unaligned_##N##le)
#define GEN(T, N) one_width<T>(c, #T " (generic)", gen_get_##N, gen_get_be_##N, gen_get_le_##N, gen_set_##N, gen_set_be_##N, gen_set_le_##N)
static void bytes(Case &c) {
  switch(c.below(12)) {
    case 0: FNS(uint16_t, u16); break; case 1: FNS(int16_t, s16); break; case 2: FNS(uint32_t, u32); break; case 3: FNS(int32_t, s32); break; case 4: FNS(uint64_t, u64); break; case 5: FNS(int64_t, s64); break;
    case 6: GEN(uint16_t, u16); break; case 7: GEN(int16_t, s16); break; case 8: GEN(uint32_t, u32); break; case 9: GEN(int32_t, s32); break; case 10: GEN(uint64_t, u64); break; default: GEN(int64_t, s64); break;
  }
}

// ------------------------------------------------------------ U32 bounded copies
static void copies(Case &c) {
  std::string s = c.chars("ab /", 0, 12); size_t n = c.chance(20) ? s.size() + c.below(3) : c.below(16); Exact d(n), src(s); int op = (int)c.below(3);
  c.note("%s of %zu bytes to %zu", op == 0 ? "strlcpy" : op == 1 ? "strxcpy" : "strlcat", s.size(), n);
  if(op == 0) {
    size_t r = strlcpy(d.p, src.p, n); REQUIRE(r == s.size(), "strlcpy returned %zu for %zu bytes", r, s.size());
    if(n) REQUIRE(d.terminated() && d.str() == s.substr(0, n - 1), "strlcpy to %zu bytes gives %s", n, quote(d.p, n).c_str());
  } else if(op == 1) { // the source need not end where the copied part does
    bool sub = c.chance(60); size_t len = sub ? c.below(s.size() + 1) : s.size(); Exact part(s.data(), len); if(sub) n = std::min(n, len + 1); if(sub && c.chance(40)) n = len + 1; Exact e(n);
    size_t r = strxcpy(e.p, sub ? part.p : src.p, n); std::string want = n ? s.substr(0, std::min(n - 1, len)) : ""; c.note("%zu of them, %zu bytes", len, n);
    REQUIRE(r == want.size() && (n == 0 || (e.terminated() && e.str() == want)), "strxcpy to %zu bytes returned %zu", n, r);
  } else {
    std::string old = c.chars("xyz", 0, c.chance(20) ? n + 1 : n ? n - 1 : 0); memcpy(d.p, old.data(), std::min(n, old.size())); if(old.size() < n) d.p[old.size()] = 0; else old.resize(n);
    std::string before(d.p, n); size_t r = strlcat(d.p, src.p, n);
    if(n == 0) REQUIRE(r >= n, "strlcat returned %zu", r); else REQUIRE(r == old.size() + s.size(), "strlcat of %zu to %zu bytes returned %zu", s.size(), old.size(), r);
    if(old.size() < n) REQUIRE(d.terminated() && d.str() == (old + s).substr(0, n - 1), "strlcat gives %s", quote(d.p, n).c_str()); else REQUIRE(std::string(d.p, n) == before, "strlcat changed a full buffer");
  }
  c.nontrivial(n > 1 && s.size() + 1 >= n);
}

// ------------------------------------------------------------ U30 options
struct Ev { int ret; bool has; std::string arg; int opt, ix; };
struct Opts { std::string optstring; std::vector<option> longs; std::vector<std::string> names; int flags[4]; };
static void gen_opts(Case &c, Opts &o, bool usage) {
  if(c.chance(30)) o.optstring = ":"; const char *sh = "abcdef"; for(const char *p = sh; *p; p++) if(c.chance(60)) { o.optstring += *p; o.optstring += c.pick({ "", ":", "::" }); }
  static const char *ln[] = { "alpha", "al", "beta", "b", "gamma-ray", "delta", "opt" }; o.names.reserve(8); memset(o.flags, 0, sizeof o.flags); int nf = 0;
  if(c.chance(80)) for(auto n : ln) if(c.chance(60)) { o.names.push_back(n); bool fl = nf < 4 && c.chance(30); int val = usage && c.chance(20) ? (int)c.range(0, 3000) : fl ? 40 + nf : c.chance(70) ? n[0] : 200 + (int)c.below(500); if(!fl && val == 0) val = 1; o.longs.push_back({ o.names.back().c_str(), (int)c.below(3), fl ? &o.flags[nf++] : nullptr, val }); }
}
static void parsing(Case &c) {
  Opts o; gen_opts(c, o, false); bool permute = c.chance(60), longs = !o.longs.empty(); o.longs.push_back({ nullptr, 0, nullptr, 0 });
  std::vector<std::string> args; size_t n = c.below(8);
  for(size_t i = 0; i < n; i++) switch(c.weighted({30, 30, 20, 5, 4, 3})) {
    case 0: { std::string a = "-"; size_t k = 1 + c.below(3); while(k--) a += c.chance(8) ? ":=-z"[c.below(4)] : "abcdef"[c.below(6)]; if(a.substr(0, 2) == "--") a = "-a"; if(c.chance(20)) a += "val"; args.push_back(a); break; }
    case 1: { if(!longs) { args.push_back("w"); break; } std::string a = "--" + std::string(c.chance(85) ? o.names[c.below(o.names.size())].c_str() : c.pick({ "none", "alph", "alphabet", "" })); if(c.chance(35) || a == "--") a += "=" + c.chars("v=-", 0, 3); args.push_back(a); break; }
    case 2: args.push_back(c.pick({ "x", "file", "x y", "a" })); break;
    case 3: args.push_back("-"); break;
    case 4: args.push_back(""); break;
    default: args.push_back("--"); break;
  }
  // Reference
  std::vector<Ev> want; std::vector<std::string> done, rest; size_t i = 0; auto missing = o.optstring[0] == ':' ? ':' : '?';
  auto next = [&](std::string &to) { if(i >= args.size()) return false; to = args[i]; done.push_back(args[i++]); return true; };
  while(i < args.size()) {
    std::string a = args[i];
    if(a == "--") { done.push_back(a); i++; break; }
    if(a[0] != '-' || a == "-") { if(!permute) break; rest.push_back(a); i++; continue; }
    done.push_back(a); i++;
    if(a[1] == '-') {
      size_t eq = a.find('=', 2); std::string nm = a.substr(2, eq == std::string::npos ? eq : eq - 2), v; bool has = eq != std::string::npos; if(has) v = a.substr(eq + 1); int k = -1; for(size_t j = 0; j < o.names.size(); j++) if(o.names[j] == nm) { k = (int)j; break; }
      if(k < 0) { want.push_back({ '?', false, "", 0, -1 }); continue; }
      const option &L = o.longs[(size_t)k]; int code = L.flag ? 0 : L.val;
      if(L.has_arg == no_argument && has) { want.push_back({ '?', false, "", code, -1 }); continue; }
      if(L.has_arg == required_argument && !has) { has = next(v); if(!has) { want.push_back({ missing, false, "", code, -1 }); continue; } }
      want.push_back({ code, has, v, -1, k });
    } else for(size_t k = 1; k < a.size(); k++) {
      size_t at = a[k] == ':' ? std::string::npos : o.optstring.find(a[k]); if(at == std::string::npos) { want.push_back({ '?', false, "", a[k], -1 }); continue; }
      auto col = [&](size_t j) { return at + j < o.optstring.size() && o.optstring[at + j] == ':'; };
      if(!col(1)) { want.push_back({ a[k], false, "", a[k], -1 }); continue; }
      if(k + 1 < a.size()) { want.push_back({ a[k], true, a.substr(k + 1), a[k], -1 }); break; }
      std::string v; if(col(2)) { bool has = i < args.size() && args[i][0] != '-'; if(has) next(v); want.push_back({ a[k], has, v, a[k], -1 }); }
      else if(next(v)) want.push_back({ a[k], true, v, a[k], -1 }); else want.push_back({ missing, false, "", a[k], -1 });
    }
  }
  while(i < args.size()) rest.push_back(args[i++]);
  std::string line; for(auto &a : args) line += " '" + a + "'"; std::string ls; for(auto &L : o.longs) if(L.name) ls += std::string(" ") + L.name + (L.has_arg == 1 ? "=" : L.has_arg == 2 ? "[=]" : "") + (L.flag ? "*" : "");
  c.note("options %s,%s%s; arguments%s", o.optstring.c_str(), ls.c_str(), permute ? ", permuting" : "", line.c_str());
  // Run; the array ends right after its terminator
  std::vector<Exact *> keep; Exact arr((args.size() + 2) * sizeof(char *)); char **argv = (char **)arr.p; Exact a0(std::string("prog")); argv[0] = a0.p; for(size_t k = 0; k < args.size(); k++) { keep.push_back(new Exact(args[k])); argv[k + 1] = keep.back()->p; } argv[args.size() + 1] = nullptr;
  Exact os(o.optstring); GetoptState st; getopt_init(&st); st.permute_args = permute; if(c.chance(30)) { memset(&st, 0, sizeof st); st.permute_args = permute; st.optind = 1; }
  for(size_t k = 0; k <= want.size(); k++) {
    int fl[4]; memcpy(fl, o.flags, sizeof fl); int r = longs || c.chance(50) ? getopt_long_r(argv, os.p, longs ? o.longs.data() : nullptr, &st) : getopt_r(argv, os.p, &st);
    c.note("  %d (%c) %s", r, isgraph((unsigned char)r) ? r : ' ', st.optarg ? st.optarg : "");
    if(k == want.size()) { REQUIRE(r == -1, "result %d (%c) after the last option", r, r); break; }
    const Ev &w = want[k]; REQUIRE(r == w.ret, "option %zu: result %d (%c), expected %d (%c)", k + 1, r, isgraph(r) ? r : ' ', w.ret, isgraph(w.ret) ? w.ret : ' ');
    REQUIRE(w.has ? st.optarg && w.arg == st.optarg : !st.optarg, "option %zu: argument %s, expected %s", k + 1, st.optarg ? st.optarg : "none", w.has ? w.arg.c_str() : "none");
    if(w.opt >= 0) REQUIRE(st.optopt == w.opt, "option %zu: optopt %d, expected %d", k + 1, st.optopt, w.opt); REQUIRE(st.long_index == w.ix, "option %zu: long index %d, expected %d", k + 1, st.long_index, w.ix);
    for(int f = 0; f < 4; f++) { bool set = w.ix >= 0 && o.longs[(size_t)w.ix].flag == &o.flags[f]; REQUIRE(o.flags[f] == (set ? o.longs[(size_t)w.ix].val : fl[f]), "flag %d is %d", f, o.flags[f]); }
  }
  REQUIRE(st.optind == (int)done.size() + 1, "the first operand is %d, expected %zu", st.optind, done.size() + 1);
  std::vector<std::string> all = done; all.insert(all.end(), rest.begin(), rest.end());
  for(size_t k = 0; k < all.size(); k++) REQUIRE(argv[k + 1] && all[k] == argv[k + 1], "argument %zu is %s, expected %s", k + 1, argv[k + 1] ? argv[k + 1] : "none", all[k].c_str()); REQUIRE(!argv[all.size() + 1] && argv[0] == a0.p, "the argument list lost its end");
  for(auto k : keep) delete k; c.nontrivial(want.size() >= 2);
}
static size_t count(const std::string &s, const std::string &t) { size_t n = 0, at = 0; while((at = s.find(t, at)) != std::string::npos) { // whole words
    char e = s[at + t.size()]; if(!isalnum((unsigned char)e) && e != '-') n++; at++; } return n; }
static void usage(Case &c) {
  Opts o; gen_opts(c, o, true); bool longs = !o.longs.empty(); o.longs.push_back({ nullptr, 0, nullptr, 0 }); std::string app = c.chars("pqr", 1, c.chance(15) ? 60 : 10); int cols = (int)c.range(15, 100);
  static const char *hn[] = { "alpha", "beta", "a", "b", "c", "gamma-ray", "opt", "<file>" }; std::vector<OptionHelp> h; std::vector<std::string> txt; txt.reserve(20); static const char *an[] = { nullptr, "<n>", "{red|blue|green}", "<a rather long description>" };
  for(auto n : hn) if(c.chance(60)) { txt.push_back(std::string("About ") + n + c.chars(" text", 0, 30) + "."); h.push_back({ n, txt.back().c_str(), c.pick(an), c.chance(30) ? 1u : 0u }); } h.push_back({ nullptr, nullptr, nullptr, 0 });
  const char *pos[] = { "<file>", c.chance(50) ? "<more>" : "", "" }; bool posn = c.chance(60), oom = c.chance(10); if(o.optstring[0] == ':' && c.chance(50)) o.optstring.erase(0, 1);
  c.note("app %s, options %s, %zu long, %d columns%s", app.c_str(), o.optstring.c_str(), o.longs.size() - 1, cols, oom ? ", no memory" : "");
  alloc_reset(); char *out = nullptr; size_t len = 0; FILE *ms = open_memstream(&out, &len), *old = stdout; stdout = ms; size_t live = alloc_live(); if(oom) alloc_fail_at(1);
  print_command_usage(app.c_str(), o.optstring.c_str(), longs ? o.longs.data() : nullptr, posn ? pos : nullptr, h.data(), cols); alloc_fail_at(0); (void)live;
  stdout = old; fclose(ms); std::string t(out, len); free(out); c.note("%s", t.c_str());
  size_t need = oom ? 1 : 2; REQUIRE(t.find(app) != std::string::npos, "no program name");
  for(auto &L : o.longs) if(L.name) REQUIRE(count(t, std::string("--") + L.name) >= need, "--%s appears %zu times", L.name, count(t, std::string("--") + L.name));
  for(char ch : o.optstring) if(ch != ':') REQUIRE(count(t, std::string("-") + ch) >= need, "-%c appears %zu times", ch, count(t, std::string("-") + ch));
  if(posn) for(int k = 0; *pos[k]; k++) REQUIRE(t.find(pos[k]) != std::string::npos, "%s does not appear", pos[k]);
  for(auto &x : h) if(x.name) { bool used = posn && !strcmp(x.name, pos[0]); for(auto &L : o.longs) if(L.name && !strcmp(L.name, x.name)) used = true; if(!used && strlen(x.name) == 1 && o.optstring.find(x.name[0]) != std::string::npos) { used = true; for(auto &L : o.longs) if(L.name && !L.flag && L.val == x.name[0]) used = false; } if(used) REQUIRE(t.find(x.help) != std::string::npos, "the help of %s does not appear", x.name); }
  c.nontrivial(longs && h.size() > 3);
}

const Prop pbt::props[] = {
  { "U30.parse", parsing, 800000, 8000000, 5, 30, "" },
  { "U30.usage", usage, 60000, 600000, 5, 30, "" },
  { "U32.bytes", bytes, 2000000, 10000000, 5, 30, "" },
  { "U32.copy", copies, 1500000, 10000000, 5, 30, "" },
  { nullptr, nullptr, 0, 0, 0, 0, nullptr }
};
