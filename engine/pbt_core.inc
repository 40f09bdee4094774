// Shared by the runner and the libFuzzer front end.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <mutex>
#include <unordered_map>

namespace pbt {
static void (*label_sink)(const char *) = nullptr;
static int trace_fd = -1;

static inline uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
void Case::start_random(uint64_t seed, uint8_t *storage) { rng_ = seed; rec_ = storage; pos_ = 0; }
void Case::start_replay(const uint8_t *d, size_t n) { static const uint8_t none = 0; rep_ = n ? d : &none; len_ = n; pos_ = 0; }
uint8_t Case::next() {
  uint8_t b = 0;
  if(rep_) { if(pos_ < len_) b = rep_[pos_]; pos_++; }
  else {
    if(pos_ < TAPE_MAX) {
      rng_ += 0x9E3779B97F4A7C15ull; b = (uint8_t)(mix64(rng_) >> 56);
      rec_[pos_++] = b; if(shared_len) *shared_len = (uint32_t)pos_;
    }
  }
  return b;
}
void Case::mix(uint64_t v) { h_ = mix64(h_ ^ v) + 0x9E3779B97F4A7C15ull; }
uint64_t Case::below(uint64_t n) {
  if(n <= 1) return 0;
  uint64_t v;
  if(n <= 256) v = next();
  else if(n <= 65536) { v = next(); v |= (uint64_t)next() << 8; }
  else { int k = n <= (1ull<<32) ? 4 : 8; v = 0; for(int i = 0; i < k; i++) v |= (uint64_t)next() << (8*i); }
  v %= n; mix(v); return v;
}
int64_t Case::range(int64_t lo, int64_t hi) {
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  if(span == UINT64_MAX) { uint64_t v = 0; for(int i = 0; i < 8; i++) v |= (uint64_t)next() << (8*i); mix(v); return (int64_t)(lo + v); }
  return (int64_t)((uint64_t)lo + below(span + 1));
}
bool Case::chance(unsigned pct) { return below(100) >= 100 - (pct > 100 ? 100 : pct); }
size_t Case::weighted(std::initializer_list<unsigned> w) {
  unsigned tot = 0; for(unsigned x : w) tot += x;
  unsigned v = (unsigned)below(tot); size_t i = 0;
  for(unsigned x : w) { if(v < x) return i; v -= x; i++; }
  return 0;
}
size_t Case::size(size_t max) {
  if(max == 0) return 0;
  switch(below(4)) {
    case 0: return below(max < 4 ? max+1 : 4);
    case 1: return below(max < 16 ? max+1 : 16);
    case 2: return below(max+1);
    default: { size_t k = below(max < 4 ? max+1 : 4); return max - k; }
  }
}
std::string Case::chars(const std::string &a, size_t mn, size_t mx) {
  size_t n = mn + size(mx - mn); std::string s; for(size_t i = 0; i < n; i++) s += a[below(a.size())]; return s;
}
std::vector<uint8_t> Case::blob(size_t len) {
  uint64_t s = below(65536) * 0x9E3779B97F4A7C15ull + 7; std::vector<uint8_t> v(len);
  for(size_t i = 0; i < len; i++) v[i] = (uint8_t)(mix64(s + i/8) >> (8*(i%8)));
  return v;
}
void Case::note(const char *fmt, ...) {
  if(!tracing) return;
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  trace += b; trace += '\n';
  if(trace_fd >= 0) { std::string s = std::string(b) + "\n"; if(write(trace_fd, s.data(), s.size())) {} }
}
void Case::label(const char *l) { if(label_sink) label_sink(l); }
void fail(const char *fmt, ...) {
  char b[3500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw Failure{b};
}
std::string quote(const void *p, size_t n) {
  std::string o = "\""; const uint8_t *d = (const uint8_t *)p; size_t lim = n > 160 ? 160 : n;
  for(size_t i = 0; i < lim; i++) { char b[8]; if(d[i] >= 0x20 && d[i] < 0x7f && d[i] != '"' && d[i] != '\\') o += (char)d[i]; else { snprintf(b, sizeof b, "\\x%02x", d[i]); o += b; } }
  o += '"'; if(n > lim) o += "...(" + std::to_string(n) + " bytes)"; return o;
}

// ---- allocator shims: repository objects are linked against these names ----
static std::mutex a_mu;
static long a_count = 0, a_fail = 0; static bool a_failed = false;
static std::unordered_map<void *, size_t> *a_live = nullptr;
static bool a_should_fail() { a_count++; if((a_fail > 0 && a_count == a_fail) || (a_fail < 0 && a_count >= -a_fail)) { a_failed = true; return true; } return false; }
void alloc_reset() { std::lock_guard<std::mutex> g(a_mu); if(!a_live) a_live = new std::unordered_map<void *, size_t>; a_live->clear(); a_count = 0; a_fail = 0; a_failed = false; }
void alloc_fail_at(long n) { std::lock_guard<std::mutex> g(a_mu); a_count = 0; a_fail = n; a_failed = false; }
bool alloc_failed() { return a_failed; }
long alloc_count() { return a_count; }
size_t alloc_live() { std::lock_guard<std::mutex> g(a_mu); return a_live ? a_live->size() : 0; }
static void a_add(void *p, size_t n) { if(!a_live) a_live = new std::unordered_map<void *, size_t>; if(p) (*a_live)[p] = n; }
}
extern "C" {
void *vp_malloc(size_t n) { { std::lock_guard<std::mutex> g(pbt::a_mu); if(pbt::a_should_fail()) return nullptr; } void *p = malloc(n); if(p) memset(p, 0xA5, n); std::lock_guard<std::mutex> g(pbt::a_mu); pbt::a_add(p, n); return p; }
void *vp_calloc(size_t a, size_t b) { { std::lock_guard<std::mutex> g(pbt::a_mu); if(pbt::a_should_fail()) return nullptr; } void *p = calloc(a, b); std::lock_guard<std::mutex> g(pbt::a_mu); pbt::a_add(p, a*b); return p; }
void vp_free(void *p) { if(p) { std::lock_guard<std::mutex> g(pbt::a_mu); if(pbt::a_live) pbt::a_live->erase(p); } free(p); }
void *vp_realloc(void *o, size_t n) { { std::lock_guard<std::mutex> g(pbt::a_mu); if(pbt::a_should_fail()) return nullptr; if(o && pbt::a_live) pbt::a_live->erase(o); } void *p = realloc(o, n); std::lock_guard<std::mutex> g(pbt::a_mu); pbt::a_add(p, n); return p; }
}
