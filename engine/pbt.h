// Small property-based testing engine used by every harness in /verif.
//
// A property is a C++ function taking a Case.  All its random choices are drawn
// from the Case's byte tape.  The runner (pbt.cpp) produces tapes at random,
// records them in shared memory, detects failed checks, sanitizer reports,
// crashes and hangs, and shrinks the failing tape; the libFuzzer front end
// (pbt_fuzz.cpp) feeds coverage-guided bytes to the same functions.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>

namespace pbt {

constexpr size_t TAPE_MAX = 1 << 16;

struct Failure { std::string msg; };
struct Discard {};

class Case {
public:
  // mode: generate (rng used past the recorded part) or replay (zeros past the end)
  void start_random(uint64_t seed, uint8_t *storage);
  void start_replay(const uint8_t *data, size_t len);

  uint64_t below(uint64_t n);                 // 0..n-1 (0 draws nothing when n<=1)
  int64_t range(int64_t lo, int64_t hi);      // inclusive; shrinks towards lo
  bool chance(unsigned percent);              // shrinks towards false
  uint8_t byte() { return next(); }
  template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template<class T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
  // index chosen with integer weights
  size_t weighted(std::initializer_list<unsigned> w);
  // length with a small bias, occasionally near the maximum
  size_t size(size_t max);
  std::string chars(const std::string &alphabet, size_t min, size_t max);
  std::vector<uint8_t> blob(size_t len);      // pseudo-random content from a 2-byte seed

  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void nontrivial(bool v = true) { if(v) nt_ = true; }
  void label(const char *l) ;                 // distribution counter
  bool is_nontrivial() const { return nt_; }
  uint64_t hash() const { return h_; }
  void mix(uint64_t v);                       // add to the distinctness hash
  bool tracing = false;
  std::string trace;
  size_t used() const { return pos_; }
  uint64_t drawn() const { return pos_; }
  volatile uint32_t *shared_len = nullptr;
private:
  uint8_t next();
  uint8_t *rec_ = nullptr; const uint8_t *rep_ = nullptr;
  size_t len_ = 0, pos_ = 0;
  uint64_t rng_ = 0, h_ = 1469598103934665603ull;
  bool nt_ = false;
};

using PropFn = void (*)(Case &);

struct Prop {
  const char *id;        // property id, or id.part
  PropFn fn;
  uint64_t quick;        // cases in the quick tier
  uint64_t thorough;     // cases in the thorough tier
  double cpu_limit;      // CPU seconds allowed per case (hang detection)
  double wall_limit;     // wall seconds without progress (deadlock detection)
  const char *rule;
};
// Every harness defines this table, ended by id == nullptr.
extern const Prop props[];
// Harness one-time process setup (called in every worker before the first case).
void harness_setup();

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void discard() { throw Discard{}; }

#define REQUIRE(cond, ...) do { if(!(cond)) ::pbt::fail(__VA_ARGS__); } while(0)

std::string quote(const void *p, size_t n);
inline std::string quote(const std::string &s) { return quote(s.data(), s.size()); }

// ---- allocation accounting and fault injection for code under test ----
// The repository's objects have malloc/calloc/realloc/free redirected here.
void alloc_reset();                 // forget outstanding blocks, no faults
void alloc_fail_at(long n);         // the n-th allocation from now (1-based) fails; 0 = never; -n = all from the n-th
bool alloc_failed();                // did the injected failure happen
long alloc_count();                 // allocations since the last reset/fail_at
size_t alloc_live();                // blocks allocated by the code and not freed
extern "C" size_t vp_live_blocks(void);

} // namespace pbt
#endif
