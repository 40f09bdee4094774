#include "coop.h"
#include <pthread.h>
#ifdef USE_C11_THREADS
#include <threads.h>
#endif
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

namespace sched {
struct Mutex { pthread_mutex_t *m; int owner; bool alive; };     // owner: thread index, -1 free, -2 main
constexpr int NM = 512, NT = 8;
static Mutex mx[NM]; static int nmx = 0;
static __thread int me = -2;
static volatile int go[NT];
static bool finished[NT]; static pthread_mutex_t *waiting[NT];
static int nthreads = 0, current = -2;
static std::vector<Preempt> *plan_ = nullptr; static size_t plan_pos = 0; static unsigned plan_left = 0;
static unsigned n_switch = 0, n_preempt = 0, n_held[NT + 1];
static unsigned long clock_ = 0;
static char prob[200]; static bool has_prob = false;

static void futex_wait(volatile int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void give(int t) { __atomic_store_n(&go[t], 1, __ATOMIC_RELEASE); futex_wake(&go[t]); }
static void await() { while(!__atomic_load_n(&go[me], __ATOMIC_ACQUIRE)) futex_wait(&go[me], 0); go[me] = 0; }
static void die(const char *what) { fprintf(stderr, "SCHED: %s\n", what); fflush(stderr); abort(); }
static void complain(const char *what) { if(!has_prob) { has_prob = true; snprintf(prob, sizeof prob, "%s", what); fprintf(stderr, "SCHED: %s\n", what); } }

static Mutex *find(pthread_mutex_t *m) {
  for(int i = 0; i < nmx; i++) if(mx[i].m == m) return &mx[i];
  if(nmx == NM) { for(int i = 0; i < nmx; i++) if(!mx[i].alive) { mx[i] = mx[--nmx]; break; } if(nmx == NM) die("too many locks"); }
  mx[nmx] = Mutex{m, -1, true}; return &mx[nmx++];
}
static bool runnable(int t) {
  if(finished[t]) return false;
  if(!waiting[t]) return true;
  return find(waiting[t])->owner == -1;
}
static void to(int t) { if(t == me) return; n_switch++; current = t; give(t); await(); }
static int other(int prefer) {
  for(int i = 0; i < nthreads; i++) { int t = (prefer + i) % nthreads; if(t != me && runnable(t)) return t; }
  return -1;
}
void point() {
  if(me < 0 || nthreads == 0) return;
  if(plan_pos >= plan_->size()) return;
  if(plan_left) { plan_left--; return; }
  int t = (int)((*plan_)[plan_pos].to % (unsigned)nthreads);
  plan_pos++; if(plan_pos < plan_->size()) plan_left = (*plan_)[plan_pos].after;
  t = other(t); if(t >= 0) { n_preempt++; to(t); }
}
int self() { return me < 0 ? -1 : me; }
unsigned long stamp() { return ++clock_; }
unsigned held() { return n_held[me < 0 ? NT : me]; }
unsigned switches() { return n_switch; }
unsigned preemptions() { return n_preempt; }
const char *problem() { return has_prob ? prob : nullptr; }
void reset() { has_prob = false; prob[0] = 0; n_switch = n_preempt = 0; clock_ = 0; memset(n_held, 0, sizeof n_held); }
void check_quiet() { for(int i = 0; i < nmx; i++) if(mx[i].owner != -1) { complain("a lock is still held"); mx[i].owner = -1; pthread_mutex_unlock(mx[i].m); } }

static std::vector<std::function<void()>> *bodies;
static void *entry(void *a) {
  me = (int)(intptr_t)a; await();
  (*bodies)[(size_t)me]();
  if(n_held[me]) complain("a lock is held after the last operation");
  finished[me] = true;
  int t = other(0);
  if(t >= 0) { n_switch++; current = t; give(t); }
  else for(int i = 0; i < nthreads; i++) if(!finished[i]) die("deadlock: every remaining thread waits for a lock");
  return nullptr;
}
void run(std::vector<std::function<void()>> threads, std::vector<Preempt> plan) {
  reset();
  nthreads = (int)threads.size(); if(nthreads > NT) die("too many threads");
  bodies = &threads; plan_ = &plan; plan_pos = 0; plan_left = plan.empty() ? 0 : plan[0].after;
  pthread_t id[NT];
  for(int i = 0; i < nthreads; i++) { go[i] = 0; finished[i] = false; waiting[i] = nullptr; }
  for(int i = 0; i < nthreads; i++) if(pthread_create(&id[i], nullptr, entry, (void *)(intptr_t)i)) die("cannot create a thread");
  current = 0; give(0);
  for(int i = 0; i < nthreads; i++) pthread_join(id[i], nullptr);
  nthreads = 0;
}
} // namespace sched

using namespace sched;
// The code under test is linked against these names.
extern "C" {
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  Mutex *x = find(m); if(x->owner != -1) complain("a lock in use is initialised"); x->owner = -1; x->alive = true; return pthread_mutex_init(m, a);
}
int vp_pthread_mutex_destroy(pthread_mutex_t *m) {
  Mutex *x = find(m); if(x->owner != -1) { complain("a lock in use is destroyed"); x->owner = -1; pthread_mutex_unlock(m); } x->alive = false; return pthread_mutex_destroy(m);
}
int vp_pthread_mutex_lock(pthread_mutex_t *m) {
  point();
  Mutex *x = find(m);
  if(!x->alive) complain("a destroyed lock is used");
  if(x->owner != -1 && (x->owner == me || nthreads == 0)) die("deadlock: a thread locks a lock it holds");
  while(find(m)->owner != -1) {
    waiting[me] = m; int t = other(me + 1);
    if(t < 0) die("deadlock: every thread waits for a lock");
    to(t); waiting[me] = nullptr;
  }
  find(m)->owner = me; n_held[me < 0 ? NT : me]++;
  return pthread_mutex_lock(m);
}
int vp_pthread_mutex_unlock(pthread_mutex_t *m) {
  Mutex *x = find(m);
  if(x->owner != me) { complain("a lock is released by a thread which doesn't hold it"); return 1; }
  x->owner = -1; n_held[me < 0 ? NT : me]--;
  int r = pthread_mutex_unlock(m); point(); return r;
}
#ifdef USE_C11_THREADS
static_assert(sizeof(mtx_t) >= sizeof(pthread_mutex_t), "lock storage");
#define PM(m) ((pthread_mutex_t *)(m))
int vp_mtx_init(mtx_t *m, int) { return vp_pthread_mutex_init(PM(m), nullptr) ? thrd_error : thrd_success; }
void vp_mtx_destroy(mtx_t *m) { vp_pthread_mutex_destroy(PM(m)); }
int vp_mtx_lock(mtx_t *m) { return vp_pthread_mutex_lock(PM(m)) ? thrd_error : thrd_success; }
int vp_mtx_unlock(mtx_t *m) { return vp_pthread_mutex_unlock(PM(m)) ? thrd_error : thrd_success; }
#endif
}
