// A small OpenMP runtime (the GOMP_ interface that g++ emits) on pthreads.
//
// Why: ThreadSanitizer does not understand libgomp, and libgomp's scheduler cannot be
// steered. With this runtime TSan sees every synchronisation, and the schedule (number
// of threads, who gets which chunk, delays) is drawn from a seed.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <vector>

namespace {
struct Loop {
  long next = 0, end = 0, incr = 1, chunk = 1;
  int left = 0;
};
struct Team {
  int n = 1;
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  pthread_barrier_t bar;
  std::map<int, Loop> loops;
  std::map<int, int> singles;
  std::map<int, void*> copies;
  int ordered_next = 0;
};
struct Self {
  Team* team = nullptr;
  int id = 0;
  int loop_no = -1, single_no = -1;
  uint64_t rng = 1;
};
thread_local Self self;
int g_threads = 1;
uint64_t g_seed = 1;
int g_delays = 0;
Team g_alone;
pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER, g_names = PTHREAD_MUTEX_INITIALIZER;

uint64_t rnd() {
  self.rng ^= self.rng << 13;
  self.rng ^= self.rng >> 7;
  self.rng ^= self.rng << 17;
  return self.rng;
}
Team* team() { return self.team ? self.team : &g_alone; }

struct Start {
  void (*fn)(void*);
  void* data;
  Team* team;
  int id;
  uint64_t seed;
  Loop first;
  bool has_loop;
};
}  // namespace

extern "C" {
void shim_configure(int threads, uint64_t seed, int delays) {
  g_threads = threads;
  g_seed = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  g_delays = delays;
}
// a scheduling point
void shim_point(void) {
  if (!g_delays || !self.team || self.team->n < 2) return;
  uint64_t r = rnd() % 16;
  if (r < 6) sched_yield();
  else if (r < 9) usleep(rnd() % (g_delays > 1 ? 400 : 60));
}

static void* body(void* p) {
  Start* s = static_cast<Start*>(p);
  Self old = self;
  self = Self();
  self.team = s->team;
  self.id = s->id;
  self.rng = s->seed | 1;
  if (s->has_loop) self.loop_no = 0;
  shim_point();
  s->fn(s->data);
  self = old;
  return nullptr;
}
static void parallel(void (*fn)(void*), void* data, unsigned n, bool has_loop, Loop first) {
  if (self.team || n == 1) n = n ? 1 : 1;
  else if (n == 0) n = g_threads;
  Team t;
  t.n = n;
  pthread_barrier_init(&t.bar, nullptr, n);
  if (has_loop) {
    first.left = n;
    t.loops[0] = first;
  }
  std::vector<Start> st(n);
  std::vector<pthread_t> th(n);
  std::vector<char> ok(n, 0);
  for (unsigned i = 0; i < n; i++) st[i] = Start{fn, data, &t, (int)i, g_seed + 7919u * i, first, has_loop};
  for (unsigned i = 1; i < n; i++) {
    if (pthread_create(&th[i], nullptr, body, &st[i])) abort();
    ok[i] = 1;
  }
  body(&st[0]);
  for (unsigned i = 1; i < n; i++) pthread_join(th[i], nullptr);
  pthread_barrier_destroy(&t.bar);
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, false, Loop()); }

#define PLOOP(NAME)                                                                                             \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long a, long b, long inc, long chunk, unsigned) { \
    Loop l;                                                                                                     \
    l.next = a; l.end = b; l.incr = inc; l.chunk = chunk < 1 ? 1 : chunk;                                       \
    parallel(fn, data, n, true, l);                                                                             \
  }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(NAME)                                                                                            \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long a, long b, long inc, unsigned) { \
    Loop l;                                                                                                     \
    l.next = a; l.end = b; l.incr = inc;                                                                        \
    parallel(fn, data, n, true, l);                                                                             \
  }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

static bool take(long* istart, long* iend) {
  shim_point();
  Team* t = team();
  pthread_mutex_lock(&t->mu);
  Loop& l = t->loops[self.loop_no];
  bool more = l.incr > 0 ? l.next < l.end : l.next > l.end;
  if (more) {
    *istart = l.next;
    long e = l.next + l.chunk * l.incr;
    if (l.incr > 0 ? e > l.end : e < l.end) e = l.end;
    *iend = e;
    l.next = e;
  }
  pthread_mutex_unlock(&t->mu);
  return more;
}
static bool start(long a, long b, long inc, long chunk, long* is, long* ie) {
  Team* t = team();
  self.loop_no++;
  pthread_mutex_lock(&t->mu);
  if (!t->loops.count(self.loop_no) || t == &g_alone) {
    Loop l;
    l.next = a; l.end = b; l.incr = inc; l.chunk = chunk < 1 ? 1 : chunk; l.left = t->n;
    t->loops[self.loop_no] = l;
  }
  pthread_mutex_unlock(&t->mu);
  return take(is, ie);
}
#define WLOOP(NAME)                                                                                      \
  bool GOMP_loop_##NAME##_start(long a, long b, long inc, long chunk, long* is, long* ie) { return start(a, b, inc, chunk, is, ie); } \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return take(is, ie); }
WLOOP(static) WLOOP(dynamic) WLOOP(guided) WLOOP(nonmonotonic_dynamic) WLOOP(nonmonotonic_guided)
#define WLOOPR(NAME)                                                                                     \
  bool GOMP_loop_##NAME##_start(long a, long b, long inc, long* is, long* ie) { return start(a, b, inc, 1, is, ie); } \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return take(is, ie); }
WLOOPR(runtime) WLOOPR(nonmonotonic_runtime) WLOOPR(maybe_nonmonotonic_runtime)

void GOMP_barrier(void) {
  Team* t = team();
  shim_point();
  if (t->n > 1) pthread_barrier_wait(&t->bar);
}
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}

void GOMP_critical_start(void) { shim_point(); pthread_mutex_lock(&g_crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&g_crit); shim_point(); }
void GOMP_critical_name_start(void** p) {
  shim_point();
  pthread_mutex_lock(&g_names);
  static std::map<void**, pthread_mutex_t*> m;
  pthread_mutex_t*& q = m[p];
  if (!q) {
    q = new pthread_mutex_t;
    pthread_mutex_init(q, nullptr);
    *p = q;
  }
  pthread_mutex_t* r = q;
  pthread_mutex_unlock(&g_names);
  pthread_mutex_lock(r);
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(static_cast<pthread_mutex_t*>(*p)); shim_point(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atomic); }
bool GOMP_single_start(void) {
  Team* t = team();
  self.single_no++;
  pthread_mutex_lock(&t->mu);
  bool first = t->singles[self.single_no]++ == 0;
  pthread_mutex_unlock(&t->mu);
  return first;
}
void* GOMP_single_copy_start(void) {
  if (GOMP_single_start()) return nullptr;
  GOMP_barrier();
  return team()->copies[self.single_no];
}
void GOMP_single_copy_end(void* d) { team()->copies[self.single_no] = d; GOMP_barrier(); }

int omp_get_max_threads(void) { return g_threads; }
int omp_get_num_threads(void) { return team()->n; }
int omp_get_thread_num(void) { return self.id; }
int omp_in_parallel(void) { return team()->n > 1; }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_limit(void) { return 64; }
int omp_get_level(void) { return self.team ? 1 : 0; }
void omp_set_num_threads(int n) { g_threads = n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
double omp_get_wtime(void) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
struct shim_lock { pthread_mutex_t m; };
void omp_init_lock(void** l) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *l = m; }
void omp_destroy_lock(void** l) { delete static_cast<pthread_mutex_t*>(*l); }
void omp_set_lock(void** l) { shim_point(); pthread_mutex_lock(static_cast<pthread_mutex_t*>(*l)); }
void omp_unset_lock(void** l) { pthread_mutex_unlock(static_cast<pthread_mutex_t*>(*l)); }
int omp_test_lock(void** l) { return !pthread_mutex_trylock(static_cast<pthread_mutex_t*>(*l)); }
}
