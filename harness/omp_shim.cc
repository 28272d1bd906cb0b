// OpenMP runtime on plain pthreads, so that ThreadSanitizer sees every synchronization of a parallel region
// (libgomp is not instrumented). Implements the entry points that gcc emits for parallel regions, loops,
// barriers, critical sections and atomics; every thread starts after a random delay.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <condition_variable>
#include <string>
#include <thread>
#include <vector>
#include <time.h>
#include <unistd.h>

extern "C" long omp_shim_regions, omp_shim_threads; long omp_shim_regions = 0, omp_shim_threads = 0;
extern "C" unsigned omp_shim_seed; unsigned omp_shim_seed = 1;
static std::atomic<int> g_nthreads{4};
static std::mutex g_critical, g_atomic; static std::map<void *, std::mutex> g_named; static std::mutex g_named_lock;

struct Team {
  int n; std::mutex m; std::condition_variable cv; int waiting = 0; long gen = 0;
  // work sharing constructs: state per construct instance, in program order of each thread
  struct Loop { long lo, hi, inc, chunk; int kind; long next; int done = 0; bool init = false; };
  std::map<long, Loop> loops; std::map<long, bool> singles;
  explicit Team(int n) : n(n) {}
  void barrier() { std::unique_lock<std::mutex> l(m); long g = gen; if (++waiting == n) { waiting = 0; gen++; cv.notify_all(); } else cv.wait(l, [&] { return gen != g; }); }
};
static thread_local Team *t_team = nullptr; static thread_local int t_id = 0; static thread_local long t_ws = 0; static thread_local Team::Loop *t_loop = nullptr; static thread_local int t_static_done = 0;

static void delay(int id) {
  static std::atomic<unsigned> k{0}; unsigned x = omp_shim_seed * 2654435761u + (k++) * 40503u + id * 97u; x ^= x >> 13; x *= 0x5bd1e995; x ^= x >> 15;
  switch (x % 4) { case 0: break; case 1: std::this_thread::yield(); break; case 2: usleep((x >> 8) % 60); break; default: for (volatile unsigned i = 0; i < (x >> 8) % 3000; i = i + 1) {} }
}
extern "C" {
int omp_get_num_threads(void) { return t_team ? t_team->n : 1; }
int omp_get_thread_num(void) { return t_team ? t_id : 0; }
int omp_get_max_threads(void) { return g_nthreads; }
void omp_set_num_threads(int n) { g_nthreads = n > 0 ? n : 1; }
int omp_in_parallel(void) { return t_team && t_team->n > 1; }
int omp_get_num_procs(void) { return 8; }
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; } void omp_set_nested(int) {} int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return t_team ? 1 : 0; } int omp_get_thread_limit(void) { return 1024; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
typedef struct { void *p; } lock_t;
void omp_init_lock(lock_t *l) { l->p = new std::mutex; } void omp_destroy_lock(lock_t *l) { delete (std::mutex *)l->p; } void omp_set_lock(lock_t *l) { ((std::mutex *)l->p)->lock(); } void omp_unset_lock(lock_t *l) { ((std::mutex *)l->p)->unlock(); } int omp_test_lock(lock_t *l) { return ((std::mutex *)l->p)->try_lock(); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned) {
  int n = t_team ? 1 : num ? int(num) : int(g_nthreads); __sync_fetch_and_add(&omp_shim_regions, 1); __sync_fetch_and_add(&omp_shim_threads, n);
  Team team(n), *old = t_team; int oid = t_id; long ows = t_ws; Team::Loop *ol = t_loop;
  std::vector<std::thread> ts;
  for (int i = 1; i < n; i++) ts.emplace_back([&, i] { t_team = &team; t_id = i; t_ws = 0; t_loop = nullptr; delay(i); fn(data); });
  t_team = &team; t_id = 0; t_ws = 0; t_loop = nullptr; delay(0); fn(data);
  for (auto& t : ts) t.join();
  t_team = old; t_id = oid; t_ws = ows; t_loop = ol;
}
void GOMP_barrier(void) { if (t_team) t_team->barrier(); delay(t_id); }
void GOMP_critical_start(void) { g_critical.lock(); } void GOMP_critical_end(void) { g_critical.unlock(); }
static std::mutex& named(void **p) { std::lock_guard<std::mutex> l(g_named_lock); return g_named[(void *)p]; }
void GOMP_critical_name_start(void **p) { named(p).lock(); } void GOMP_critical_name_end(void **p) { named(p).unlock(); }
void GOMP_atomic_start(void) { g_atomic.lock(); } void GOMP_atomic_end(void) { g_atomic.unlock(); }
bool GOMP_single_start(void) { if (!t_team) return true; std::lock_guard<std::mutex> l(t_team->m); bool& b = t_team->singles[t_ws++]; bool r = !b; b = true; return r; }
void *GOMP_single_copy_start(void) { fprintf(stderr, "omp_shim: copyprivate unsupported\n"); _exit(2); }
void GOMP_single_copy_end(void *) {}

// kind: 0 static, 1 dynamic, 2 guided
static bool loop_next(long *s, long *e) {
  Team::Loop& L = *t_loop; std::unique_lock<std::mutex> l; if (t_team) l = std::unique_lock<std::mutex>(t_team->m);
  int n = t_team ? t_team->n : 1; long total = L.inc > 0 ? (L.hi - L.lo + L.inc - 1) / L.inc : (L.lo - L.hi - L.inc - 1) / -L.inc; if (total < 0) total = 0;
  long a, b;
  if (L.kind == 0 && L.chunk <= 0) { if (t_static_done++) return false; long q = total / n, r = total % n; a = t_id * q + std::min<long>(t_id, r); b = a + q + (t_id < r); if (a >= b) return false; }
  else if (L.kind == 0) { a = (long(t_static_done++) * n + t_id) * L.chunk; b = std::min(total, a + L.chunk); if (a >= total) return false; }
  else { long c = L.chunk > 0 ? L.chunk : 1; if (L.kind == 2) c = std::max(c, (total - L.next) / n); a = L.next; if (a >= total) return false; b = std::min(total, a + c); L.next = b; }
  *s = L.lo + a * L.inc; *e = L.lo + b * L.inc; if (b == total) *e = L.hi; return true;
}
static bool loop_start(long lo, long hi, long inc, long chunk, int kind, long *s, long *e) {
  static thread_local Team::Loop solo; Team::Loop *L;
  if (t_team) { std::lock_guard<std::mutex> l(t_team->m); L = &t_team->loops[t_ws++]; if (!L->init) { *L = {lo, hi, inc, chunk, kind, 0, 0, true}; } } else { solo = {lo, hi, inc, chunk, kind, 0, 0, true}; L = &solo; }
  t_loop = L; t_static_done = 0; return s ? loop_next(s, e) : true;
}
#define LOOP(name, kind) \
  bool GOMP_loop_##name##_start(long lo, long hi, long inc, long c, long *s, long *e) { return loop_start(lo, hi, inc, c, kind, s, e); } \
  bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long lo, unsigned long long hi, unsigned long long inc, unsigned long long c, unsigned long long *s, unsigned long long *e) { (void)up; return loop_start(long(lo), long(hi), long(inc), long(c), kind, (long *)s, (long *)e); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long *s, unsigned long long *e) { return loop_next((long *)s, (long *)e); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned num, long lo, long hi, long inc, long c, unsigned flags) { \
    struct X { void (*fn)(void *); void *data; long lo, hi, inc, c; } x{fn, data, lo, hi, inc, c}; \
    GOMP_parallel([](void *p) { X& x = *(X *)p; loop_start(x.lo, x.hi, x.inc, x.c, kind, nullptr, nullptr); x.fn(x.data); }, &x, num, flags); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
#undef LOOP
bool GOMP_loop_runtime_start(long lo, long hi, long inc, long *s, long *e) { return loop_start(lo, hi, inc, 1, 1, s, e); } bool GOMP_loop_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long lo, long hi, long inc, long *s, long *e) { return loop_start(lo, hi, inc, 1, 1, s, e); } bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long lo, long hi, long inc, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, lo, hi, inc, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long lo, long hi, long inc, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, lo, hi, inc, 1, f); }
void GOMP_loop_end(void) { t_loop = nullptr; GOMP_barrier(); } void GOMP_loop_end_nowait(void) { t_loop = nullptr; } bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }
void GOMP_taskwait(void) {} void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) { if (cpy) { std::vector<char> b(sz + al); char *p = (char *)(((uintptr_t)b.data() + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, data); fn(p); } else fn(data); }
}
