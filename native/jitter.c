/* Schedule perturbation (LD_PRELOAD): random delays at thread start, at mutex operations and,
 * in the threads the library starts, at allocations.  Counts what it saw. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

static atomic_ulong n_threads, n_locks, n_alloc, n_delay, n_live, max_live, order_hash;
static __thread uint64_t rng;
static __thread int worker;
static uint64_t base_seed;
static atomic_ulong seq;
static int alloc_jitter = -1;

static uint64_t next(void) {
  if (!rng) {
    if (!base_seed) {
      const char *s = getenv("WV_JITTER_SEED");
      base_seed = s ? strtoull(s, 0, 10) * 2654435761u + 1 : 88172645463325252ull;
    }
    rng = base_seed ^ (0x9E3779B97F4A7C15ull * (atomic_fetch_add(&seq, 1) + 1));
  }
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng;
}

static void nap(uint64_t maxus) {
  atomic_fetch_add(&n_delay, 1);
  uint64_t r = next();
  if ((r & 3) == 0) {
    sched_yield();
    return;
  }
  struct timespec ts = {0, (long)((r >> 8) % (maxus * 1000 + 1))};
  nanosleep(&ts, 0);
}

struct start { void *(*fn)(void *); void *arg; unsigned long id; };

static void *trampoline(void *p) {
  struct start s = *(struct start *)p;
  free(p);
  worker = 1;
  unsigned long l = atomic_fetch_add(&n_live, 1) + 1, m = atomic_load(&max_live);
  while (l > m && !atomic_compare_exchange_weak(&max_live, &m, l)) {}
  if (next() % 3) nap(300);
  /* the order in which the threads really begin */
  unsigned long h = atomic_load(&order_hash);
  while (!atomic_compare_exchange_weak(&order_hash, &h, (h ^ s.id) * 1099511628211ul)) {}
  void *r = s.fn(s.arg);
  atomic_fetch_sub(&n_live, 1);
  return r;
}

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) *(void **)&real = dlsym(RTLD_NEXT, "pthread_create");
  struct start *s = malloc(sizeof *s);
  s->fn = fn;
  s->arg = arg;
  s->id = atomic_fetch_add(&n_threads, 1) + 1;
  if (next() % 8 == 0) nap(100);
  int rc = real(t, a, trampoline, s);
  if (rc) free(s);
  return rc;
}

int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *);
  if (!real) *(void **)&real = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (worker) {
    atomic_fetch_add(&n_locks, 1);
    if (next() % 4 == 0) nap(60);
  }
  return real(m);
}

/* operator new of the library's code */
void *_Znwm(size_t n) {
  if (worker) {
    atomic_fetch_add(&n_alloc, 1);
    if (alloc_jitter < 0) {
      const char *s = getenv("WV_JITTER_ALLOC");
      alloc_jitter = s ? atoi(s) : 400;
    }
    if (alloc_jitter && next() % (unsigned)alloc_jitter == 0) nap(80);
  }
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}

void wv_jitter_stats(unsigned long *out) {
  out[0] = n_threads;
  out[1] = n_locks;
  out[2] = n_alloc;
  out[3] = n_delay;
  out[4] = max_live;
  out[5] = order_hash;
  order_hash = 14695981039346656037ul;
}
