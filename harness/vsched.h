// Perturbs the schedule at every synchronisation operation of the code under
// test: mutexes, conditions, thread starts, event descriptors and (race
// detector builds) atomics.  Each thread draws a temper per case: most run on,
// some dawdle at random before or after such operations, so that windows of a
// few instructions become hundreds of microseconds wide.  A wake-up from a
// condition may be late: the mutex is given up once more before returning,
// which is what a slow wake-up looks like to everybody else.
#pragma once
#include "vh.h"
#include <pthread.h>
#include <errno.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>

namespace vh {
// Plain variables, and no instrumentation where they are used: the perturbation must order nothing.
static volatile int sched_on = 0;  // delays per thread and case
static volatile unsigned sched_epoch = 0;
static volatile uint64_t sched_seed = 1;
static volatile long sched_delays = 0;
struct Temper {
  uint64_t s = 0;
  unsigned epoch = 0;
  unsigned period = 0;  // delay one operation in period; 0 = never
  unsigned len = 0;
  int left = 0;
  bool busy = false;
};
__attribute__((no_sanitize("thread", "address", "undefined"))) inline Temper &temper() { static thread_local Temper t; return t; }
__attribute__((no_sanitize("thread", "address", "undefined"))) inline uint64_t sched_next(Temper &t) {
  t.s ^= t.s << 13; t.s ^= t.s >> 7; t.s ^= t.s << 17;
  return t.s;
}
__attribute__((no_sanitize("thread", "address", "undefined"), noinline)) inline bool sched_point(int weight = 1) {
  int mode = sched_on;
  if (!mode) return false;
  Temper &t = temper();
  if (t.busy) return false;
  unsigned e = sched_epoch;
  if (t.epoch != e || !t.s) {
    t.epoch = e;
    t.s = ((uint64_t)syscall(SYS_gettid) * 0x9E3779B97F4A7C15ull) ^ sched_seed;
    if (!t.s) t.s = 1;
    for (int i = 0; i < 4; ++i) sched_next(t);
    static const unsigned periods[] = {0, 0, 3, 8, 20, 60};
    t.period = periods[sched_next(t) % 6];
    t.len = (sched_next(t) & 3) ? 120 : 600;
    t.left = mode;
  }
  if (!t.period || t.left <= 0) return false;
  if (sched_next(t) % (t.period * (unsigned)weight)) return false;
  --t.left;
  t.busy = true;
  int sv = errno;
  unsigned us = (unsigned)(sched_next(t) % t.len);
  if (us < 10) syscall(SYS_sched_yield);
  else { struct timespec ts = {0, (long)us * 1000}; syscall(SYS_nanosleep, &ts, nullptr); }
  errno = sv;
  sched_delays = sched_delays + 1;
  t.busy = false;
  return true;
}
static volatile long spurious_wakeups = 0;
__attribute__((no_sanitize("thread", "address", "undefined"), noinline)) inline bool sched_spurious(unsigned one_in) {
  if (!sched_on) return false;
  Temper &t = temper();
  if (t.busy || !t.period || t.left <= 0 || sched_next(t) % one_in) return false;
  --t.left;
  spurious_wakeups = spurious_wakeups + 1;
  return true;
}
__attribute__((no_sanitize("thread", "address", "undefined"), noinline)) inline void sched_case(Rng &r) {
  sched_seed = r.next();
  sched_epoch = sched_epoch + 1;
  sched_on = r.chance(1, 2) ? (int)r.range(5, 60) : 0;
}
inline void sched_count() { count("injected_delays", sched_delays); count("spurious_wakeups", spurious_wakeups); }
struct SchedInstall {
  SchedInstall() { case_hook() = sched_case; final_hooks().push_back(sched_count); }
};
static SchedInstall sched_install;
} // namespace vh

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  vh::sched_point();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  vh::sched_point(3);
  int r = __real_pthread_mutex_unlock(m);
  vh::sched_point();
  return r;
}
static void vh_late(pthread_mutex_t *m) {
  if (!vh::sched_on) return;
  if (vh::temper().s & 64) return;
  __real_pthread_mutex_unlock(m);
  vh::sched_point();
  __real_pthread_mutex_lock(m);
}
// A wake-up nobody asked for, which POSIX allows.
static bool vh_spurious(pthread_mutex_t *m) {
  if (!vh::sched_spurious(4)) return false;
  __real_pthread_mutex_unlock(m);
  vh::sched_point();
  __real_pthread_mutex_lock(m);
  return true;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  vh::sched_point(2);
  if (vh_spurious(m)) return 0;
  int r = __real_pthread_cond_wait(c, m);
  vh_late(m);
  return r;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  if (vh_spurious(m)) return 0;
  return __real_pthread_cond_timedwait(c, m, t);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  vh::sched_point(2);
  int r = __real_pthread_cond_signal(c);
  vh::sched_point();
  return r;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  vh::sched_point(2);
  int r = __real_pthread_cond_broadcast(c);
  vh::sched_point();
  return r;
}
struct vh_start { void *(*f)(void *); void *a; };
static void *vh_begin(void *p) {
  vh_start s = *(vh_start *)p;
  free(p);
  vh::sched_point();
  return s.f(s.a);
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  vh_start *s = (vh_start *)malloc(sizeof *s);
  s->f = f;
  s->a = x;
  int r = __real_pthread_create(t, a, vh_begin, s);
  if (r) free(s);
  vh::sched_point();
  return r;
}
#ifdef VSCHED_WRITE
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  vh::sched_point();
  ssize_t r = __real_write(fd, p, n);
  vh::sched_point();
  return r;
}
#endif

#ifdef __SANITIZE_THREAD__
#define VH_ATOMIC(B, T)                                                                                        \
  T __real___tsan_atomic##B##_load(const volatile T *, int);                                                   \
  T __wrap___tsan_atomic##B##_load(const volatile T *p, int m) {                                               \
    vh::sched_point(2);                                                                                        \
    T r = __real___tsan_atomic##B##_load(p, m);                                                                \
    vh::sched_point(2);                                                                                        \
    return r;                                                                                                  \
  }                                                                                                            \
  void __real___tsan_atomic##B##_store(volatile T *, T, int);                                                  \
  void __wrap___tsan_atomic##B##_store(volatile T *p, T v, int m) {                                            \
    vh::sched_point();                                                                                         \
    __real___tsan_atomic##B##_store(p, v, m);                                                                  \
    vh::sched_point();                                                                                         \
  }                                                                                                            \
  VH_RMW(B, T, exchange) VH_RMW(B, T, fetch_add) VH_RMW(B, T, fetch_sub)                                       \
  int __real___tsan_atomic##B##_compare_exchange_strong(volatile T *, T *, T, int, int);                       \
  int __wrap___tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int fm) {             \
    vh::sched_point();                                                                                         \
    int r = __real___tsan_atomic##B##_compare_exchange_strong(p, c, v, m, fm);                                 \
    vh::sched_point();                                                                                         \
    return r;                                                                                                  \
  }
#define VH_RMW(B, T, OP)                                                                                       \
  T __real___tsan_atomic##B##_##OP(volatile T *, T, int);                                                      \
  T __wrap___tsan_atomic##B##_##OP(volatile T *p, T v, int m) {                                                \
    vh::sched_point(3);                                                                                        \
    T r = __real___tsan_atomic##B##_##OP(p, v, m);                                                             \
    vh::sched_point(3);                                                                                        \
    return r;                                                                                                  \
  }
VH_ATOMIC(8, char)
VH_ATOMIC(32, int)
VH_ATOMIC(64, long)
#endif
}
