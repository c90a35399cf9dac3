// Threads, locks, clocks and guards behind the simulator's scheduler.  Outside a run
// everything passes through to libc.
#include "internal.h"
#include <algorithm>
#include <chrono>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define API extern "C" SIM_API
#define RUN (g.active && g.cur)
template <class F> static F real(F, const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(f) ([]() { static auto p = real(&f, #f); return p; }())
struct Guard { Guard() { sim_guard_enter(); } ~Guard() { sim_guard_exit(); } };

struct Obj { bool held; Task *owner; int depth, readers, st; sim_sync *s; };
static omap<uptr, Obj> *objs;
static Obj &obj(const void *p) {
  if (!objs) { objs = (omap<uptr, Obj> *)malloc(sizeof *objs); new (objs) omap<uptr, Obj>(); }
  uptr k = (uptr)p; if (in_exe(k)) k |= (uptr)g.cur_loc << 56;
  Obj &o = (*objs)[k];
  if (!o.s) o.s = sim_sync_new();
  return o;
}

// ---- threads -------------------------------------------------------------------------
struct Thr { void *(*fn)(void *); void *arg; void *ret; uint64_t h; };
static omap<pthread_t, Thr *> *thrs;
static void thr_main(void *p) { Thr *t = (Thr *)p; t->ret = t->fn(t->arg); }
API int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept {
  if (!RUN) return REAL(pthread_create)(out, a, fn, arg);
  Guard gd;
  if (!thrs) { thrs = (omap<pthread_t, Thr *> *)malloc(sizeof *thrs); new (thrs) omap<pthread_t, Thr *>(); }
  Thr *t = (Thr *)malloc(sizeof(Thr));
  t->fn = fn; t->arg = arg; t->ret = nullptr;
  t->h = sim_thread_start(thr_main, t, "thread");
  *out = (pthread_t)(0x5100000 + t->h);
  (*thrs)[*out] = t;
  return 0;
}
API int pthread_join(pthread_t h, void **ret) {
  if (!RUN) return REAL(pthread_join)(h, ret);
  Guard gd;
  Thr *t = thrs ? (*thrs)[h] : nullptr;
  if (!t) return ESRCH;
  sim_thread_join(t->h);
  if (ret) *ret = t->ret;
  return 0;
}
API int pthread_detach(pthread_t h) noexcept { if (!RUN) return REAL(pthread_detach)(h); return 0; }
API pthread_t pthread_self(void) noexcept { if (!RUN) return REAL(pthread_self)(); return (pthread_t)(0x5000000 + (g.curw ? g.curw->id : 0)); }
API int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
API int sched_yield(void) noexcept { if (!RUN) return syscall(SYS_sched_yield); Guard gd; sim_yield(); return 0; }

// ---- mutex ------------------------------------------------------------------------------
static int kind_of(const void *m) { return ((const int *)m)[4] & 3; }
static void m_lock(void *m) {
  step_point();
  Guard gd;
  Obj &o = obj(m);
  if (o.held && o.owner == g.cur && kind_of(m) == PTHREAD_MUTEX_RECURSIVE) { o.depth++; return; }
  while (o.held) wait_on(o.s, true);
  o.held = true; o.owner = g.cur; o.depth = 1;
  hb_acquire(o.s);
}
static void m_unlock(void *m) {
  { Guard gd;
    Obj &o = obj(m);
    if (--o.depth > 0) return;
    o.held = false; o.owner = nullptr;
    sim_wake_one(o.s); }
  step_point();
}
API int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept {
  if (!RUN) return REAL(pthread_mutex_init)(m, a);
  memset(m, 0, sizeof *m);
  if (a) { int t; pthread_mutexattr_gettype(a, &t); ((int *)m)[4] = t; }
  Guard gd; Obj &o = obj(m); o.held = false; o.owner = nullptr; o.depth = 0;
  return 0;
}
API int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { if (!RUN) return REAL(pthread_mutex_destroy)(m); return 0; }
API int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (!RUN) return REAL(pthread_mutex_lock)(m); m_lock(m); return 0; }
API int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!RUN) return REAL(pthread_mutex_unlock)(m); m_unlock(m); return 0; }
API int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (!RUN) return REAL(pthread_mutex_trylock)(m);
  step_point();
  Guard gd;
  Obj &o = obj(m);
  if (o.held) { if (o.owner == g.cur && kind_of(m) == PTHREAD_MUTEX_RECURSIVE) { o.depth++; return 0; } return EBUSY; }
  o.held = true; o.owner = g.cur; o.depth = 1; hb_acquire(o.s);
  return 0;
}
// spin locks
API int pthread_spin_init(pthread_spinlock_t *l, int) noexcept { *l = 0; return 0; }
API int pthread_spin_destroy(pthread_spinlock_t *) noexcept { return 0; }
API int pthread_spin_lock(pthread_spinlock_t *l) noexcept { if (!RUN) return 0; step_point(); Guard gd; Obj &o = obj((void *)l); while (o.held) wait_on(o.s, true); o.held = true; hb_acquire(o.s); return 0; }
API int pthread_spin_unlock(pthread_spinlock_t *l) noexcept { if (!RUN) return 0; { Guard gd; Obj &o = obj((void *)l); o.held = false; sim_wake_one(o.s); } step_point(); return 0; }
// read-write locks
API int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { if (!RUN) return REAL(pthread_rwlock_rdlock)(m); step_point(); Guard gd; Obj &o = obj(m); while (o.held) wait_on(o.s, true); o.readers++; hb_acquire(o.s); return 0; }
API int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { if (!RUN) return REAL(pthread_rwlock_wrlock)(m); step_point(); Guard gd; Obj &o = obj(m); while (o.held || o.readers) wait_on(o.s, true); o.held = true; hb_acquire(o.s); return 0; }
API int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { if (!RUN) return REAL(pthread_rwlock_unlock)(m); { Guard gd; Obj &o = obj(m); if (o.held) o.held = false; else o.readers--; sim_wake_all(o.s); } step_point(); return 0; }

// ---- condition variables -------------------------------------------------------------------
static uint64_t to_sim(clockid_t c, const timespec *ts) {
  uint64_t want = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  uint64_t cur = c == CLOCK_REALTIME ? sim_clock() : now_ns() + 1000000000ull;
  return want > cur ? now_ns() + (want - cur) : now_ns();
}
static int c_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t until) {
  bool ok = true;
  {
    Guard gd;
    Obj &o = obj(m);
    o.depth = 0; o.held = false; o.owner = nullptr;
    sim_wake_one(o.s);
    sim_sync *s = obj(c).s;
    if (until == UINT64_MAX) wait_on(s, true); else ok = wait_on_until(s, true, until);
  }
  m_lock(m);
  return ok ? 0 : ETIMEDOUT;
}
API int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) noexcept { if (!RUN) return REAL(pthread_cond_init)(c, a); memset(c, 0, sizeof *c); return 0; }
API int pthread_cond_destroy(pthread_cond_t *c) noexcept { if (!RUN) return REAL(pthread_cond_destroy)(c); return 0; }
API int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!RUN) return REAL(pthread_cond_wait)(c, m); return c_wait(c, m, UINT64_MAX); }
API int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { if (!RUN) return REAL(pthread_cond_timedwait)(c, m, t); return c_wait(c, m, to_sim(CLOCK_REALTIME, t)); }
API int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) { if (!RUN) return ENOSYS; return c_wait(c, m, to_sim(k, t)); }
API int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!RUN) return REAL(pthread_cond_signal)(c); { Guard gd; sim_wake_one(obj(c).s); } step_point(); return 0; }
API int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!RUN) return REAL(pthread_cond_broadcast)(c); { Guard gd; sim_wake_all(obj(c).s); } step_point(); return 0; }

// ---- once, static-initialisation guards ------------------------------------------------------
API int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!RUN) return REAL(pthread_once)(o, f);
  step_point();
  { Guard gd;
    Obj &b = obj(o);
    while (b.st == 1) wait_on(b.s, true);
    if (b.st == 2) { hb_acquire(b.s); return 0; }
    b.st = 1; }
  try { f(); } catch (...) { Guard gd; Obj &b = obj(o); b.st = 0; sim_wake_all(b.s); throw; }
  Guard gd; Obj &b = obj(o); b.st = 2; *(volatile int *)o = 2; sim_wake_all(b.s);
  return 0;
}
extern "C" SIM_API int guard_acquire(uint64_t *gp) noexcept asm("__cxa_guard_acquire");
extern "C" SIM_API void guard_release(uint64_t *gp) noexcept asm("__cxa_guard_release");
extern "C" SIM_API void guard_abort(uint64_t *gp) noexcept asm("__cxa_guard_abort");
int guard_acquire(uint64_t *gp) noexcept {
  volatile char *p = (volatile char *)gp;
  if (*p) { if (RUN) { Guard gd; hb_acquire(obj(gp).s); } return 0; }
  if (!RUN) return 1;
  step_point();
  Guard gd;
  Obj &o = obj(gp);
  while (o.st == 1 && !*p) wait_on(o.s, true);
  if (*p) { hb_acquire(o.s); return 0; }
  o.st = 1;
  return 1;
}
void guard_release(uint64_t *gp) noexcept {
  *(volatile char *)gp = 1;
  if (RUN) { Guard gd; Obj &o = obj(gp); o.st = 0; sim_wake_all(o.s); hb_release(async_of((uptr)gp)); }
}
void guard_abort(uint64_t *gp) noexcept { if (RUN) { Guard gd; Obj &o = obj(gp); o.st = 0; sim_wake_all(o.s); } }

// ---- time ----------------------------------------------------------------------------------------
API int clock_gettime(clockid_t c, timespec *ts) noexcept {
  if (!RUN) return (int)syscall(SYS_clock_gettime, c, ts);
  step_point();
  uint64_t t = c == CLOCK_REALTIME ? sim_clock() : now_ns() + 1000000000ull;
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
  return 0;
}
API int gettimeofday(timeval *tv, void *) noexcept {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
API time_t time(time_t *t) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
API clock_t clock(void) noexcept { return RUN ? (clock_t)(now_ns() / 1000) : (clock_t)0; }
static void nap(uint64_t ns) { step_point(); Guard gd; sleep_until(now_ns() + ns, true); }
API int nanosleep(const timespec *r, timespec *rem) { if (!RUN) return (int)syscall(SYS_nanosleep, r, rem); nap((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
API int clock_nanosleep(clockid_t c, int fl, const timespec *r, timespec *rem) {
  if (!RUN) return (int)syscall(SYS_clock_nanosleep, c, fl, r, rem);
  if (fl & 1) { uint64_t at = to_sim(c, r); nap(at - now_ns()); } else nap((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec);
  return 0;
}
API int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
API unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }

// ---- std::future's futex -----------------------------------------------------------------------------
extern "C" {
SIM_API bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *addr, unsigned val, bool has_to, int64_t s, int64_t ns) {
  Guard gd;
  while (*addr == val) {
    if (!has_to) wait_on(obj(addr).s, true);
    else { timespec t{(time_t)s, (long)ns}; if (!wait_on_until(obj(addr).s, true, to_sim(CLOCK_REALTIME, &t))) return false; }
  }
  return true;
}
SIM_API bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *addr, unsigned val, bool has_to, int64_t s, int64_t ns) {
  Guard gd;
  while (*addr == val) {
    if (!has_to) wait_on(obj(addr).s, true);
    else { timespec t{(time_t)s, (long)ns}; if (!wait_on_until(obj(addr).s, true, to_sim(CLOCK_MONOTONIC, &t))) return false; }
  }
  return true;
}
SIM_API void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *addr) { if (RUN) { Guard gd; sim_wake_all(obj(addr).s); } }
}
