// OpenMP runtime (the GOMP ABI and the omp_* API) on top of the simulator's scheduler.
#include "internal.h"
#include <algorithm>

typedef __int128 I;
struct WS {          // one work-sharing construct of a team
  unsigned seq;
  int kind;          // 0 static 1 dynamic 2 guided, 3 single/sections
  I start, end, incr, chunk, next; bool down;
  I total;           // iterations
  I given;           // iterations handed out (dynamic, guided)
  bool ordered;
  uint64_t tickets, turn;
  sim_sync *osync;
  int left;          // threads that have ended it
  bool taken; void *copy; sim_sync *csync; bool copied;
  I sections, sec_next;
};
struct Team {
  int n;
  Team *outer; int outer_tnum; unsigned outer_seq;
  void (*fn)(void *); void *data;
  int count; unsigned gen;
  sim_sync *bar[2];
  vec<WS *> ws;
  WS *pre;           // loop announced by GOMP_parallel_loop_*
};
struct ThrState { WS *cur; I idx; uint64_t ticket; bool has_ticket; };
static omap<uint64_t, ThrState> *tstates;
static ThrState &ts() {
  if (!tstates) { tstates = (omap<uint64_t, ThrState> *)malloc(sizeof *tstates); new (tstates) omap<uint64_t, ThrState>(); }
  return (*tstates)[g.cur ? g.cur->id : 0];
}
static Team *cur_team() { return g.cur ? g.cur->team : nullptr; }
static int icv() { return g.cur && g.cur->nthreads_icv > 0 ? g.cur->nthreads_icv : (g.omp_threads > 0 ? g.omp_threads : 1); }
static int dyn_var;

struct Guard { Guard() { sim_guard_enter(); } ~Guard() { sim_guard_exit(); } };

// ---- barrier ----------------------------------------------------------------------
static void team_barrier(Team *t) {
  if (!t || t->n <= 1) return;
  step_point();
  Guard gd;
  unsigned gen = t->gen;
  sim_sync *s = t->bar[gen & 1];
  if (++t->count == t->n) {
    t->count = 0; t->gen++;
    t->bar[t->gen & 1]->has = false;
    sim_wake_all(s);
    hb_acquire(s);
  } else {
    hb_release(s);
    while (t->gen == gen) wait_on(s, true);
    hb_acquire(s);
  }
}

// ---- teams ---------------------------------------------------------------------------
struct Start { Team *t; int num; int icv; };
static vec<Worker *> *pool;
static void thread_main(void *p) {
  Start *s = (Start *)p;
  Task *me = g.cur;
  me->team = s->t; me->tnum = s->num; me->ws_seq = 0; me->nthreads_icv = s->icv;
  Team *t = s->t;
  free(s);
  t->fn(t->data);
}
static Worker *pool_worker() {
  if (!pool) { pool = (vec<Worker *> *)malloc(sizeof *pool); new (pool) vec<Worker *>(); }
  for (Worker *w : *pool) if (w->loc == g.cur_loc && w->dead && !w->cur) { w->dead = false; return w; }
  Worker *w = add_worker(g.cur_loc, 2000 + (int)g.workers.size(), true);
  pool->push_back(w);
  return w;
}
static void run_team(void (*fn)(void *), void *data, unsigned nthreads, WS *pre) {
  Task *me = g.cur;
  if (!me || !g.active) { fn(data); return; }
  Team t{};
  t.bar[0] = sim_sync_new(); t.bar[1] = sim_sync_new();
  vec<Task *> kids;
  Team *ot = me->team; int otn = me->tnum; unsigned oseq = me->ws_seq;
  int n;
  {
    Guard gd;
    n = nthreads ? (int)nthreads : icv();
    if (ot && ot->n > 1) n = 1;                    // nested parallelism is off by default
    if (n > 64) n = 64;
    if (n > 1) { uint32_t c = sim_choose_w(SIM_K_CHUNK, n, 800); n -= c; } // fewer threads granted
    t.n = n; t.outer = ot; t.fn = fn; t.data = data; t.pre = pre;
    if (pre) t.ws.push_back(pre);
    sim_trace("omp team of %d", n);
    for (int i = 1; i < n; i++) {
      Start *s = (Start *)malloc(sizeof *s);
      s->t = &t; s->num = i; s->icv = me->nthreads_icv;
      Worker *w = pool_worker();
      Task *k = new_task(g.cur_loc, thread_main, s, "omp", true);
      w->cur = k; k->w = w;
      kids.push_back(k);
    }
    me->team = &t; me->tnum = 0; me->ws_seq = 0;
  }
  fn(data);
  {
    Guard gd;
    for (Task *k : kids) {
      if (k->st != T_DONE) wait_on(k->join, true);
      hb_acquire(k->join);
    }
    me->team = ot; me->tnum = otn; me->ws_seq = oseq;
    for (WS *w : t.ws) { if (w->osync) sim_sync_free(w->osync); if (w->csync) sim_sync_free(w->csync); free(w); }
    sim_sync_free(t.bar[0]); sim_sync_free(t.bar[1]);
  }
}

// ---- work sharing -----------------------------------------------------------------------
static WS *mk_ws(int kind, I start, I end, I incr, I chunk) {
  WS *w = (WS *)calloc(1, sizeof(WS));
  w->kind = kind; w->start = start; w->end = end; w->incr = incr; w->chunk = chunk;
  I d = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (start > end ? (start - end - incr - 1) / -incr : 0);
  w->total = d;
  return w;
}
static Team solo_team;
static Team *team_or_solo() { Team *t = cur_team(); if (!t) { t = &solo_team; t->n = 1; } return t; }
// the work-sharing construct the current thread meets next
static WS *meet(Team *t, int kind, I start, I end, I incr, I chunk) {
  unsigned seq = g.cur ? g.cur->ws_seq++ : 0;
  if (t == &solo_team) { WS *w = mk_ws(kind, start, end, incr, chunk); return w; }
  while (t->ws.size() <= seq) t->ws.push_back(nullptr);
  if (!t->ws[seq]) t->ws[seq] = mk_ws(kind, start, end, incr, chunk);
  return t->ws[seq];
}
static void finish_ticket(ThrState &s) {
  WS *w = s.cur;
  if (!w || !w->ordered || !s.has_ticket) return;
  while (w->turn != s.ticket) wait_on(w->osync, true);
  w->turn++;
  s.has_ticket = false;
  sim_wake_all(w->osync);
}
static bool ws_next(I &a, I &b) {
  step_point();
  Guard gd;
  ThrState &s = ts();
  WS *w = s.cur;
  Team *t = team_or_solo();
  finish_ticket(s);
  int n = t->n, me = g.cur ? g.cur->tnum : 0;
  if (t == &solo_team) me = 0;
  I lo, cnt;
  if (w->kind == 0) {
    if (w->chunk <= 0) {
      if (s.idx++) return false;
      I q = w->total / n, r = w->total % n;
      lo = me * q + (me < r ? me : r); cnt = q + (me < r ? 1 : 0);
      if (cnt == 0) return false;
    } else {
      lo = (me + s.idx++ * (I)n) * w->chunk;
      if (lo >= w->total) return false;
      cnt = std::min(w->chunk, w->total - lo);
    }
  } else {
    I left = w->total - w->given;
    if (left <= 0) return false;
    I ch = w->chunk > 0 ? w->chunk : 1;
    cnt = w->kind == 2 ? std::max(ch, (left + n - 1) / n) : ch;
    if (cnt > left) cnt = left;
    lo = w->given;
    w->given += cnt;
  }
  if (w->ordered) {
    // tickets follow iteration order
    s.ticket = w->kind == 0 ? (uint64_t)(w->chunk > 0 ? lo / w->chunk : me) : w->tickets++;
    s.has_ticket = true;
  }
  a = w->start + lo * w->incr;
  b = a + cnt * w->incr;
  if (lo + cnt == w->total) b = w->end; // as libgomp: the last chunk ends at the loop's end
  return true;
}
static bool ws_start(int kind, bool ordered, I start, I end, I incr, I chunk, I &a, I &b) {
  { Guard gd;
    Team *t = team_or_solo();
    WS *w = meet(t, kind, start, end, incr, chunk);
    if (ordered && !w->ordered) { w->ordered = true; w->osync = sim_sync_new(); }
    ThrState &s = ts();
    s.cur = w; s.idx = 0; s.has_ticket = false; }
  return ws_next(a, b);
}
static void ws_end(bool barrier) {
  { Guard gd; ThrState &s = ts(); finish_ticket(s); s.cur = nullptr; }
  if (barrier) team_barrier(cur_team());
}
static int rt_kind() { return (int)sim_choose(SIM_K_CHUNK, 3); }
static int rt_kind_team = -1;

#define API extern "C" SIM_API
API void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
API unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); return n ? n : icv(); }
API void GOMP_barrier() { team_barrier(cur_team()); }
API bool GOMP_barrier_cancel() { team_barrier(cur_team()); return false; }
API bool GOMP_cancel(int, bool) { return false; }
API bool GOMP_cancellation_point(int) { return false; }

#define PLOOP(name, kind) \
API void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
  run_team(fn, d, n, mk_ws(kind, s, e, i, c)); }
#define PLOOPR(name, kind) \
API void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { \
  run_team(fn, d, n, mk_ws(kind, s, e, i, 0)); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
PLOOPR(runtime, rt_kind()) PLOOPR(nonmonotonic_runtime, rt_kind()) PLOOPR(maybe_nonmonotonic_runtime, rt_kind())
// a thread inside GOMP_parallel_loop_* calls only *_next: attach it to the announced loop
static bool next_any(I &a, I &b) {
  { Guard gd;
    ThrState &s = ts();
    Team *t = cur_team();
    if (!s.cur && t && t->pre) { s.cur = t->pre; s.idx = 0; s.has_ticket = false; if (g.cur->ws_seq == 0) g.cur->ws_seq = 1; } }
  return ws_next(a, b);
}
#define LOOP1(T, pre, name, kind, ord, UPP, UPA) \
API bool GOMP_loop_##pre##name##_start(UPP T s, T e, T i, T c, T *a, T *b) { I x, y; bool r = ws_start(kind, ord, (I)s, (I)e, UPA, (I)c, x, y); if (r) { *a = (T)x; *b = (T)y; } return r; } \
API bool GOMP_loop_##pre##name##_next(T *a, T *b) { I x, y; bool r = next_any(x, y); if (r) { *a = (T)x; *b = (T)y; } return r; }
#define LOOP1R(T, pre, name, kind, ord, UPP, UPA) \
API bool GOMP_loop_##pre##name##_start(UPP T s, T e, T i, T *a, T *b) { I x, y; bool r = ws_start(kind, ord, (I)s, (I)e, UPA, 0, x, y); if (r) { *a = (T)x; *b = (T)y; } return r; } \
API bool GOMP_loop_##pre##name##_next(T *a, T *b) { I x, y; bool r = next_any(x, y); if (r) { *a = (T)x; *b = (T)y; } return r; }
#define NOARG
#define BOTH(name, kind, ord) \
  LOOP1(long, , name, kind, ord, NOARG, (I)i) \
  LOOP1(unsigned long long, ull_, name, kind, ord, bool up COMMA, (up ? (I)i : -(I)(unsigned long long)(-(long long)i)))
#define BOTHR(name, kind, ord) \
  LOOP1R(long, , name, kind, ord, NOARG, (I)i) \
  LOOP1R(unsigned long long, ull_, name, kind, ord, bool up COMMA, (up ? (I)i : -(I)(unsigned long long)(-(long long)i)))
#define COMMA ,
BOTH(static, 0, false) BOTH(dynamic, 1, false) BOTH(guided, 2, false)
BOTH(nonmonotonic_dynamic, 1, false) BOTH(nonmonotonic_guided, 2, false)
BOTH(ordered_static, 0, true) BOTH(ordered_dynamic, 1, true) BOTH(ordered_guided, 2, true)
BOTHR(runtime, 1, false) BOTHR(nonmonotonic_runtime, 1, false) BOTHR(maybe_nonmonotonic_runtime, 1, false) BOTHR(ordered_runtime, 1, true)
API void GOMP_loop_end() { ws_end(true); }
API void GOMP_loop_end_nowait() { ws_end(false); }
API bool GOMP_loop_end_cancel() { ws_end(true); return false; }
API void GOMP_ordered_start() {
  Guard gd;
  ThrState &s = ts();
  if (s.cur && s.cur->ordered && s.has_ticket) { while (s.cur->turn != s.ticket) wait_on(s.cur->osync, true); hb_acquire(s.cur->osync); }
}
API void GOMP_ordered_end() { Guard gd; ThrState &s = ts(); if (s.cur && s.cur->osync) hb_release(s.cur->osync); }

// ---- single, sections ------------------------------------------------------------------
API bool GOMP_single_start() {
  step_point(); Guard gd;
  Team *t = team_or_solo();
  if (t == &solo_team) return true;
  WS *w = meet(t, 3, 0, 0, 1, 0);
  if (w->taken) return false;
  return w->taken = true;
}
API void *GOMP_single_copy_start() {
  step_point(); Guard gd;
  Team *t = team_or_solo();
  if (t == &solo_team) return nullptr;
  WS *w = meet(t, 3, 0, 0, 1, 0);
  ts().cur = w;
  if (!w->csync) w->csync = sim_sync_new();
  if (!w->taken) { w->taken = true; return nullptr; }
  while (!w->copied) wait_on(w->csync, true);
  hb_acquire(w->csync);
  return w->copy;
}
API void GOMP_single_copy_end(void *d) {
  { Guard gd; WS *w = ts().cur; if (w) { w->copy = d; w->copied = true; sim_wake_all(w->csync); ts().cur = nullptr; } }
}
API unsigned GOMP_sections_next() { step_point(); Guard gd; WS *w = ts().cur; if (!w && cur_team()) w = ts().cur = cur_team()->pre; if (!w || w->sec_next >= w->sections) return 0; return (unsigned)++w->sec_next; }
API unsigned GOMP_sections_start(unsigned n) {
  { Guard gd; WS *w = meet(team_or_solo(), 3, 0, 0, 1, 0); w->sections = n; ts().cur = w; }
  return GOMP_sections_next();
}
API void GOMP_sections_end() { ws_end(true); }
API void GOMP_sections_end_nowait() { ws_end(false); }
API void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) {
  WS *w = mk_ws(3, 0, 0, 1, 0); w->sections = count; run_team(fn, d, n, w);
}

// ---- locks --------------------------------------------------------------------------------
struct Lock { bool held; Task *owner; int depth; sim_sync *s; };
static omap<uptr, Lock> *locks;
static Lock &lock_of(void *p) {
  if (!locks) { locks = (omap<uptr, Lock> *)malloc(sizeof *locks); new (locks) omap<uptr, Lock>(); }
  uptr k = (uptr)p; if (in_exe(k) || k < 4096) k |= (uptr)g.cur_loc << 56;
  Lock &l = (*locks)[k];
  if (!l.s) l.s = sim_sync_new();
  return l;
}
static void do_lock(void *p, bool nest) {
  if (!g.cur) return;
  step_point(); Guard gd;
  Lock &l = lock_of(p);
  if (nest && l.held && l.owner == g.cur) { l.depth++; return; }
  while (l.held) wait_on(l.s, true);
  l.held = true; l.owner = g.cur; l.depth = 1;
  hb_acquire(l.s);
}
static void do_unlock(void *p) {
  if (!g.cur) return;
  { Guard gd; Lock &l = lock_of(p); if (--l.depth > 0) return; l.held = false; l.owner = nullptr; sim_wake_one(l.s); }
  step_point();
}
static int do_try(void *p, bool nest) {
  if (!g.cur) return 1;
  step_point(); Guard gd;
  Lock &l = lock_of(p);
  if (nest && l.held && l.owner == g.cur) return ++l.depth;
  if (l.held) return 0;
  l.held = true; l.owner = g.cur; l.depth = 1; hb_acquire(l.s);
  return 1;
}
API void GOMP_critical_start() { do_lock((void *)1, false); }
API void GOMP_critical_end() { do_unlock((void *)1); }
API void GOMP_critical_name_start(void **p) { do_lock(p, false); }
API void GOMP_critical_name_end(void **p) { do_unlock(p); }
API void GOMP_atomic_start() { do_lock((void *)2, false); }
API void GOMP_atomic_end() { do_unlock((void *)2); }
API void omp_init_lock(void *) {}
API void omp_destroy_lock(void *) {}
API void omp_set_lock(void *p) { do_lock(p, false); }
API void omp_unset_lock(void *p) { do_unlock(p); }
API int omp_test_lock(void *p) { return do_try(p, false); }
API void omp_init_nest_lock(void *) {}
API void omp_destroy_nest_lock(void *) {}
API void omp_set_nest_lock(void *p) { do_lock(p, true); }
API void omp_unset_nest_lock(void *p) { do_unlock(p); }
API int omp_test_nest_lock(void *p) { return do_try(p, true); }

// ---- tasks: executed at once by the encountering thread (always allowed) ---------------------
API void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  if (cpy) {
    char *buf; { Guard gd; buf = (char *)malloc(size + align); }
    char *a = (char *)(((uptr)buf + align - 1) & ~(uptr)(align - 1));
    cpy(a, data); fn(a);
    Guard gd; free(buf);
  } else fn(data);
}
static void taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned long long s, unsigned long long e) {
  char *buf; { Guard gd; buf = (char *)malloc(size + align); }
  char *a = (char *)(((uptr)buf + align - 1) & ~(uptr)(align - 1));
  if (cpy) cpy(a, data); else memcpy(a, data, size);
  ((unsigned long long *)a)[0] = s; ((unsigned long long *)a)[1] = e;
  fn(a);
  Guard gd; free(buf);
}
API void GOMP_taskloop(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, unsigned, unsigned long, int, long s, long e, long) {
  if (s != e) taskloop(fn, d, cpy, sz, al, s, e); }
API void GOMP_taskloop_ull(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, unsigned, unsigned long, int, unsigned long long s, unsigned long long e, unsigned long long) {
  if (s != e) taskloop(fn, d, cpy, sz, al, s, e); }
API void GOMP_taskwait() {}
API void GOMP_taskwait_depend(void **) {}
API void GOMP_taskyield() { step_point(); }
API void GOMP_taskgroup_start() {}
API void GOMP_taskgroup_end() {}

// ---- omp_* API -----------------------------------------------------------------------------------
API int omp_get_thread_num() { return g.cur ? g.cur->tnum : 0; }
API int omp_get_num_threads() { Team *t = cur_team(); return t ? t->n : 1; }
API int omp_get_max_threads() { return icv(); }
API int omp_get_num_procs() { return g.omp_threads > 0 ? g.omp_threads : 1; }
API int omp_in_parallel() { Team *t = cur_team(); return t && t->n > 1; }
API void omp_set_num_threads(int n) { if (g.cur) g.cur->nthreads_icv = n > 0 ? n : 1; }
API void omp_set_dynamic(int v) { dyn_var = v; }
API int omp_get_dynamic() { return dyn_var; }
API void omp_set_nested(int) {}
API int omp_get_nested() { return 0; }
API void omp_set_schedule(int, int) {}
API void omp_get_schedule(int *k, int *c) { *k = 1; *c = 0; }
API int omp_get_thread_limit() { return 64; }
API void omp_set_max_active_levels(int) {}
API int omp_get_max_active_levels() { return 1; }
API int omp_get_supported_active_levels() { return 1; }
API int omp_get_level() { int l = 0; for (Team *t = cur_team(); t; t = t->outer) l++; return l; }
API int omp_get_active_level() { return omp_in_parallel(); }
API int omp_get_ancestor_thread_num(int l) { int n = omp_get_level(); return l == n ? omp_get_thread_num() : l == 0 ? 0 : -1; }
API int omp_get_team_size(int l) { return l == omp_get_level() ? omp_get_num_threads() : l == 0 ? 1 : -1; }
API int omp_in_final() { return 0; }
API int omp_get_cancellation() { return 0; }
API int omp_get_proc_bind() { return 0; }
API double omp_get_wtime() { return g.active ? sim_clock() * 1e-9 : 0; }
API double omp_get_wtick() { return 1e-9; }
