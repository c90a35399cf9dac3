// Scheduler, decisions, faults, network, simulated time.
#include "internal.h"
#include <cmath>
#include <mutex>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>

G g;
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

uint64_t sync_mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static uint64_t rnd(uint64_t &s) { s += 0x9e3779b97f4a7c15ull; return sync_mix(s); }
static inline void fold(uint64_t &h, uint64_t v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }

void sim_trace(const char *fmt, ...) {
  if (!g.trace) return;
  va_list ap; va_start(ap, fmt);
  fprintf(g.tracef, "# t=%lluns ", (unsigned long long)now_ns());
  vfprintf(g.tracef, fmt, ap);
  fputc('\n', g.tracef);
  va_end(ap);
}

// ---- violations ---------------------------------------------------------------
static void vvio(const char *cls, uptr pc, const char *fmt, va_list ap) {
  Result *r = g.res;
  char buf[400];
  memset(buf, 0, sizeof buf);
  vsnprintf(buf, sizeof buf, fmt, ap);
  for (char *p = buf; *p; p++) if (*p < ' ' || *p > '~') *p = '?'; // quoted program output can be garbage
  for (uint32_t i = 0; i < r->nvio; i++) if (!strcmp(r->vio[i].cls, cls)) return; // first of each class
  sim_trace("VIOLATION %s: %s", cls, buf);
  if (r->nvio >= MAXVIO) return;
  auto &v = r->vio[r->nvio];
  snprintf(v.cls, sizeof v.cls, "%s", cls);
  memcpy(v.detail, buf, sizeof buf);
  v.pc = pc ? pc - exe_base : 0;
  r->nvio++;
  for (const char *p = cls; *p; p++) fold(r->hash, *p);
}
void vio(const char *cls, uptr pc, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vvio(cls, pc, fmt, ap); va_end(ap);
}
extern "C" void sim_report(const char *cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vvio(cls, 0, fmt, ap); va_end(ap);
}
extern "C" void sim_note(const char *fmt, ...) {
  Result *r = g.res;
  size_t l = strlen(r->note);
  va_list ap; va_start(ap, fmt);
  vsnprintf(r->note + l, sizeof r->note - l, fmt, ap);
  va_end(ap);
}
extern "C" void sim_probe(const char *name) {
  Result *r = g.res;
  for (uint32_t i = 0; i < r->nprobe; i++) if (!strcmp(r->probe[i], name)) return;
  if (r->nprobe < 48) snprintf(r->probe[r->nprobe++], 40, "%s", name);
}
extern "C" void sim_hash(uint64_t v) { fold(g.res->hash, v); }
extern "C" void sim_budget(uint64_t steps) {
  g.budget = g.steps + steps;
  g.deadline = std::min(g.preempt_at, g.budget + 1);
}
extern "C" int sim_thorough(void) { return g.thorough; }

void finish(uint32_t status) {
  Result *r = g.res;
  r->steps = g.steps; r->simtime = now_ns(); r->tasks = g.next_task; r->parcels = g.parcel_count; r->allocs = g.alloc_total;
  fold(r->hash, g.steps); fold(r->hash, g.next_task); fold(r->hash, g.parcel_count);
  r->status = status;
  if (g.trace && g.tracef) fflush(g.tracef);
  _exit(0);
}
static void *roots[8];
extern "C" void **sim_root(int i) { return &roots[i]; }
extern "C" void sim_done(void) { g.active = false; g.hooks = false; finish(1); }

// ---- decisions ------------------------------------------------------------------
static uint32_t record(int k, uint32_t v) {
  uint32_t p = g.pos[k]++;
  if ((int)p < STREAM_CAP[k]) { g.out[k][p] = v; g.res->len[k] = p + 1; return v; }
  return 0;
}
static bool exhausted(int k) { return (int)g.pos[k] >= STREAM_CAP[k]; }
static uint32_t replayed(int k) {
  uint32_t p = g.pos[k];
  return p < g.in.len[k] ? g.in.s[k][p] : 0;
}
extern "C" uint32_t sim_choose(int k, uint32_t n) {
  if (n <= 1) return 0;
  if (exhausted(k)) return 0;
  uint32_t v = g.replay ? replayed(k) % n : (uint32_t)(rnd(g.rng[k]) % n);
  return record(k, v);
}
extern "C" uint32_t sim_choose_w(int k, uint32_t n, uint32_t zero_permille) {
  if (n <= 1) return 0;
  if (exhausted(k)) return 0;
  uint32_t v;
  if (g.replay) v = replayed(k) % n;
  else {
    uint64_t r = rnd(g.rng[k]);
    v = (r % 1000 < zero_permille) ? 0 : 1 + (uint32_t)((r >> 20) % (n - 1));
  }
  return record(k, v);
}
extern "C" uint64_t sim_data64(void) { return rnd(g.rng[SIM_K_DATA]); }

// log-uniform in [1, 2^bits)
static uint64_t log_uniform(uint64_t r, int bits) {
  int b = (int)((r >> 40) % bits);
  return (1ull << b) + ((r & 0xffffffff) % (1ull << b));
}
// 0 = never, otherwise log-uniform position
static uint64_t choose_pos(int k, int bits, uint32_t zero_permille) {
  if (exhausted(k)) return 0;
  uint32_t v;
  if (g.replay) v = replayed(k);
  else {
    uint64_t r = rnd(g.rng[k]);
    v = (r % 1000 < zero_permille) ? 0 : (uint32_t)log_uniform(rnd(g.rng[k]), bits);
  }
  return record(k, v);
}

static void set_deadline(uint64_t v) {
  g.preempt_at = v ? g.steps + v : UINT64_MAX;
  g.deadline = std::min(g.preempt_at, g.budget + 1);
}
static void arm() {
  if (exhausted(SIM_K_PREEMPT)) { set_deadline(0); return; }
  uint32_t v;
  if (g.replay) v = replayed(SIM_K_PREEMPT);
  else if (g.pmean <= 0) v = 0;
  else {
    double u = ((rnd(g.srng) >> 11) + 1) * (1.0 / 9007199254740993.0);
    double x = -std::log(u) * g.pmean + 1;
    v = x > 4e9 ? 0 : (uint32_t)x;
  }
  record(SIM_K_PREEMPT, v);
  set_deadline(v);
}

// ---- time ------------------------------------------------------------------------
uint64_t now_ns() { return g.now_base + (g.steps - g.now_steps); }
static void advance_to(uint64_t t) { if (t > now_ns()) { g.now_base = t; g.now_steps = g.steps; } }
extern "C" uint64_t sim_now(void) { return now_ns(); }
extern "C" uint64_t sim_clock(void) {
  uint64_t t = now_ns();
  for (int i = 0; i < 2; i++)
    if (g.clock_jump_at[i] && t >= g.clock_jump_at[i] && !g.faults_off) {
      g.clock_off += g.clock_jump_by[i];
      g.clock_jump_at[i] = 0;
      g.res->faults[SIM_F_CLOCK]++;
      sim_trace("FAULT clock jump %lld ns", (long long)g.clock_jump_by[i]);
    }
  return t + 1000000000000000ull + g.clock_off;
}

// ---- happens-before -----------------------------------------------------------------
static void vc_join(VC &a, VC const &b) { for (int i = 0; i < NSLOTS; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void tick(Task *t) { t->vc.c[t->slot] = ++g.slotclk[t->slot]; }
void hb_release(sim_sync *s) {
  if (!g.cur) return;
  if (!s->has) { s->vc = g.cur->vc; s->has = true; } else vc_join(s->vc, g.cur->vc);
  tick(g.cur);
}
void hb_acquire(sim_sync *s) { if (g.cur && s->has) vc_join(g.cur->vc, s->vc); }
extern "C" sim_sync *sim_sync_new(void) {
  sim_sync *s = (sim_sync *)calloc(1, sizeof(sim_sync));
  new (&s->q) vec<Task *>();
  return s;
}
extern "C" void sim_sync_free(sim_sync *s) { if (s) { s->q.~vector(); free(s); } }
extern "C" void sim_sync_merge(sim_sync *d, sim_sync *s) {
  if (!s->has) return;
  if (!d->has) { d->vc = s->vc; d->has = true; } else vc_join(d->vc, s->vc);
}
extern "C" void sim_release(sim_sync *s) { hb_release(s); }
extern "C" void sim_acquire(sim_sync *s) { hb_acquire(s); }

// ---- tasks and context switch ---------------------------------------------------------
extern "C" void sim_ctx_switch(void **save, void *load);
asm(R"(
.text
.globl sim_ctx_switch
.hidden sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

static void set_hooks() { g.hooks = g.active && g.cur && g.cur->guard == 0; }
static void image_to(int loc);
static void tls_to(Worker *w);

static void task_exit(Task *t) {
  hb_release(t->join);
  t->st = T_DONE;
  vec<Task *> q; q.swap(t->join->q);
  for (Task *x : q) make_runnable(x);
}

static void fiber_main() noexcept {
  Task *t = g.cur;
  t->fn(t->arg);
  t->guard = 1; set_hooks();
  task_exit(t);
  void *dummy;
  sim_ctx_switch(&dummy, g.sched_sp);
  abort();
}

static int big_stack(Task *t) { return t->os; }

static bool give_stack(Task *t) {
  vec<int> &fl = big_stack(t) ? g.free_b : g.free_s;
  if (fl.empty()) { snprintf(g.res->why, sizeof g.res->why, "out of simulated stacks"); return false; }
  int i = fl.back(); fl.pop_back();
  t->stack = i;
  g.stack_owner[i] = t;
  if (i < NSSTACK) { t->stk_lo = SS_BASE + i * SSTACK; t->stk_hi = t->stk_lo + SSTACK; }
  else { t->stk_lo = BS_BASE + (i - NSSTACK) * BSTACK; t->stk_hi = t->stk_lo + BSTACK; }
  t->stk_min = t->stk_hi;
  uptr top = t->stk_hi - 256;
  uint64_t *p = (uint64_t *)(top & ~63ull);
  *--p = 0;                    // fake return address of fiber_main (keeps rsp%16==8 at entry)
  *--p = (uint64_t)fiber_main; // ret target
  for (int i = 0; i < 6; i++) *--p = 0;
  *--p = 0;
  uint32_t mx; asm volatile("stmxcsr %0" : "=m"(mx));
  uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw));
  ((uint32_t *)p)[0] = mx;
  ((uint16_t *)p)[2] = cw;
  t->sp = p;
  return true;
}

Task *new_task(int loc, sim_fn fn, void *arg, const char *name, bool os) {
  Task *t = (Task *)calloc(1, sizeof(Task));
  t->id = ++g.next_task;
  t->loc = loc; t->fn = fn; t->arg = arg; t->name = name;
  t->st = T_RUNNABLE; t->os = os; t->stack = -1;
  t->join = sim_sync_new();
  int n = g.slots_per_loc;
  t->slot = loc * n + (g.slot_next[loc]++ % n);
  if (g.cur) { t->vc = g.cur->vc; tick(g.cur); }
  t->vc.c[t->slot] = ++g.slotclk[t->slot];
  t->nthreads_icv = g.cur ? g.cur->nthreads_icv : 0;
  return t;
}

Worker *add_worker(int loc, int idx, bool os) {
  Worker *w = (Worker *)calloc(1, sizeof(Worker));
  w->id = g.workers.size(); w->loc = loc; w->idx = idx; w->os = os;
  w->prio = rnd(g.srng) | (1ull << 63);
  if (tls_sz) {
    w->tls = (char *)malloc(tls_sz);
    extern const void *tls_init; extern size_t tls_init_sz;
    memset(w->tls, 0, tls_sz);
    memcpy(w->tls, tls_init, tls_init_sz);
  }
  g.workers.push_back(w);
  return w;
}

void make_runnable(Task *t) {
  if (t->st != T_BLOCKED) return;
  t->st = T_RUNNABLE;
  t->waiting = nullptr;
  if (!t->w) g.ready[t->loc].push_back(t);
}

// switch from the current task back to the scheduler
static void to_sched() {
  Task *t = g.cur;
  sim_ctx_switch(&t->sp, g.sched_sp);
}

void block_current(bool os) {
  Task *t = g.cur;
  t->st = T_BLOCKED;
  t->wseq++;
  if (!os && !t->os) { t->w->cur = nullptr; t->w = nullptr; }
  to_sched();
}
void wait_on(sim_sync *s, bool os) {
  s->q.push_back(g.cur);
  g.cur->waiting = s;
  block_current(os);
  hb_acquire(s);
}
extern "C" void sim_wait(sim_sync *s) { wait_on(s, false); }
extern "C" void sim_wake_all(sim_sync *s) {
  hb_release(s);
  vec<Task *> q; q.swap(s->q);
  for (Task *t : q) make_runnable(t);
}
extern "C" void sim_wake_one(sim_sync *s) {
  hb_release(s);
  if (s->q.empty()) return;
  Task *t = s->q.front();
  s->q.erase(s->q.begin());
  make_runnable(t);
}
extern "C" void sim_guard_enter(void) { if (g.cur) { g.cur->guard++; g.hooks = false; } }
extern "C" void sim_guard_exit(void) { if (g.cur) { g.cur->guard--; set_hooks(); } }
extern "C" int sim_guard_depth(void) { return g.cur ? g.cur->guard : 0; }

extern "C" void sim_yield(void) {
  Task *t = g.cur;
  if (!t) return;
  if (!t->os) { t->w->cur = nullptr; t->w = nullptr; g.ready[t->loc].push_back(t); }
  to_sched();
}

extern "C" int sim_locality(void) { return g.cur_loc; }
extern "C" int sim_num_localities(void) { return g.nloc; }
extern "C" int sim_locality_alive(int l) { return g.alive[l]; }
extern "C" int sim_worker_index(void) { return g.curw ? g.curw->idx : 0; }
extern "C" int sim_num_workers(int l) { return g.nworkers[l]; }
extern "C" uint64_t sim_task_id(void) { return g.cur ? g.cur->id : 0; }
extern "C" int sim_is_hpx_task(void) { return g.cur && !g.cur->os; }

extern "C" void sim_spawn(int loc, sim_fn fn, void *arg, const char *name) {
  Task *t = new_task(loc, fn, arg, name, false);
  g.ready[loc].push_back(t);
}

struct ThreadRec { Task *t; };
static vec<Task *> *threads;
extern "C" uint64_t sim_thread_start(sim_fn fn, void *arg, const char *name) { return sim_thread_start_at(g.cur_loc, fn, arg, name); }
extern "C" uint64_t sim_thread_start_at(int loc, sim_fn fn, void *arg, const char *name) {
  Task *t = new_task(loc, fn, arg, name, true);
  Worker *w = add_worker(loc, 1000 + (int)g.workers.size(), true);
  w->cur = t; t->w = w;
  if (!threads) { threads = (vec<Task *> *)malloc(sizeof *threads); new (threads) vec<Task *>(); }
  threads->push_back(t);
  return threads->size();
}
extern "C" void sim_thread_join(uint64_t h) {
  Task *t = (*threads)[h - 1];
  if (t->st != T_DONE) wait_on(t->join, true);
  hb_acquire(t->join);
}

// ---- events --------------------------------------------------------------------------
static bool ev_later(Event const &a, Event const &b) { return a.at != b.at ? a.at > b.at : a.seq > b.seq; }
static void push_event(Event e) {
  e.seq = ++g.seq;
  g.events.push_back(e);
  std::push_heap(g.events.begin(), g.events.end(), ev_later);
}
struct EvHB { sim_sync *s; };
// happens-before of messages: the sender's clock travels with the message
struct Msg { sim_fn fn; void *arg; sim_sync *s; };
static void msg_run(void *p) {
  Msg *m = (Msg *)p;
  hb_acquire(m->s);
  sim_sync_free(m->s);
  sim_fn fn = m->fn; void *arg = m->arg;
  free(m);
  fn(arg);
}
static Msg *make_msg(sim_fn fn, void *arg) {
  Msg *m = (Msg *)malloc(sizeof(Msg));
  m->fn = fn; m->arg = arg; m->s = sim_sync_new();
  hb_release(m->s);
  return m;
}

static uint64_t latency() {
  // 0 = 200ns; otherwise log-uniform up to ~4 ms
  uint32_t c = sim_choose(SIM_K_NET, 64);
  uint64_t l = 200;
  if (c) l = 200 + ((uint64_t)1 << (c % 16)) * (1 + c / 16) * 30;
  for (int i = 0; i < 2; i++)
    if (g.slow_at[i] && g.parcel_count == g.slow_at[i] && !g.faults_off) {
      l += 3000000000ull; g.res->faults[SIM_F_SLOWNET]++;
      sim_trace("FAULT message %llu delayed by 3s", (unsigned long long)g.parcel_count);
    }
  return l;
}
static bool net_error_now() {
  if (g.faults_off) return false;
  for (int i = 0; i < 3; i++) if (g.net_err_at[i] && g.parcel_count == g.net_err_at[i]) return true;
  return false;
}
static void check_crash();

extern "C" uint64_t sim_call(int dst, sim_fn deliver, sim_fn fail, void *arg, const char *name) {
  g.calls.push_back(Call{g.cur_loc, dst, fail, arg, false, false});
  uint64_t id = g.calls.size();
  g.parcel_count++;
  uint64_t lat = latency();
  if (net_error_now()) {
    g.res->faults[SIM_F_NET_ERROR]++;
    sim_trace("FAULT request %llu (%s) to locality %d lost: network_error", (unsigned long long)id, name, dst);
    g.calls[id - 1].failed = true;
    push_event(Event{now_ns() + lat, 0, 0, g.cur_loc, msg_run, make_msg(fail, arg), "net_error", id, 3});
  } else {
    sim_trace("send request %llu (%s) %d->%d latency %llu", (unsigned long long)id, name, g.cur_loc, dst, (unsigned long long)lat);
    push_event(Event{now_ns() + lat, 0, 0, dst, msg_run, make_msg(deliver, arg), name, id, 1});
  }
  check_crash();
  return id;
}
extern "C" void sim_reply(uint64_t id, sim_fn deliver, void *arg) {
  Call &c = g.calls[id - 1];
  if (c.failed) return;
  g.parcel_count++;
  uint64_t lat = latency();
  c.replied = true;
  if (net_error_now()) {
    g.res->faults[SIM_F_NET_ERROR]++;
    sim_trace("FAULT reply to request %llu lost: network_error", (unsigned long long)id);
    c.failed = true;
    push_event(Event{now_ns() + lat, 0, 0, c.src, msg_run, make_msg(c.fail, c.arg), "net_error", id, 3});
  } else {
    sim_trace("send reply %llu %d->%d latency %llu", (unsigned long long)id, g.cur_loc, c.src, (unsigned long long)lat);
    push_event(Event{now_ns() + lat, 0, 0, c.src, msg_run, make_msg(deliver, arg), "reply", id, 2});
  }
  check_crash();
}
extern "C" void sim_agas(sim_fn handler, void *arg) {
  uint64_t lat = g.cur_loc == 0 ? 0 : latency();
  if (g.cur_loc == 0) {                       // local to the name service: small async delay
    uint32_t c = sim_choose(SIM_K_NET, 16);
    lat = c ? (10ull << c) : 0;
  } else g.parcel_count++;
  push_event(Event{now_ns() + lat, 0, 1, 0, handler, arg, "agas", 0, 0});
}
struct Timeout { Task *t; uint64_t wseq; };
static void wake_task_ev(void *p) {
  Timeout *x = (Timeout *)p;
  if (x->t->st == T_BLOCKED && x->t->wseq == x->wseq) {
    if (sim_sync *s = x->t->waiting)
      for (size_t i = 0; i < s->q.size(); i++) if (s->q[i] == x->t) { s->q.erase(s->q.begin() + i); break; }
    make_runnable(x->t);
    x->t->waiting = (sim_sync *)1; // tells the waiter that it timed out
  }
  free(x);
}
static void arm_timeout(uint64_t at) {
  Timeout *x = (Timeout *)malloc(sizeof *x);
  x->t = g.cur; x->wseq = g.cur->wseq + 1;
  push_event(Event{at, 0, 2, g.cur->loc, wake_task_ev, x, "timeout", 0, 0});
}
void sleep_until(uint64_t at, bool os) { arm_timeout(at); block_current(os); g.cur->waiting = nullptr; }
bool wait_on_until(sim_sync *s, bool os, uint64_t at) {
  arm_timeout(at);
  Task *t = g.cur;
  s->q.push_back(t);
  t->waiting = s;
  block_current(os);
  bool timed_out = t->waiting == (sim_sync *)1;
  t->waiting = nullptr;
  if (!timed_out) hb_acquire(s);
  return !timed_out;
}
extern "C" void sim_sleep(uint64_t ns) { sleep_until(now_ns() + ns, false); }
void step_point() { if (g.hooks && ++g.steps >= g.deadline) preempt_point(); }

// ---- crash of a locality -----------------------------------------------------------------
static void do_crash(int loc) {
  if (!g.alive[loc]) return;
  g.alive[loc] = false;
  g.res->faults[SIM_F_CRASH]++;
  sim_trace("FAULT locality %d crashes", loc);
  for (Worker *w : g.workers) if (w->loc == loc) w->dead = true;
  g.ready[loc].clear();
  for (size_t i = 0; i < g.calls.size(); i++) {
    Call &c = g.calls[i];
    if (c.dst == loc && !c.replied && !c.failed && g.alive[c.src]) {
      c.failed = true;
      push_event(Event{now_ns() + latency(), 0, 0, c.src, msg_run, make_msg(c.fail, c.arg), "net_error", i + 1, 3});
    }
  }
}
static void check_crash() {
  if (g.crash_loc > 0 && g.crash_at_parcel && g.parcel_count >= g.crash_at_parcel && !g.faults_off) {
    int l = g.crash_loc; g.crash_at_parcel = 0;
    if (l < g.nloc && l != g.cur_loc) do_crash(l);
    else if (l < g.nloc) push_event(Event{now_ns(), 0, 3, l, nullptr, nullptr, "crash", 0, 0});
  }
}

static void deliver_due() {
  while (!g.events.empty() && g.events.front().at <= now_ns()) {
    std::pop_heap(g.events.begin(), g.events.end(), ev_later);
    Event e = g.events.back();
    g.events.pop_back();
    fold(g.res->hash, e.kind * 31 + e.loc); fold(g.res->hash, e.call * 4 + e.phase);
    fold(g.res->ihash, e.call * 8 + e.phase + 1);
    if (e.kind == 0) {
      if (!g.alive[e.loc]) {
        if (e.phase == 1) { // request to a dead locality
          Call &c = g.calls[e.call - 1];
          if (!c.failed && g.alive[c.src]) {
            c.failed = true;
            push_event(Event{now_ns() + 1000, 0, 0, c.src, msg_run, make_msg(c.fail, c.arg), "net_error", e.call, 3});
          }
        }
        continue;
      }
      if (e.phase == 2 && g.calls[e.call - 1].failed) continue;
      sim_trace("deliver %s (call %llu) at locality %d", e.name, (unsigned long long)e.call, e.loc);
      sim_spawn(e.loc, e.fn, e.arg, e.name);
    } else if (e.kind == 1) {
      image_to(0); g.cur_loc = 0;
      e.fn(e.arg);
    } else if (e.kind == 2) {
      if (g.alive[e.loc]) e.fn(e.arg);
    } else if (e.kind == 3) do_crash(e.loc);
  }
}

// ---- faults ---------------------------------------------------------------------------------
// Allocations are told apart by where they come from (the innermost callers), so that a rarely
// executed one fails as often as a frequent one: the nth allocation of the kth place to appear fails.
static struct { uint64_t key; uint32_t idx, count; } alloc_sites[1024];
static uint32_t n_alloc_sites;
static uint64_t alloc_site, alloc_site_depth, alloc_site_nth;
static bool alloc_site_fault(uptr fp) {
  if (!alloc_site) return false;
  uint64_t h = 1469598103934665603ull, left = alloc_site_depth;
  for (int i = 0; i < 24 && left; i++) {
    if (fp - g.cur->stk_lo >= g.cur->stk_hi - g.cur->stk_lo - 16 || (fp & 7)) break;
    uptr pc = ((uptr *)fp)[1] - exe_base, up = *(uptr *)fp;
    if (pc < (1u << 28)) { h = (h ^ pc) * 1099511628211ull; left--; }
    if (up <= fp) break;
    fp = up;
  }
  h |= 1;
  for (uint32_t i = h >> 20;; i++) {
    auto &s = alloc_sites[i & 1023];
    if (!s.key) {
      if (n_alloc_sites >= 900) return false;
      s.key = h; s.idx = ++n_alloc_sites;
    }
    if (s.key == h) return ++s.count == alloc_site_nth && s.idx == alloc_site;
  }
}
extern "C" void sim_fault_enable(unsigned mask) {
  g.fault_mask = mask; g.faults_off = false;
  if (mask & (1u << SIM_F_ALLOC)) for (int i = 0; i < 2; i++) {
    uint64_t p = choose_pos(SIM_K_FAULT, 11, i ? 850 : 450); g.alloc_fail_at[i] = p ? g.alloc_count + p : 0; }
  if (mask & (1u << SIM_F_ALLOC)) {
    memset(alloc_sites, 0, sizeof alloc_sites); n_alloc_sites = 0;
    alloc_site = sim_choose(SIM_K_FAULT, 4) ? 1 + sim_choose(SIM_K_FAULT, 40) : choose_pos(SIM_K_FAULT, 8, 300);
    alloc_site_depth = alloc_site ? 2 + sim_choose(SIM_K_FAULT, 6) : 0;
    alloc_site_nth = alloc_site ? 1 + choose_pos(SIM_K_FAULT, 5, 400) : 0;
  }
  if (mask & (1u << SIM_F_NET_ERROR)) for (int i = 0; i < 3; i++) {
    uint64_t p = choose_pos(SIM_K_FAULT, 7, i ? 600 : 150); g.net_err_at[i] = p ? g.parcel_count + p : 0; }
  if (mask & (1u << SIM_F_SLOWNET)) for (int i = 0; i < 2; i++) {
    uint64_t p = choose_pos(SIM_K_FAULT, 7, 300); g.slow_at[i] = p ? g.parcel_count + p : 0; }
  if ((mask & (1u << SIM_F_CRASH)) && g.nloc > 1) {
    uint64_t p = choose_pos(SIM_K_FAULT, 8, 200);
    g.crash_loc = 1 + sim_choose(SIM_K_FAULT, g.nloc - 1);
    g.crash_at_parcel = p ? g.parcel_count + p : 0;
  }
  if (mask & (1u << SIM_F_FLIP)) { uint64_t p = choose_pos(SIM_K_FAULT, 6, 0); g.flip_at = p ? g.payload_count + p : 0; }
  if (mask & (1u << SIM_F_CLOCK)) for (int i = 0; i < 2; i++) {
    uint64_t p = choose_pos(SIM_K_FAULT, 22, 250);
    static const int64_t by[] = {0, 1000000000ll, -1000000000ll, 3600000000000ll, -3600000000000ll, -50000ll, 1, -1};
    g.clock_jump_by[i] = by[sim_choose(SIM_K_FAULT, 8)];
    g.clock_jump_at[i] = p ? now_ns() + p : 0;
  }
  if (mask & (1u << SIM_F_STALL)) g.stall_every = choose_pos(SIM_K_FAULT, 8, 200);
}
extern "C" void sim_faults_off(void) { g.faults_off = true; }
extern "C" uint64_t sim_fault_count(int k) { return g.res->faults[k]; }
bool alloc_fault() {
  uptr fp = (uptr)__builtin_frame_address(0);
  g.alloc_total++;
  if (!(g.fault_mask & (1u << SIM_F_ALLOC)) || g.faults_off) return false;
  uint64_t n = ++g.alloc_count;
  for (int i = 0; i < 2; i++) if (g.alloc_fail_at[i] == n) {
    g.res->faults[SIM_F_ALLOC]++;
    sim_trace("FAULT allocation %llu fails", (unsigned long long)n);
    return true;
  }
  if (alloc_site_fault(fp)) {
    g.res->faults[SIM_F_ALLOC]++;
    sim_trace("FAULT allocation %llu fails (number %llu of its kind)", (unsigned long long)n, (unsigned long long)alloc_site_nth);
    return true;
  }
  return false;
}
extern "C" uint64_t sim_flip_bits(void) {
  if (!(g.fault_mask & (1u << SIM_F_FLIP)) || g.faults_off) return 0;
  if (++g.payload_count != g.flip_at) return 0;
  g.res->faults[SIM_F_FLIP]++;
  return 1;
}

// ---- set-up ------------------------------------------------------------------------------------
extern "C" void sim_setup(int nloc, const int *workers, int omp_threads) {
  if (nloc > MAXLOC) nloc = MAXLOC;
  g.nloc = nloc;
  g.omp_threads = omp_threads;
  if (nloc > 1) {
    // repartition the clock slots so that a slot never changes locality
    g.slots_per_loc = NSLOTS / nloc;
    for (int l = 0; l < nloc; l++) g.slot_next[l] = (l == 0) ? 1 : 0;
  }
  for (int l = 0; l < nloc; l++) {
    g.alive[l] = true;
    g.nworkers[l] = workers[l];
    for (int i = 0; i < workers[l]; i++) add_worker(l, i, false);
  }
}

// ---- per-locality images of the program's writable data, per-worker TLS -------------------------------
static vec<char *> *images; // image of each locality's globals (null while loaded)
static char *pristine;
static size_t img_sz() { return exe_hi - exe_lo; }
static void copy_data(char *dst, const char *src) { memcpy(dst, src, img_sz()); }
static void image_to(int loc) {
  if (g.nloc <= 1 || g.last_loc_image == loc || !img_sz()) return;
  if (!images) { images = (vec<char *> *)malloc(sizeof *images); new (images) vec<char *>(MAXLOC, (char *)nullptr); }
  char *&o = (*images)[g.last_loc_image];
  if (!o) o = (char *)malloc(img_sz());
  copy_data(o, (char *)exe_lo);
  char *n = (*images)[loc];
  copy_data((char *)exe_lo, n ? n : pristine);
  g.last_loc_image = loc;
}
static void tls_to(Worker *w) {
  if (!tls_sz || g.last_tls == w) return;
  if (g.last_tls) memcpy(g.last_tls->tls, (void *)tls_lo, tls_sz);
  memcpy((void *)tls_lo, w->tls, tls_sz);
  g.last_tls = w;
}

// ---- the scheduler ------------------------------------------------------------------------------------
static bool can_run(Worker *w) {
  if (w->dead) return false;
  if (w->cur) return w->cur->st == T_RUNNABLE;
  return !w->os && !g.ready[w->loc].empty();
}
static vec<Worker *> *cand;

static void collect(bool &stalled, uint64_t &wake) {
  cand->clear();
  stalled = false; wake = UINT64_MAX;
  size_t n = g.workers.size();
  size_t start = g.curw ? g.curw->id : 0;
  uint64_t t = now_ns();
  for (size_t i = 0; i < n; i++) {
    Worker *w = g.workers[(start + i) % n];
    if (!can_run(w)) continue;
    if (w->stall_until > t) { stalled = true; wake = std::min(wake, w->stall_until); continue; }
    cand->push_back(w);
  }
}

static uint32_t pick(uint32_t n) {
  if (n <= 1) return 0;
  if (exhausted(SIM_K_PICK)) return 0;
  uint32_t v = 0;
  if (g.replay) v = replayed(SIM_K_PICK) % n;
  else switch (g.strat) {
    case 0: v = rnd(g.srng) % n; break;                              // random walk
    case 1: {                                                        // priorities (PCT-like)
      for (uint32_t i = 1; i < n; i++) if ((*cand)[i]->prio > (*cand)[v]->prio) v = i;
      break;
    }
    case 2: v = 1 % n; break;                                        // round robin
    case 3: v = (rnd(g.srng) % 8) ? 0 : rnd(g.srng) % n; break;      // sticky
    case 4: {                                                        // starve the lowest-prio worker
      uint32_t lo = 0;
      for (uint32_t i = 1; i < n; i++) if ((*cand)[i]->prio < (*cand)[lo]->prio) lo = i;
      v = rnd(g.srng) % n;
      if (v == lo) v = (v + 1) % n;
      break;
    }
    default: v = 0;
  }
  return record(SIM_K_PICK, v);
}

static void maybe_stall() {
  if (!g.stall_every || g.faults_off) return;
  if (++g.stall_count % g.stall_every) return;
  uint32_t c = sim_choose(SIM_K_FAULT, 6);
  if (!c || !g.curw) return;
  g.curw->stall_until = now_ns() + (1000ull << (2 * c));
  g.res->faults[SIM_F_STALL]++;
  sim_trace("FAULT worker %d of locality %d stalls", g.curw->idx, g.curw->loc);
}

// Called from the access hooks when the preemption countdown expires.
void preempt_point() {
  if (g.steps > g.budget) {
    vio("no-progress", 0, "step budget exhausted after %llu steps (task %llu %s)", (unsigned long long)g.steps,
        (unsigned long long)g.cur->id, g.cur->name);
    finish(1);
  }
  if (g.steps < g.preempt_at) { g.deadline = std::min(g.preempt_at, g.budget + 1); return; }
  g.res->preempts++;
  if (!g.replay && g.strat == 1 && rnd(g.srng) % 3 == 0) g.curw->prio = rnd(g.srng) >> 2;
  maybe_stall();
  g.hooks = false;
  to_sched();
}

static void dump_blocked(char *buf, size_t n) {
  buf[0] = 0; size_t l = 0;
  for (int i = 0; i < NSSTACK + NBSTACK; i++) {
    Task *t = g.stack_owner[i];
    if (t && t->st == T_BLOCKED && l + 60 < n) l += snprintf(buf + l, n - l, " %llu:%s@%d", (unsigned long long)t->id, t->name, t->loc);
  }
}

static void main_task(void *p) { ((void (*)(void))p)(); sim_done(); }

void core_run(void (*scn)(void)) {
  mem_init_run();
  cand = (vec<Worker *> *)malloc(sizeof *cand); new (cand) vec<Worker *>();
  g.nloc = 1; g.slots_per_loc = NSLOTS; g.alive[0] = true; g.omp_threads = 1;
  g.last_loc_image = 0; g.last_tls = nullptr;
  g.budget = 4000000000ull;
  for (int k = 0; k < SIM_NKINDS; k++) g.rng[k] = sync_mix(g.seed * 1315423911ull + k);
  g.srng = sync_mix(g.seed ^ 0xabcdef);
  g.strat = rnd(g.srng) % 6;
  static const double means[] = {0, 2, 8, 40, 300, 3000, 30000, 0};
  g.pmean = means[rnd(g.srng) % 8];
  for (int i = NSSTACK; i-- > 0;) g.free_s.push_back(i);
  for (int i = NBSTACK; i-- > 0;) g.free_b.push_back(NSSTACK + i);
  if (img_sz()) { pristine = (char *)malloc(img_sz()); copy_data(pristine, (char *)exe_lo); }
  g.heap_phase = sim_choose(SIM_K_HEAP, 1 << 16);
  Worker *mw = add_worker(0, 999, true);
  Task *mt = new_task(0, main_task, (void *)scn, "main", true);
  mw->cur = mt; mt->w = mw;
  g.curw = mw;
  g.active = true; g.race_on = true;
  for (;;) {
    g.cur = nullptr;
    deliver_due();
    bool stalled; uint64_t wake;
    collect(stalled, wake);
    if (cand->empty()) {
      uint64_t t = wake;
      if (!g.events.empty()) t = std::min(t, g.events.front().at);
      if (t != UINT64_MAX) { advance_to(t); continue; }
      char buf[300]; dump_blocked(buf, sizeof buf);
      vio("deadlock", 0, "no task can run and nothing is pending; blocked:%s", buf);
      finish(1);
    }
    Worker *w = (*cand)[pick(cand->size())];
    if (!w->cur) {
      auto &q = g.ready[w->loc];
      uint32_t i = q.size() > 1 ? (g.strat == 5 || g.replay ? sim_choose(SIM_K_TASK, q.size())
                                    : sim_choose_w(SIM_K_TASK, q.size(), g.strat == 2 ? 950 : 300)) : 0;
      Task *t = q[i];
      q.erase(q.begin() + i);
      w->cur = t; t->w = w;
    }
    Task *t = w->cur;
    if (t->stack < 0 && !give_stack(t)) finish(2);
    if (g.curw != w) {
      g.res->switches++;
      fold(g.res->ihash, w->id * 131 + t->id);
      if (g.trace) sim_trace("run worker %d.%d task %llu (%s)", w->loc, w->idx, (unsigned long long)t->id, t->name);
    }
    fold(g.res->hash, t->id); fold(g.res->hash, g.steps);
    image_to(w->loc); tls_to(w);
    g.curw = w; g.cur = t; g.cur_loc = t->loc;
    uintptr_t *eh = (uintptr_t *)__cxxabiv1::__cxa_get_globals();
    eh[0] = t->eh[0]; eh[1] = t->eh[1];
    std::__once_callable = t->once[0]; std::__once_call = (void (*)())t->once[1];
    arm();
    set_hooks();
    sim_ctx_switch(&g.sched_sp, t->sp);
    g.hooks = false;
    t->eh[0] = eh[0]; t->eh[1] = eh[1];
    t->once[0] = std::__once_callable; t->once[1] = (void *)std::__once_call;
    if (t->st == T_DONE) {
      Worker *tw = t->w;
      if (tw) { tw->cur = nullptr; if (tw->os) tw->dead = true; }
      t->w = nullptr;
      stack_recycle(t);
      g.stack_owner[t->stack] = nullptr;
      (t->stack < NSSTACK ? g.free_s : g.free_b).push_back(t->stack);
      t->stack = -1;
    }
    if (g.steps > g.budget) {
      vio("no-progress", 0, "step budget exhausted after %llu steps", (unsigned long long)g.steps);
      finish(1);
    }
  }
}
