// Internals shared by the core's translation units (all inside libsim.so).
#pragma once
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <deque>
#include <map>
#include <string>

typedef uintptr_t uptr;

// containers that never touch the (simulated) operator new
template <class T> struct MA {
  typedef T value_type;
  MA() {}
  template <class U> MA(MA<U> const &) {}
  T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { free(p); }
  template <class U> bool operator==(MA<U> const &) const { return true; }
  template <class U> bool operator!=(MA<U> const &) const { return false; }
};
template <class T> using vec = std::vector<T, MA<T>>;
template <class T> using deq = std::deque<T, MA<T>>;
template <class K, class V> using omap = std::map<K, V, std::less<K>, MA<std::pair<const K, V>>>;
typedef std::basic_string<char, std::char_traits<char>, MA<char>> str;

// ---- address space -----------------------------------------------------------
static const uptr BASE = 0x100000000000ull;
static const int MAXLOC = 16;
static const uptr ARENA_SZ = 1ull << 30;
static const uptr ARENAS = ARENA_SZ * MAXLOC;
static const uptr SSTACK = 512u << 10;
static const int NSSTACK = 4096;
static const uptr BSTACK = 16u << 20;
static const int NBSTACK = 128;
static const uptr SS_BASE = BASE + ARENAS;
static const uptr BS_BASE = SS_BASE + SSTACK * NSSTACK;
static const uptr TOTAL = ARENAS + SSTACK * NSSTACK + BSTACK * NBSTACK;
static const uptr ASHADOW = 0x110000000000ull; // 1 byte per 8
static const uptr SIZES = 0x118000000000ull;   // u32 per 16
static const uptr RSHADOW = 0x120000000000ull; // 4 x u64 per 8

static const int NSLOTS = 256;
struct VC {
  uint32_t c[NSLOTS];
};

struct Worker;
struct Team;
enum TState { T_NEW, T_RUNNABLE, T_BLOCKED, T_DONE };

struct Task {
  uint64_t id;
  int loc;
  const char *name;
  sim_fn fn;
  void *arg;
  TState st;
  Worker *w;       // worker it currently occupies (null: none)
  bool os;         // OS thread: pinned to its own worker
  int guard;
  void *sp;        // saved stack pointer
  int stack;       // stack index, -1 none; >=NSSTACK: big
  uptr stk_lo, stk_hi, stk_min;
  uintptr_t eh[2];
  int slot;
  VC vc;
  sim_sync *join;
  sim_sync *waiting;
  uint64_t wseq;   // increments at every block, so that stale timeouts do nothing
  void *once[2];
  // OpenMP
  Team *team;
  int tnum;
  unsigned ws_seq;
  int nthreads_icv;
};

struct Worker {
  int id, loc, idx;
  bool os, dead;
  Task *cur;
  uint64_t stall_until;
  uint64_t prio;
  char *tls;
};

struct sim_sync {
  VC vc;
  bool has;
  vec<Task *> q;
};

struct Event {
  uint64_t at, seq;
  int kind; // 0 = spawn task at loc, 1 = agas handler, 2 = wake sleeper, 3 = crash
  int loc;
  sim_fn fn;
  void *arg;
  const char *name;
  uint64_t call;
  int phase; // 1 request, 2 reply, 3 fail
};

struct Call {
  int src, dst;
  sim_fn fail;
  void *arg;
  bool replied, failed;
};

static const int MAXVIO = 12;
static const int STREAM_CAP[SIM_NKINDS] = {4096, 1 << 18, 1 << 18, 1 << 17, 1 << 16, 4096, 1 << 16, 4096, 1};

struct Result { // in shared memory, survives a crash of the run
  uint32_t status;    // 0 running, 1 finished, 2 inconclusive
  uint32_t nvio;
  struct { char cls[40]; char detail[400]; uint64_t pc; } vio[MAXVIO];
  uint64_t hash, ihash;
  uint64_t steps, simtime, switches, preempts, tasks, parcels, allocs;
  uint64_t faults[SIM_NFAULTS];
  uint32_t nprobe;
  char probe[48][40];
  char note[1200];
  uint32_t len[SIM_NKINDS];
  char why[200];
};

struct Streams {
  uint32_t *s[SIM_NKINDS];
  uint32_t len[SIM_NKINDS];
};

struct G {
  // hot
  bool hooks;               // active run and current guard depth 0
  bool active;
  bool race_on;
  uint64_t deadline, preempt_at;
  uint64_t steps;
  uint64_t budget;
  Task *cur;
  Worker *curw;
  int cur_loc;
  // cold
  uint64_t now_base, now_steps;
  uint64_t seq;
  void *sched_sp;
  vec<Worker *> workers;
  deq<Task *> ready[MAXLOC];
  vec<Event> events; // heap
  vec<Call> calls;
  int nloc;
  int nworkers[MAXLOC];
  bool alive[MAXLOC];
  int omp_threads;
  int last_loc_image;
  Worker *last_tls;
  vec<int> free_s, free_b;
  Task *stack_owner[NSSTACK + NBSTACK];
  uint32_t slotclk[NSLOTS];
  int slot_next[MAXLOC];
  int slots_per_loc;
  uint64_t next_task;
  // decisions
  bool replay;
  uint64_t seed;
  uint64_t rng[SIM_NKINDS];
  uint64_t srng;
  uint32_t pos[SIM_NKINDS];
  Streams in;
  Result *res;
  uint32_t *out[SIM_NKINDS];
  // strategy
  int strat;
  double pmean;
  // faults
  unsigned fault_mask;
  bool faults_off;
  uint64_t alloc_fail_at[2], net_err_at[3], flip_at, slow_at[2];
  uint64_t alloc_count, parcel_count, payload_count;
  int64_t clock_off;
  uint64_t clock_jump_at[2];
  int64_t clock_jump_by[2];
  int crash_loc;
  uint64_t crash_at_parcel;
  uint64_t stall_every, stall_count;
  uint64_t alloc_total;
  // heap
  uptr bump[MAXLOC];
  uint64_t heap_phase;
  uint64_t live;
  bool trace;
  bool thorough;
  FILE *tracef;
};
extern G g;

void core_run(void (*scn)(void)) __attribute__((noreturn));
void finish(uint32_t status) __attribute__((noreturn));
void preempt_point();
void block_current(bool os);
void make_runnable(Task *t);
Task *new_task(int loc, sim_fn fn, void *arg, const char *name, bool os);
void hb_release(sim_sync *s);
void hb_acquire(sim_sync *s);
void wait_on(sim_sync *s, bool os);
bool wait_on_until(sim_sync *s, bool os, uint64_t at); // false: timed out
void sleep_until(uint64_t at, bool os);
void step_point();
Worker *add_worker(int loc, int idx, bool os);
bool in_exe(uptr a);
sim_sync *async_of(uptr a);
void sim_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t now_ns();
void mem_init_global();
void mem_init_run();
void *arena_alloc(size_t n, size_t align);
void arena_free(void *p, const char *how);
void mem_access(uptr a, size_t n, bool write, bool atomic, uptr pc);
void stack_recycle(Task *t);
extern uptr exe_lo, exe_hi, exe_base, exe_relro_lo, exe_relro_hi, tls_lo, tls_sz;
bool alloc_fault();
uint64_t sync_mix(uint64_t x);
void vio(const char *cls, uptr pc, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
extern int g_argc;
str *get_param(const char *name);
