// Deterministic simulator: C interface shared by the stub headers (hpx/, Vc/),
// the scenario drivers and the core library.  See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>

#define SIM_API __attribute__((visibility("default")))

enum sim_kind {          // independent decision streams; value 0 is always "boring"
  SIM_K_CFG = 0,         // workload / configuration
  SIM_K_PREEMPT,         // accesses until the next forced preemption (0 = none)
  SIM_K_PICK,            // which runnable worker continues (0 = the current one)
  SIM_K_TASK,            // which ready task a free worker takes (0 = oldest)
  SIM_K_NET,             // message latency
  SIM_K_FAULT,           // fault plan and fault details
  SIM_K_CHUNK,           // parallel-loop chunking, team sizes, dynamic schedules
  SIM_K_HEAP,            // heap placement
  SIM_K_DATA,            // matrix contents
  SIM_NKINDS
};

enum sim_fault {
  SIM_F_NET_ERROR = 0,   // a request or reply is reported lost (network_error)
  SIM_F_CRASH,           // a non-root locality dies
  SIM_F_ALLOC,           // an allocation made by repository code fails
  SIM_F_STALL,           // a worker does not run for a while
  SIM_F_SLOWNET,         // a message is delayed by far more than its peers
  SIM_F_CLOCK,           // the wall clock jumps
  SIM_F_FLIP,            // a bit of a result payload flips in transit
  SIM_NFAULTS
};

extern "C" {
// ---- decisions -----------------------------------------------------------
SIM_API uint32_t sim_choose(int kind, uint32_t n);        // uniform in [0,n)
SIM_API uint32_t sim_choose_w(int kind, uint32_t n, uint32_t zero_permille); // 0 with given weight
SIM_API uint64_t sim_data64(void);                        // raw data stream

// ---- run set-up and reporting -------------------------------------------
SIM_API void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
SIM_API void sim_report(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
SIM_API void sim_budget(uint64_t steps);                  // step budget of the run from now on
SIM_API void sim_probe(const char *name);                 // "this rare condition was hit"
SIM_API void sim_hash(uint64_t v);                        // fold into the event hash
SIM_API void sim_setup(int localities, const int *workers, int omp_threads);
SIM_API void sim_fault_enable(unsigned mask);             // enables kinds and draws the plan
SIM_API void sim_faults_off(void);                        // no further fault fires
SIM_API uint64_t sim_fault_count(int kind);               // fired so far
SIM_API void sim_seqcst_only(void);
SIM_API const char *sim_param(const char *name);          // command-line parameter or null
SIM_API int sim_thorough(void);
SIM_API uint64_t sim_flip_bits(void);                     // nonzero: mask to xor into one payload word
SIM_API void **sim_root(int i);                           // run-wide pointers outside the localities' images
SIM_API void sim_done(void);                              // scenario complete: end the run

// ---- execution entities --------------------------------------------------
typedef void (*sim_fn)(void *);
SIM_API void sim_guard_enter(void);                       // runtime code: no preemption, no checks
SIM_API void sim_guard_exit(void);
SIM_API int sim_guard_depth(void);
SIM_API void sim_yield(void);                             // scheduling point of an HPX task
SIM_API int sim_locality(void);
SIM_API int sim_num_localities(void);
SIM_API int sim_locality_alive(int loc);
SIM_API int sim_worker_index(void);                       // within its locality
SIM_API int sim_num_workers(int loc);
SIM_API uint64_t sim_task_id(void);
SIM_API int sim_is_hpx_task(void);
SIM_API uint64_t sim_now(void);                           // simulated ns (no skew)
SIM_API uint64_t sim_clock(void);                         // wall clock seen by the code (skew, jumps)
SIM_API void sim_spawn(int loc, sim_fn fn, void *arg, const char *name); // HPX task
SIM_API uint64_t sim_thread_start(sim_fn fn, void *arg, const char *name); // OS thread
SIM_API uint64_t sim_thread_start_at(int loc, sim_fn fn, void *arg, const char *name); // at a locality
SIM_API void sim_thread_join(uint64_t t);
SIM_API void sim_sleep(uint64_t ns);

// ---- synchronisation objects ----------------------------------------------
typedef struct sim_sync sim_sync;                         // wait queue + happens-before clock
SIM_API sim_sync *sim_sync_new(void);
SIM_API void sim_sync_free(sim_sync *);
SIM_API void sim_release(sim_sync *);
SIM_API void sim_acquire(sim_sync *);
SIM_API void sim_sync_merge(sim_sync *dst, sim_sync *src); // dst clock := dst join src
SIM_API void sim_wait(sim_sync *);                        // block the task until woken
SIM_API void sim_wake_all(sim_sync *);
SIM_API void sim_wake_one(sim_sync *);

// ---- network ----------------------------------------------------------------
// A request from the current locality to dst.  deliver runs as a task at dst,
// fail runs as a task at the source if the request or its reply is lost.
SIM_API uint64_t sim_call(int dst, sim_fn deliver, sim_fn fail, void *arg, const char *name);
SIM_API void sim_reply(uint64_t call, sim_fn deliver, void *arg); // from dst; runs as task at src
// A message to the name service (locality 0), handled by an event, no task.
SIM_API void sim_agas(sim_fn handler, void *arg);

// ---- memory -------------------------------------------------------------------
SIM_API void sim_read(const void *p, size_t n);
SIM_API void sim_write(void *p, size_t n);
SIM_API uint64_t sim_live_blocks(void);
SIM_API void sim_poison_fresh(int on);
}

struct sim_guard {
  sim_guard() { sim_guard_enter(); }
  ~sim_guard() { sim_guard_exit(); }
  sim_guard(sim_guard const &) = delete;
};
// user code called from inside a guard
struct sim_unguard {
  int d;
  sim_unguard() : d(sim_guard_depth()) { for (int i = 0; i < d; i++) sim_guard_exit(); }
  ~sim_unguard() { for (int i = 0; i < d; i++) sim_guard_enter(); }
};

struct sim_scenario {
  const char *name;
  void (*run)(void);
  sim_scenario *next;
  sim_scenario(const char *n, void (*r)(void));
};
extern "C" SIM_API void sim_register(const char *name, void (*run)(void));
inline sim_scenario::sim_scenario(const char *n, void (*r)(void)) : name(n), run(r), next(nullptr) { sim_register(n, r); }
#define SIM_SCENARIO(id) \
  static void sim_scn_##id(); \
  static sim_scenario sim_scn_reg_##id(#id, sim_scn_##id); \
  static void sim_scn_##id()
