// Kernels of the optimization study (otherExperiments).
#include "jobs.hpp"
#include <cstring>
#include <new>

using namespace drv;

#define K(n) void n(double *, double *, double *, const uint32_t);
K(multNaive) K(multTransposed) K(multCounter) K(multExchanged) K(multRegister) K(multIntrinLoop) K(multBlocked2) K(multBlocked4) K(multGPU) K(multGPUASM) K(multASM)
#undef K
struct kern { const char *name; void (*f)(double *, double *, double *, const uint32_t); bool transposed; unsigned mult, mult_ship; bool adds; };
static const kern KERN[] = {
  {"multNaive", multNaive, false, 1, 1, true},          {"multTransposed", multTransposed, true, 1, 1, true},
  {"multCounter", multCounter, true, 1, 1, false},      {"multExchanged", multExchanged, false, 16, 128, false},
  {"multRegister", multRegister, false, 16, 256, false},{"multIntrinLoop", multIntrinLoop, false, 16, 128, false},
  {"multBlocked2", multBlocked2, true, 2, 2, false},    {"multBlocked4", multBlocked4, true, 4, 4, false},
  {"multGPU", multGPU, true, 8, 128, false},            {"multGPUASM", multGPUASM, true, 16, 256, false},
  {"multASM", multASM, true, 4, 4, false},
};
static const int NK = sizeof KERN / sizeof *KERN;

struct sjob : job {
  const kern *k;
  char *raw[3];
  double *m[3];
  void gen(bool ship, bool big = false) {
    { sim_guard g;
      k = &KERN[ship ? (int[]){3, 4, 5, 8, 9}[sim_choose(SIM_K_CFG, 5)] : (int)sim_choose(SIM_K_CFG, NK)];
      unsigned mu = ship ? k->mult_ship : k->mult;
      alg = k->name; transposed = k->transposed;
      N = mu == 1 ? pick_n(24) : mu <= 4 ? mu * (1 + sim_choose(SIM_K_CFG, 24 / mu)) : mu == 8 ? 8 * (1 + sim_choose(SIM_K_CFG, 5)) : mu == 16 ? 16 * (1 + sim_choose(SIM_K_CFG, 3)) : mu * (mu == 128 ? 1 + sim_choose(SIM_K_CFG, 2) : 1);
      if (big) N = mu * ((48 + sim_choose(SIM_K_CFG, 80)) / mu + 1); }
    make_data();
    for (int i = 0; i < 3; i++) { // 64-byte aligned; one extra element as in the benchmark would hide nothing: exact size
      void *p = nullptr;
      if (posix_memalign(&p, 64, N * N * sizeof(double))) throw std::bad_alloc();
      raw[i] = (char *)p; m[i] = (double *)p;
    }
    sim_guard g;
    memcpy(m[0], A.data(), N * N * 8); memcpy(m[1], B.data(), N * N * 8);
  }
  void refill() { // other operands in the same place
    make_data();
    sim_write(m[0], N * N * 8); sim_write(m[1], N * N * 8);
    sim_guard g;
    memcpy(m[0], A.data(), N * N * 8); memcpy(m[1], B.data(), N * N * 8);
  }
  void clear() { // C is zero before the call, as the benchmark's initialisation leaves it
    sim_write(m[2], N * N * 8);
    sim_guard g;
    for (size_t i = 0; i < N * N; i++) m[2][i] = 0;
  }
  void run(const char *what) {
    clear();
    k->f(m[0], m[1], m[2], (uint32_t)N);
    sim_read(m[2], N * N * 8);
    sim_guard g;
    long d = first_diff(m[2], R.data(), N * N);
    if (d >= 0) sim_report("product", "%s %s: C[%ld][%ld] is %s, expected %s (%s)", what, k->name, d / (long)N, d % (long)N, show(m[2][d]).c_str(), show(R[d]).c_str(), text().c_str());
    if (first_diff(m[0], Ac.data(), N * N) >= 0) sim_report("operand-modified", "%s: A was modified (%s)", what, text().c_str());
    if (first_diff(m[1], Bc.data(), N * N) >= 0) sim_report("operand-modified", "%s: B was modified (%s)", what, text().c_str());
  }
  void drop() { for (int i = 0; i < 3; i++) free(raw[i]); free_data(); }
};
namespace drv { std::vector<double> dispatch(job &) { return {}; } }
static int team() { int w = 1; int t = pick_team(7); sim_setup(1, &w, t); return t; }
static void benign() { sim_guard g; if (sim_choose(SIM_K_CFG, 2)) sim_fault_enable(1u << SIM_F_STALL); }

#ifdef MATMUL_SIM_SMALL_BLOCKS
SIM_SCENARIO(study) {
  int t = team();
  sjob j; j.gen(false);
  { sim_guard g; sim_note("%s team=%d", j.text().c_str(), t); }
  benign(); set_budget(j.N, 1);
  j.run("");
  j.drop();
}
SIM_SCENARIO(studybig) { // sizes beyond the usual ones
  int t = team();
  sjob j; j.gen(false, true);
  { sim_guard g; sim_note("%s team=%d", j.text().c_str(), t); }
  benign(); set_budget(j.N, 1);
  j.run("");
  j.drop();
}
SIM_SCENARIO(studysession) { // kernels one after another: some change the number of threads
  int t = team();
  int n = 2 + (int)sim_choose(SIM_K_CFG, 3);
  if (sim_choose(SIM_K_CFG, 12) == 11) n += 5;
  std::string all;
  for (int i = 0; i < n; i++) {
    sjob *j = new sjob; j->gen(false);
    { sim_guard g; all += j->text() + "; "; sim_note("%d of %d team=%d: %s", i + 1, n, t, all.c_str()); }
    set_budget(j->N, 2);
    char what[60]; snprintf(what, sizeof what, "call %d of the session,", i + 1);
    j->run(what);
    switch (sim_choose(SIM_K_CFG, 4)) {
    case 2: j->run("second call with the same operands,"); break;
    case 3: j->refill(); j->run("call with other operands in the same place,"); break;
    }
    if (sim_choose(SIM_K_CFG, 2)) { j->drop(); delete j; }
  }
}
static void conc_thread(void *p) { ((sjob *)p)->run("one of several threads,"); }
SIM_SCENARIO(studyconc) {
  int t = team();
  int n = 2 + (int)sim_choose(SIM_K_CFG, 2);
  sjob *js[3];
  std::string all;
  for (int i = 0; i < n; i++) {
    js[i] = new sjob; js[i]->gen(false);
    if (i && sim_choose(SIM_K_CFG, 2)) { js[i]->drop(); js[i]->k = js[0]->k; *js[i] = *js[0]; void *p = nullptr; if (posix_memalign(&p, 64, js[0]->N * js[0]->N * 8)) throw std::bad_alloc(); js[i]->raw[2] = (char *)p; js[i]->m[2] = (double *)p; } // same operands, own result
    sim_guard g; all += js[i]->text() + "; ";
  }
  { sim_guard g; sim_note("%d threads team=%d: %s", n, t, all.c_str()); }
  benign();
  sim_budget(100000000);
  uint64_t id[3];
  for (int i = 0; i < n; i++) id[i] = sim_thread_start(&conc_thread, js[i], "caller");
  for (int i = 0; i < n; i++) sim_thread_join(id[i]);
}
#else
SIM_SCENARIO(studyship) { // shipped block sizes
  int t = team();
  sjob j; j.gen(true);
  { sim_guard g; sim_note("%s team=%d", j.text().c_str(), t); }
  set_budget(j.N, 1);
  j.run("");
  j.drop();
}
#endif
