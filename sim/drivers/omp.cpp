// OpenMP reference multiplications: single, repeated, sessions, concurrent callers, failing allocations.
#include <cmath>
#include <algorithm>
#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "reference_kernels/naive.hpp"
#include "jobs.hpp"

using namespace drv;

#ifdef MATMUL_SIM_SMALL_BLOCKS
static const double PAD_TEST = 32, PAD_TILED = 32;
#else
static const double PAD_TEST = 512, PAD_TILED = 512;
#endif
static const char *const ALGS[] = {"naive", "naive_transposed", "kernel_test", "kernel_tiled"};

namespace drv {
std::vector<double> dispatch(job &j) {
  std::string a = j.alg;
  if (a == "naive") return naive_matrix_multiply<double>(j.N, j.A, j.B);
  if (a == "naive_transposed") return naive_matrix_multiply_transposed<double>(j.N, j.A, j.B);
  if (a == "kernel_test") { kernel_test::kernel_test m(j.N, j.A, j.B, j.transposed, j.reps, j.verbose); return m.matrix_multiply(); }
  kernel_tiled::kernel_tiled m(j.N, j.A, j.B, j.transposed, j.reps, j.verbose);
  double d = 0.0;
  return m.matrix_multiply(d);
}
} // namespace drv
static double padded(job &j) {
  double p = std::string(j.alg) == "kernel_test" ? PAD_TEST : std::string(j.alg) == "kernel_tiled" ? PAD_TILED : 1;
  return std::ceil(j.N / p) * p;
}
static void gen(job &j, int alg, int big, int reps) {
  sim_guard g;
  j.alg = ALGS[alg];
  j.N = pick_n(big);
  if (alg == 2) j.N = KERNEL_TEST_MULTIPLE * (KERNEL_TEST_MULTIPLE > 64 || big < 70 ? 1 : 1 + sim_choose(SIM_K_CFG, 2)); // the sizes its blocks divide
  j.transposed = alg == 1;
  j.reps = alg >= 2 ? (reps < 0 ? pick_reps() : reps) : 1;
  j.verbose = sim_choose(SIM_K_CFG, 4) == 3 ? 1 : 0;
}
static void prepare(job &j, int alg, int big, int reps) { gen(j, alg, big, reps); j.make_data(); }
static int team() { int w = 1; int t = pick_team(7); sim_setup(1, &w, t); return t; }
static void note(job &j, int t, const char *extra = "") { sim_guard g; sim_note("%s team=%d %s", j.text().c_str(), t, extra); }
static void benign() { sim_guard g; if (sim_choose(SIM_K_CFG, 2)) sim_fault_enable((1u << SIM_F_STALL) | (1u << SIM_F_CLOCK)); }

SIM_SCENARIO(omp) {
  capture_on();
  int t = team();
  job j; prepare(j, (int)sim_choose(SIM_K_CFG, 4), 70, sim_choose(SIM_K_CFG, 6) == 5 ? -1 : 1);
  note(j, t); benign(); set_budget(j.N, (double)j.reps, padded(j));
  execute(j, j.alg, false);
}
SIM_SCENARIO(ompbig) { // sizes beyond the usual ones
  capture_on();
  int t = team();
  job j;
  { sim_guard g; gen(j, (int)sim_choose(SIM_K_CFG, 4), 40, 1); if (std::string(j.alg) != "kernel_test") j.N = 71 + sim_choose(SIM_K_CFG, sim_choose(SIM_K_CFG, 12) == 11 ? 250 : 90); else j.N = KERNEL_TEST_MULTIPLE * (KERNEL_TEST_MULTIPLE > 64 ? 1 : 3 + sim_choose(SIM_K_CFG, 2)); }
  j.make_data();
  note(j, t); benign(); set_budget(j.N, 1, padded(j));
  execute(j, j.alg, false);
}
#ifndef MATMUL_SIM_SMALL_BLOCKS
SIM_SCENARIO(ompship) { // shipped block sizes
  capture_on();
  int t = team();
  job j;
  { sim_guard g; gen(j, 2 + (int)sim_choose(SIM_K_CFG, 2), 40, 1); uint32_t c = sim_choose(SIM_K_CFG, 8); if (std::string(j.alg) == "kernel_test") {} else if (c >= 6) j.N = 250 + sim_choose(SIM_K_CFG, 12); else if (c >= 4) j.N = 64 + sim_choose(SIM_K_CFG, 80); }
  j.make_data();
  note(j, t); set_budget(j.N, 1, padded(j));
  execute(j, j.alg, false);
}
SIM_SCENARIO(ktestodd) { // known finding: kernel_test with a size its blocks do not divide
  capture_on();
  int t = team();
  job j;
  { sim_guard g; gen(j, 2, 40, 1); j.N = 1 + sim_choose(SIM_K_CFG, 300); }
  j.make_data();
  note(j, t); set_budget(j.N, 1, padded(j));
  execute(j, j.alg, false);
}
#endif
SIM_SCENARIO(ompsession) {
  capture_on();
  int t = team();
  int n = 1 + (int)sim_choose(SIM_K_CFG, 4);
  int size = 20;
  switch (sim_choose(SIM_K_CFG, 12)) { case 11: n += 5; break; case 10: size = 66; n = 1 + n / 2; break; }
  std::string all;
  job *prev = nullptr;
  for (int i = 0; i < n; i++) {
    job *j = new job;
    gen(*j, (int)sim_choose(SIM_K_CFG, 4), size, -1);
    int like = i ? (int)sim_choose(SIM_K_CFG, 6) : 0; // 4: like the last one, 5: even in its buffers
    if (like >= 4) j->copy_options(*prev);
    j->make_data(like == 5 ? prev : nullptr);
    if (prev && sim_choose(SIM_K_CFG, 2)) { prev->free_data(); delete prev; }
    { sim_guard g; all += j->text() + "; "; sim_note("%d of %d team=%d: %s", i + 1, n, t, all.c_str()); }
    set_budget(j->N, (double)j->reps, padded(*j));
    char what[60]; snprintf(what, sizeof what, "multiplication %d of the session", i + 1);
    execute(*j, what, false);
    prev = j;
  }
}
// several threads multiply at the same time, some with the same operands
static void conc_thread(void *p) { job *j = (job *)p; execute(*j, "one of several threads", false); }
SIM_SCENARIO(ompconc) {
  capture_on();
  int t = team();
  int n = 2 + (int)sim_choose(SIM_K_CFG, 2);
  job *js[3];
  std::string all;
  for (int i = 0; i < n; i++) {
    js[i] = new job;
    prepare(*js[i], (int)sim_choose(SIM_K_CFG, 4), 16, -1);
    sim_guard g; all += js[i]->text() + "; ";
  }
  { sim_guard g; sim_note("%d threads team=%d: %s", n, t, all.c_str()); }
  benign();
  sim_budget(40000000);
  uint64_t id[3];
  for (int i = 0; i < n; i++) id[i] = sim_thread_start(&conc_thread, js[i], "caller");
  for (int i = 0; i < n; i++) sim_thread_join(id[i]);
}
SIM_SCENARIO(ompfault) {
  capture_on();
  int t = team();
  job *j = new job;
  prepare(*j, (int)sim_choose(SIM_K_CFG, 4), 16, -1);
  note(*j, t, "failing allocations");
  set_budget(j->N, (double)j->reps, padded(*j));
  unsigned m = 1u << SIM_F_ALLOC;
  if (sim_choose(SIM_K_CFG, 2)) m |= (1u << SIM_F_STALL) | (1u << SIM_F_CLOCK);
  sim_fault_enable(m);
  std::string why;
  outcome o = execute(*j, "with faults", true, &why);
  sim_faults_off();
  if (o == THREW) {
    sim_probe("failure reported by an exception");
    if (!sim_fault_count(SIM_F_ALLOC)) { sim_guard g; sim_report("exception", "exception '%s' although no fault was injected (%s)", why.c_str(), j->text().c_str()); }
  } else if (sim_fault_count(SIM_F_ALLOC)) sim_probe("fault survived");
  j->free_data(); delete j;
  job *k = new job;
  prepare(*k, (int)sim_choose(SIM_K_CFG, 4), 10, -1);
  set_budget(k->N, (double)k->reps, padded(*k));
  execute(*k, "follow-up after the fault", false);
}
