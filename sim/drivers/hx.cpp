// HPX algorithms: distributed, single-node recursive, parallel loops, sessions, faults,
// work distribution.
#include <hpx/hpx.hpp>
#include <hpx/include/async.hpp>

#include "variants/algorithms.hpp"
#include "variants/combined.hpp"
#include "variants/looped.hpp"
#include "variants/pseudodynamic.hpp"
#include "variants/semi.hpp"
#include "variants/single.hpp"
#include "variants/static_improved.hpp"

#include "dist.hpp"
#include "jobs.hpp"
#include <map>
#include <set>
#include <tuple>

using namespace drv;

#ifdef MATMUL_SIM_SMALL_BLOCKS
static const double COMB_PAD = 20;
#else
static const double COMB_PAD = 420;
#endif

namespace drv {
std::vector<double> dispatch(job &j) {
  job *p = &j;
  return hpx::async([p]() -> std::vector<double> {
    job &j = *p;
    std::string a = j.alg;
    if (a == "pseudodynamic") { pseudodynamic::pseudodynamic m(j.N, j.A, j.B, j.transposed, j.block_result, j.block_input, j.min_work, j.max_diff, j.max_rel, j.reps, j.verbose); return m.matrix_multiply(); }
    if (a == "single") { single::single m(j.N, j.A, j.B, j.transposed, j.block_result, j.block_input, j.reps, j.verbose); return m.matrix_multiply(); }
    if (a == "algorithms") { algorithms::algorithms m(j.N, j.A, j.B, j.block_input, j.block_result); return m.matrix_multiply(); }
    if (a == "looped") { looped::looped m(j.N, j.A, j.B, j.block_result, j.block_input); return m.matrix_multiply(); }
    if (a == "semi") { semi::semi m(j.N, j.A, j.B, j.block_result, j.block_input); return m.matrix_multiply(); }
    combined::combined m(j.N, j.A, j.B, j.reps, j.verbose);
    double d;
    return m.matrix_multiply(d);
  }).get();
}
} // namespace drv

static const char *const ALGS[] = {"pseudodynamic", "single", "algorithms", "looped", "semi", "combined"};
static bool takes_reps(std::string const &a) { return a == "pseudodynamic" || a == "single" || a == "combined"; }

// draws the options of a job; reps < 0 draws the repetition count
static void gen(job &j, const char *alg, int big, int reps) {
  sim_guard g;
  std::string a = alg;
  j.alg = alg;
  j.N = pick_n(big);
  bool recur = a == "pseudodynamic" || a == "single";
  j.transposed = a == "combined" ? false : recur ? sim_choose(SIM_K_CFG, 2) != 0 : true;
  j.block_result = pick_block(j.N, recur);
  j.block_input = pick_block(j.N, recur);
  j.min_work = sim_choose(SIM_K_CFG, 3) == 0 ? pick({256, 0, 1, 2, 3, 4}) : sim_choose(SIM_K_CFG, (uint32_t)j.N + 1);
  j.max_diff = sim_choose(SIM_K_CFG, 2) ? sim_choose(SIM_K_CFG, (uint32_t)(j.N * j.N + 2)) : pick({10000, 0, 1, 2, 10});
  static const double rel[] = {0.05, 0, 0.5, 1, 3};
  j.max_rel = rel[sim_choose(SIM_K_CFG, 5)];
  j.reps = takes_reps(a) ? (reps < 0 ? pick_reps() : reps) : 1;
  j.verbose = sim_choose(SIM_K_CFG, 4) == 3 ? 1 : 0;
  if (recur && j.N > 16 && (j.block_result == 1 || j.min_work < 2)) j.N = 1 + j.N % 16; // bounds the number of tasks
}
static void prepare(job &j, const char *alg, int big, int reps) { gen(j, alg, big, reps); j.make_data(); }
static double pad_of(job &j) { return std::string(j.alg) == "combined" ? (j.N > COMB_PAD ? 2 * COMB_PAD : COMB_PAD) : 0; }
static void note(job &j, std::vector<int> const &w, const char *extra = "") {
  sim_guard g;
  std::string s; for (int x : w) s += (s.empty() ? "" : ",") + std::to_string(x);
  sim_note("%s localities=%zu workers=%s %s", j.text().c_str(), w.size(), s.c_str(), extra);
}
// slow messages, stalled workers and clock jumps do not count as failures: mixed into half of the runs
static void benign() {
  sim_guard g;
  if (sim_choose(SIM_K_CFG, 2)) sim_fault_enable((1u << SIM_F_STALL) | (1u << SIM_F_SLOWNET) | (1u << SIM_F_CLOCK));
}
static int maxloc() { return sim_thorough() ? 7 : 5; }

SIM_SCENARIO(dist) {
  capture_on();
  auto w = cluster(maxloc(), 4, 0);
  job j; prepare(j, "pseudodynamic", 40, sim_choose(SIM_K_CFG, 6) == 5 ? -1 : 1);
  note(j, w); benign(); set_budget(j.N, (double)j.reps);
  execute(j, "pseudodynamic", false);
}
SIM_SCENARIO(single) {
  capture_on();
  auto w = cluster(1, 5, 0);
  job j; prepare(j, "single", 40, sim_choose(SIM_K_CFG, 6) == 5 ? -1 : 1);
  note(j, w); benign(); set_budget(j.N, (double)j.reps);
  execute(j, "single", false);
}
SIM_SCENARIO(loops) {
  capture_on();
  auto w = cluster(1, 5, 0);
  job j;
  { sim_guard g; // looped and semi run sequentially: fewer of them
    gen(j, ALGS[(int[]){2, 5, 3, 4, 2, 5, 2, 5}[sim_choose(SIM_K_CFG, 8)]], 48, sim_choose(SIM_K_CFG, 6) == 5 ? -1 : 1);
    if (sim_choose(SIM_K_CFG, 3) == 2) { j.N = 8 + sim_choose(SIM_K_CFG, 48); if (j.block_result < 4) j.block_result = 4 + sim_choose(SIM_K_CFG, 12); } }
  j.make_data();
  note(j, w); benign(); set_budget(j.N, (double)j.reps, pad_of(j));
  execute(j, j.alg, false);
}
// sizes beyond the usual ones; blocks and packages large enough to bound the number of tasks
static void big(job &j, const char *alg) {
  sim_guard g;
  gen(j, alg, 40, 1);
  bool recur = std::string(alg) == "pseudodynamic" || std::string(alg) == "single";
  j.N = 41 + sim_choose(SIM_K_CFG, sim_choose(SIM_K_CFG, 12) == 11 ? 280 : recur ? 130 : 100);
  if (sim_choose(SIM_K_CFG, 3) == 2) j.N = 16 * (j.N / 16);
  uint64_t f = 4 + sim_choose(SIM_K_CFG, 5);
  j.block_result = recur && sim_choose(SIM_K_CFG, 4) == 3 ? 0 : j.N / f + sim_choose(SIM_K_CFG, (uint32_t)j.N);
  j.block_input = recur && sim_choose(SIM_K_CFG, 4) == 3 ? 0 : j.N / 8 + sim_choose(SIM_K_CFG, (uint32_t)j.N);
  { uint64_t d = pick({1, 2, 3, 4, 8}); if (sim_choose(SIM_K_CFG, 3) == 2 && j.N % d == 0) j.block_input = j.N / d; } // blocks that fit
  j.min_work = sim_choose(SIM_K_CFG, 4) == 3 ? 256 : j.N / 16 + sim_choose(SIM_K_CFG, (uint32_t)j.N);
  j.max_diff = sim_choose(SIM_K_CFG, 2) ? sim_choose(SIM_K_CFG, (uint32_t)(j.N * j.N + 2)) : pick({10000, 0, 100, 1000});
}
SIM_SCENARIO(distbig) {
  capture_on();
  auto w = cluster(maxloc(), 4, 0);
  job j; big(j, "pseudodynamic"); j.make_data();
  note(j, w); benign(); set_budget(j.N, 1);
  history h;
  { sim_guard g; hpx::simd::R().observer = [&](const char *name, int loc, std::vector<uint64_t> const &a) { h.record(name, loc, a); }; }
  outcome o = execute(j, "pseudodynamic", false);
  sim_guard g;
  hpx::simd::R().observer = nullptr;
  if (o != THREW) judge_history(h, j, w);
}
SIM_SCENARIO(singlebig) {
  capture_on();
  auto w = cluster(1, 5, 0);
  job j; big(j, "single"); j.make_data();
  note(j, w); benign(); set_budget(j.N, 1);
  execute(j, "single", false);
}
SIM_SCENARIO(loopsbig) {
  capture_on();
  auto w = cluster(1, 5, 0);
  job j; big(j, ALGS[(int[]){2, 5, 3, 4}[sim_choose(SIM_K_CFG, 4)]]); j.make_data();
  note(j, w); benign(); set_budget(j.N, 1, j.N + 2 * COMB_PAD);
  execute(j, j.alg, false);
}
#ifndef MATMUL_SIM_SMALL_BLOCKS
SIM_SCENARIO(combinedship) { // shipped block sizes
  capture_on();
  auto w = cluster(1, 4, 0);
  job j;
  { sim_guard g; gen(j, "combined", 40, 1); uint32_t c = sim_choose(SIM_K_CFG, 4); if (c == 2) j.N = 250 + sim_choose(SIM_K_CFG, 12); if (c == 3) j.N = 64 + sim_choose(SIM_K_CFG, 80); }
  j.make_data();
  note(j, w); set_budget(j.N, 1, pad_of(j));
  execute(j, j.alg, false);
}
#endif

// several multiplications in one session, repetition counts drawn
SIM_SCENARIO(session) {
  capture_on();
  auto w = cluster(sim_choose(SIM_K_CFG, 2) ? 3 : 1, 4, 0);
  int n = 1 + (int)sim_choose(SIM_K_CFG, 4);
  int size = 14;
  switch (sim_choose(SIM_K_CFG, 12)) { case 11: n += 5; break; case 10: size = 44; n = 1 + n / 2; break; }
  std::string all;
  job *prev = nullptr;
  for (int i = 0; i < n; i++) {
    job *j = new job;
    { sim_guard g; gen(*j, ALGS[sim_choose_w(SIM_K_CFG, 6, 350) ], size, -1); }
    int like = i ? (int)sim_choose(SIM_K_CFG, 6) : 0; // 4: like the last one, 5: even in its buffers
    if (like >= 4) j->copy_options(*prev);
    j->make_data(like == 5 ? prev : nullptr);
    if (prev && sim_choose(SIM_K_CFG, 2)) { prev->free_data(); delete prev; } // else the operands stay alive
    { sim_guard g; all += j->text() + "; "; sim_note("%d of %d: %s", i + 1, n, all.c_str()); }
    set_budget(j->N, (double)j->reps * (i + 1), pad_of(*j));
    char what[60]; snprintf(what, sizeof what, "multiplication %d of the session", i + 1);
    execute(*j, what, false);
    prev = j;
  }
}

// faults: exact or an exception; nothing lingers; the session goes on
static unsigned draw_faults(bool multi) {
  sim_guard g;
  unsigned m = 0;
  uint32_t c = sim_choose(SIM_K_CFG, 8);
  if (c == 0 || c == 1 || c == 6) m |= 1u << SIM_F_ALLOC;
  if (multi && (c == 2 || c == 3 || c == 6)) m |= 1u << SIM_F_NET_ERROR;
  if (multi && (c == 4 || c == 5 || c == 6)) m |= 1u << SIM_F_CRASH;
  if (c == 7 || !m) m |= 1u << SIM_F_ALLOC;
  if (sim_choose(SIM_K_CFG, 2)) m |= (1u << SIM_F_STALL) | (1u << SIM_F_SLOWNET);
  if (sim_choose(SIM_K_CFG, 4) == 3) m |= 1u << SIM_F_CLOCK;
  return m;
}
static void fault_run(bool dist) {
  capture_on();
  auto w = cluster(dist ? maxloc() : 1, 4, 0);
  unsigned mask = draw_faults(w.size() > 1);
  const char *alg = dist ? "pseudodynamic" : ALGS[1 + sim_choose(SIM_K_CFG, 5)];
  job *j = new job;
  gen(*j, alg, 12, -1);
  {
    sim_guard g;
    if (dist && w.size() > 2 && sim_choose(SIM_K_CFG, 2)) { // several packages for each locality
      j->N = 4 * (1 + sim_choose(SIM_K_CFG, 3));
      j->min_work = j->N / 4 + sim_choose(SIM_K_CFG, 2); j->max_diff = sim_choose(SIM_K_CFG, 3); j->max_rel = 0;
    }
  }
  j->make_data();
  char extra[60]; snprintf(extra, sizeof extra, "faults=%#x", mask);
  note(*j, w, extra);
  set_budget(j->N, (double)j->reps, pad_of(*j));
  sim_fault_enable(mask);
  std::string why;
  outcome o = execute(*j, "with faults", true, &why);
  sim_faults_off();
  uint64_t hard = sim_fault_count(SIM_F_ALLOC) + sim_fault_count(SIM_F_NET_ERROR) + sim_fault_count(SIM_F_CRASH);
  if (o == THREW) {
    sim_probe("failure reported by an exception");
    if (!hard) { sim_guard g; sim_report("exception", "exception '%s' although no fault was injected (%s)", why.c_str(), j->text().c_str()); }
  } else if (hard) sim_probe("fault survived");
  j->free_data(); delete j;   // the caller drops everything that belonged to the call
  bool crashed = sim_fault_count(SIM_F_CRASH) != 0;
  for (int i = 0; i < 2; i++) {
    job *k = new job;
    prepare(*k, crashed ? ALGS[1 + sim_choose(SIM_K_CFG, 5)] : (i == 0 && dist) ? "pseudodynamic" : ALGS[sim_choose(SIM_K_CFG, 6)], 8, -1);
    set_budget(k->N, (double)k->reps, pad_of(*k));
    char what[80]; snprintf(what, sizeof what, "follow-up %d after the fault", i + 1);
    execute(*k, what, false);
    k->free_data(); delete k;
  }
  sim_budget(4000000);
  sim_sleep(20000000000ull);  // late messages arrive, abandoned tasks run
}
SIM_SCENARIO(faultdist) { fault_run(true); }
SIM_SCENARIO(faultlocal) { fault_run(false); }

// ---- work distribution ------------------------------------------------------------------------
template <class M> static auto schedule_of(M &m, size_t n, int) -> decltype(m.create_schedule(n), std::vector<region>()) {
  auto s = m.create_schedule(n);
  std::vector<region> r;
  sim_guard g;
  if (s.size() > n) sim_report("distribution", "schedule has %zu localities, %zu exist", s.size(), n);
  for (size_t i = 0; i < s.size(); i++) for (auto &w : s[i]) r.push_back(region{w.x, w.y, w.N, (int)i});
  return r;
}
template <class M> static std::vector<region> schedule_of(M &, size_t, long) { return {}; }
template <class M, class... A> static typename std::enable_if<std::is_constructible<M, A...>::value, std::vector<region>>::type make_schedule(size_t n, A &&...a) { M m(std::forward<A>(a)...); return schedule_of(m, n, 0); }
template <class M, class... A> static typename std::enable_if<!std::is_constructible<M, A...>::value, std::vector<region>>::type make_schedule(size_t, A &&...) { return {}; }

static std::vector<region> planned(job &j, size_t n) {
  return make_schedule<multiply_components::static_improved>(n, j.N, j.A, j.B, (bool)j.transposed, j.block_input, (size_t)j.block_result, j.min_work, j.max_diff, j.max_rel, j.reps, j.verbose);
}

// the plan alone, for sizes too large to multiply
SIM_SCENARIO(plan) {
  capture_on();
  auto w = cluster(1, 1, 0);
  job j; gen(j, "pseudodynamic", 40, 1);
  size_t n = 1 + sim_choose(SIM_K_CFG, 9);
  if (sim_choose(SIM_K_CFG, 4) == 3) n += 1 + sim_choose(SIM_K_CFG, 40);
  if (sim_choose(SIM_K_CFG, 2)) { sim_guard g; j.N = 1 + sim_choose(SIM_K_CFG, sim_choose(SIM_K_CFG, 12) == 11 ? 1200 : sim_thorough() ? 600 : 200); if (sim_choose(SIM_K_CFG, 2)) { j.N = (j.N / 16 + 1) * 16; } j.min_work = sim_choose(SIM_K_CFG, (uint32_t)j.N + 1); j.max_diff = sim_choose(SIM_K_CFG, (uint32_t)(j.N * j.N) + 2); if (j.N / (j.min_work + 1) > 32) j.min_work = j.N / 32; }
  char extra[60]; snprintf(extra, sizeof extra, "plan for %zu", n);
  note(j, w, extra);
  sim_budget((uint64_t)(20e6 + 3000.0 * j.N * j.N));
  auto s = planned(j, n);
  sim_guard g;
  if (s.empty()) return;
  sim_probe("plan inspected");
  if (!partition(s, j.N, 1, "plan", j.text() + " for " + std::to_string(n))) return;
  limits(s, j, 0, (int)n, "plan");
}
// what the cluster really executes
SIM_SCENARIO(sched) {
  capture_on();
  auto w = cluster(maxloc(), 3, 0);
  job j; prepare(j, "pseudodynamic", 24, -1);
  note(j, w); set_budget(j.N, (double)j.reps);
  history h;
  { sim_guard g; hpx::simd::R().observer = [&](const char *name, int loc, std::vector<uint64_t> const &a) { h.record(name, loc, a); }; }
  outcome o = execute(j, "pseudodynamic", false);
  sim_guard g;
  hpx::simd::R().observer = nullptr;
  if (o == THREW) return;
  judge_history(h, j, w);
}
