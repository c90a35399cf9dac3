// The whole application: main() of every locality, command line, runtime phase, --check verdict.
#include <hpx/hpx.hpp>
#include <hpx/include/async.hpp>
#include "dist.hpp"
#include <cmath>
#include <limits>

using namespace drv;
int matrix_multiply_main(int argc, char **argv);
// the application's globals, if it (still) has them
extern std::vector<double> app_A asm("A") __attribute__((weak));
extern std::vector<double> app_B asm("B") __attribute__((weak));
extern std::vector<double> app_C asm("C") __attribute__((weak));
namespace drv { std::vector<double> dispatch(job &) { return {}; } }

struct proc { // one operating-system process of the application
  std::vector<std::string> args; std::vector<char *> argv;
  int status = -12345; bool threw = false; std::string what;
};
static void process(void *p) {
  proc *a = (proc *)p;
  std::exception_ptr ex;
  int st = -1, argc; char **argv;
  { // the command line of the process, in its own memory
    sim_guard g;
    argc = (int)a->args.size(); argv = a->argv.data();
  }
  try { st = matrix_multiply_main(argc, argv); } catch (...) { ex = std::current_exception(); }
  sim_guard g;
  a->status = st;
  if (ex) { a->threw = true; try { std::rethrow_exception(ex); } catch (std::exception const &e) { a->what = e.what(); } catch (...) { a->what = "unknown exception"; } }
}
static const char *const ALGS[] = {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled"};
// a name that is no algorithm, often one that resembles one
static std::string unknown_name() {
  std::string s = sim_choose(SIM_K_CFG, 9) ? ALGS[sim_choose(SIM_K_CFG, 8)] : "proposal";
  uint32_t at = sim_choose(SIM_K_CFG, (uint32_t)s.size());
  switch (sim_choose(SIM_K_CFG, 8)) {
  case 0: return "nosuch";
  case 1: s[0] = (char)toupper(s[0]); return s;
  case 2: s.pop_back(); return s;
  case 3: return s + s.back();
  case 4: return s + std::string(1, "2_sx"[at & 3]);
  case 5: s[at] = s[at] == 'q' ? 'z' : 'q'; return s;
  case 6: return s.substr(1);
  default: return s + s;
  }
}

// 0 equal, 1 clearly different, 2 too close to call
static int truth(bool transposed, uint64_t n, std::string &why) {
  if (app_C.size() != n * n || app_A.size() != n * n || app_B.size() != n * n) { why = "sizes"; return 1; }
  std::vector<double> R(n * n);
  reference(app_A.data(), app_B.data(), transposed, R.data(), n);
  int r = 0;
  for (size_t i = 0; i < n * n; i++) {
    double d = std::fabs(app_C[i] - R[i]);
    if (!(d <= 1e-8)) { why = "C[" + std::to_string(i / n) + "][" + std::to_string(i % n) + "] is " + show(app_C[i]) + ", expected " + show(R[i]); return 1; }
    if (d > 1e-12) r = 2;
  }
  return r;
}
static void damage(const char **kind, bool may_truncate) {
  size_t n = app_C.size();
  if (!n) return;
  size_t i = sim_choose(SIM_K_FAULT, (uint32_t)n);
  if (sim_choose(SIM_K_FAULT, 4) == 0) i = sim_choose(SIM_K_FAULT, 2) ? n - 1 : 0;
  double &x = app_C[i];
  switch (sim_choose(SIM_K_FAULT, 9)) {
  case 0: x += 1; *kind = "an element is increased by 1"; break;
  case 1: x -= 1e-4; *kind = "an element is decreased by 0.0001"; break;
  case 2: x = std::numeric_limits<double>::quiet_NaN(); *kind = "an element becomes NaN"; break;
  case 3: x = std::numeric_limits<double>::infinity(); *kind = "an element becomes infinite"; break;
  case 4: x = -x; *kind = "an element changes its sign"; break;
  case 5: for (auto &y : app_C) y = 0; *kind = "the result is cleared"; break;
  case 6: x += 1e-6; *kind = "an element is increased by 0.000001"; break;
  case 7: if (may_truncate) { app_C.resize(sim_choose(SIM_K_FAULT, 3) ? n - 1 : 0); *kind = "the end of the result is missing"; break; } // fall through
  default: { uint64_t b; memcpy(&b, &x, 8); b ^= 1ull << (44 + sim_choose(SIM_K_FAULT, 20)); memcpy(&x, &b, 8); *kind = "a bit flips"; }
  }
}

struct state { job j; std::string alg; bool check, known, mismatch, unfinished; int where, count, subst; const char *kind; history h; };

static void application(bool plan, bool big) {
  capture_on();
  std::vector<int> w = cluster(plan ? 5 : 3, 3, 5, 8);
  state *st = new state;
  job &j = st->j;
  bool have;
  {
    sim_guard g;
    have = &app_A && &app_B && &app_C;
    st->kind = nullptr; st->count = 0;
    uint32_t a = plan ? 1 : sim_choose(SIM_K_CFG, 10);
    st->known = a < 8;
    st->alg = st->known ? ALGS[a] : unknown_name();
    st->unfinished = !plan && sim_choose(SIM_K_CFG, 64) == 63; // an algorithm that does not multiply: the check has to notice
    if (st->unfinished) { st->known = true; st->alg = "proposal"; a = 7; }
    j.alg = st->alg.c_str();
    j.N = pick_n(16); if (j.N > 16) j.N = 16;
    if (big) j.N = 17 + sim_choose(SIM_K_CFG, sim_choose(SIM_K_CFG, 12) == 11 ? 180 : 64);
    if (a == 6) j.N = KERNEL_TEST_MULTIPLE;
    j.transposed = sim_choose(SIM_K_CFG, 2);
    if (st->known && a >= 2 && sim_choose(SIM_K_CFG, 4)) j.transposed = a <= 4; // mostly what the algorithm accepts
    j.block_result = pick_block(j.N, a < 2); j.block_input = pick_block(j.N, a < 2);
    if (big) { if (j.block_result && j.block_result < 8) j.block_result += 8; if (j.block_input && j.block_input < 8) j.block_input += 8; }
    j.min_work = sim_choose(SIM_K_CFG, 2) ? sim_choose(SIM_K_CFG, (uint32_t)j.N + 1) : pick({256, 4, 2});
    if (big && j.min_work < 8) j.min_work = 8;
    j.max_diff = sim_choose(SIM_K_CFG, 2) ? sim_choose(SIM_K_CFG, (uint32_t)(j.N * j.N + 2)) : 10000;
    static const double rel[] = {0.05, 0, 0.5, 1, 3}; j.max_rel = rel[sim_choose(SIM_K_CFG, 5)];
    j.reps = sim_choose(SIM_K_CFG, 3) ? 1 : pick_reps();
    j.verbose = sim_choose_w(SIM_K_CFG, 3, 600);
    st->check = plan ? false : sim_choose(SIM_K_CFG, 8) != 7;
    st->mismatch = st->known && a >= 2 && a <= 5 && j.transposed != (a <= 4);
    // the result is damaged when the runtime stops (1) or when a timer is started (2)
    st->where = plan || !have ? 0 : a < 6 ? (int)sim_choose(SIM_K_CFG, 3) : (int)sim_choose(SIM_K_CFG, 2) * 2;
    st->subst = !plan && have && sim_choose(SIM_K_CFG, 2);
    j.mode_a = (int)sim_choose(SIM_K_CFG, D_MODES); j.mode_b = (int)sim_choose(SIM_K_CFG, D_MODES);
    std::string ws; for (int x : w) ws += (ws.empty() ? "" : ",") + std::to_string(x);
    sim_note("%s check=%d damage=%d operands=%d localities=%zu workers=%s", j.text().c_str(), (int)st->check, st->where, st->subst, w.size(), ws.c_str());
    unsigned m = 0;
    if (sim_choose(SIM_K_CFG, 2)) m |= (1u << SIM_F_CLOCK) | (1u << SIM_F_STALL) | (1u << SIM_F_SLOWNET);
    if (a == 1 && have && !plan && st->where == 0 && sim_choose(SIM_K_CFG, 2)) m |= 1u << SIM_F_FLIP;
    if (m) sim_fault_enable(m);
    sim_budget((uint64_t)(4e6 + 3000.0 * (big ? (j.N + 32.0) * (j.N + 32) * (j.N + 32) : 40.0 * 40 * 40) * (j.reps + 1)));
    auto &r = hpx::simd::R();
    if (st->where == 1) r.init_hook = [st]() { damage(&st->kind, st->j.verbose < 2); };
    if (st->where == 2 || st->subst) r.timer_hook = [st]() {
      if (sim_locality() != 0) return;
      int k = st->count++;
      job &j = st->j;
      if (st->subst && k == 0 && app_C.empty() && app_A.size() == j.N * j.N && app_B.size() == j.N * j.N) { fill(app_A.data(), j.N, j.mode_a, 0); fill(app_B.data(), j.N, j.mode_b, 1); }
      if (st->where == 2 && !app_C.empty()) damage(&st->kind, st->j.verbose < 2);
    };
    if (plan) r.observer = [st](const char *name, int loc, std::vector<uint64_t> const &a) { st->h.record(name, loc, a); };
  }
  size_t L = w.size();
  proc *ps;
  {
    sim_guard g;
    ps = new proc[L];
    for (size_t i = 0; i < L; i++) {
      char rel[40]; snprintf(rel, sizeof rel, "%g", j.max_rel);
      ps[i].args = {"matrix_multiply", "--n-value=" + std::to_string(j.N), "--algorithm=" + st->alg, std::string("--transposed=") + (j.transposed ? "true" : "false"),
                    "--block-result=" + std::to_string(j.block_result), "--block-input=" + std::to_string(j.block_input), "--repetitions=" + std::to_string(j.reps),
                    "--verbose=" + std::to_string(j.verbose), std::string("--check=") + (st->check ? "true" : "false"), "--min-work-size=" + std::to_string(j.min_work),
                    "--max-work-difference=" + std::to_string(j.max_diff), std::string("--max-relative-work-difference=") + rel};
      for (auto &s : ps[i].args) ps[i].argv.push_back(&s[0]);
      ps[i].argv.push_back(nullptr);
    }
  }
  uint64_t id[8];
  for (size_t i = 1; i < L; i++) id[i] = sim_thread_start_at((int)i, &process, &ps[i], "process");
  process(&ps[0]);
  for (size_t i = 1; i < L; i++) sim_thread_join(id[i]);

  sim_guard g;
  sim_faults_off();
  proc &r = ps[0];
  std::string out = capture(0), cfg = j.text();
  bool passed = out.find("check passed") != std::string::npos, failed = out.find("check failed") != std::string::npos;
  for (size_t i = 1; i < L; i++) {
    std::string o = capture((int)i);
    if (o.find("check passed") != std::string::npos || o.find("check failed") != std::string::npos) sim_report("verdict", "locality %zu reports a verdict (%s)", i, cfg.c_str());
    if (ps[i].threw || ps[i].status) sim_report("verdict", "the process of locality %zu ends with status %d %s (%s)", i, ps[i].status, ps[i].what.c_str(), cfg.c_str());
  }
  if (st->mismatch) {
    sim_probe("transposition not supported");
    if (!r.threw) sim_report("verdict", "%s with transposed=%d is accepted (%s)", j.alg, (int)j.transposed, cfg.c_str());
    else if (r.what.find("\"" + st->alg + "\"") == std::string::npos || r.what.find("transposed") == std::string::npos) sim_report("verdict", "%s with transposed=%d reports '%s' (%s)", j.alg, (int)j.transposed, r.what.c_str(), cfg.c_str());
    return;
  }
  if (r.threw) { sim_report("verdict", "unexpected exception '%s' (%s)", r.what.c_str(), cfg.c_str()); return; }
  if (!st->known) {
    sim_probe("unknown algorithm");
    if (r.status != 1 || out.find("\"" + st->alg + "\" not a valid algorithm") == std::string::npos || passed || failed)
      sim_report("verdict", "unknown algorithm \"%s\" ends with status %d%s (%s)", j.alg, r.status, passed || failed ? " and a verdict" : "", cfg.c_str());
    return;
  }
  if (r.status != 0) { sim_report("verdict", "the application ends with status %d (%s)", r.status, cfg.c_str()); return; }
  if (st->check ? passed == failed : (passed || failed)) { sim_report("verdict", "check=%d, but the output contains passed=%d failed=%d (%s)", (int)st->check, (int)passed, (int)failed, cfg.c_str()); return; }
  if (plan) { if (r.status == 0) judge_history(st->h, j, w); return; }
  if (!have) { // the result cannot be inspected: without damage it is right
    if (st->check && !passed) sim_report("verdict", "the check fails although nothing was damaged (%s)", cfg.c_str());
    return;
  }
  std::string why;
  int t = truth(j.transposed, j.N, why);
  if (t == 1 && !st->kind && !st->subst && !st->unfinished && !sim_fault_count(SIM_F_FLIP)) sim_report("product", "application: %s (%s)", why.c_str(), cfg.c_str());
  if (!st->check) return;
  if (t == 0 && failed) sim_report("verdict", "the check fails although the product is right (%s)", cfg.c_str());
  if (t == 1 && passed) sim_report("verdict", "the check passes although %s (%s; %s)", why.c_str(), st->kind ? st->kind : "damaged in transit", cfg.c_str());
  if (t == 1) sim_probe("wrong product rejected");
}
SIM_SCENARIO(app) { application(false, false); }
SIM_SCENARIO(appbig) { application(false, true); }
SIM_SCENARIO(appplan) { application(true, false); }
