// One multiplication: generated operands and options, execution, judgement.
#pragma once
#include "support.hpp"
#include <exception>
#include <memory>
#include <stdexcept>

namespace drv {
struct job {
  const char *alg = "";
  size_t N = 1;
  bool transposed = false;
  uint64_t block_result = 0, block_input = 0, min_work = 0, max_diff = 0, reps = 1, verbose = 0;
  double max_rel = 0;
  int mode_a = 0, mode_b = 0;
  std::vector<double> A, B;    // allocated by instrumented code: red zones, race shadow
  std::vector<double> Ac, Bc, R; // pristine copies and the reference product
  std::string text() const {
    char b[400];
    snprintf(b, sizeof b, "%s N=%zu transposed=%d block_result=%llu block_input=%llu min_work=%llu max_diff=%llu max_rel=%g reps=%llu verbose=%llu A=%s B=%s", alg, N, (int)transposed,
             (unsigned long long)block_result, (unsigned long long)block_input, (unsigned long long)min_work, (unsigned long long)max_diff, max_rel, (unsigned long long)reps,
             (unsigned long long)verbose, mode_name[mode_a], mode_name[mode_b]);
    return b;
  }
  void make_data(job *from = nullptr) { // from: take its buffers, give them new contents
    if (from && from->N == N) { A.swap(from->A); B.swap(from->B); }
    { sim_guard g; mode_a = (int)sim_choose(SIM_K_CFG, D_MODES); mode_b = (int)sim_choose(SIM_K_CFG, D_MODES); }
    A.resize(N * N); B.resize(N * N);
    sim_guard g;
    fill(A.data(), N, mode_a, 0); fill(B.data(), N, mode_b, 1);
    Ac = A; Bc = B; R.resize(N * N);
    reference(A.data(), B.data(), transposed, R.data(), N);
  }
  void copy_options(job const &o) {
    N = o.N; transposed = o.transposed; block_result = o.block_result; block_input = o.block_input; min_work = o.min_work; max_diff = o.max_diff; reps = o.reps; verbose = o.verbose; max_rel = o.max_rel; alg = o.alg;
  }
  void free_data() { std::vector<double>().swap(A); std::vector<double>().swap(B); }
};

enum outcome { EXACT, WRONG, THREW };
// judges a returned product; the main thread's reads are recorded, so a task that still
// writes to the result shows up as a race
inline outcome judge(job &j, std::vector<double> const &C, const char *what) {
  if (C.size()) sim_read(C.data(), C.size() * sizeof(double));
  sim_guard g;
  if (C.size() != j.N * j.N) { sim_report("product", "%s: result has %zu elements, expected %zu (%s)", what, C.size(), j.N * j.N, j.text().c_str()); return WRONG; }
  long d = first_diff(C.data(), j.R.data(), C.size());
  if (d >= 0) {
    size_t bad = 0; for (size_t i = 0; i < C.size(); i++) bad += !(C[i] == j.R[i]);
    sim_report("product", "%s: C[%ld][%ld] is %s, expected %s, %zu of %zu elements differ (%s)", what, d / (long)j.N, d % (long)j.N, show(C[d]).c_str(), show(j.R[d]).c_str(), bad, C.size(), j.text().c_str());
    return WRONG;
  }
  return EXACT;
}
inline void judge_operands(job &j, const char *what) {
  sim_guard g;
  if (j.A.size() != j.Ac.size() || first_diff(j.A.data(), j.Ac.data(), j.A.size()) >= 0) sim_report("operand-modified", "%s: A was modified (%s)", what, j.text().c_str());
  if (j.B.size() != j.Bc.size() || first_diff(j.B.data(), j.Bc.data(), j.B.size()) >= 0) sim_report("operand-modified", "%s: B was modified (%s)", what, j.text().c_str());
}
inline std::string describe(std::exception_ptr e) {
  try { std::rethrow_exception(e); }
  catch (std::exception const &x) { sim_guard g; return x.what(); }
  catch (...) { sim_guard g; return "unknown exception"; }
}

std::vector<double> dispatch(job &j); // of the executable: runs the algorithm named by j.alg

// executes the job, judges it; exceptions are violations unless allowed
inline outcome execute(job &j, const char *what, bool may_throw, std::string *why = nullptr) {
  outcome o = THREW;
  std::exception_ptr ex;
  try {
    std::vector<double> C = dispatch(j);
    o = judge(j, C, what);
  } catch (...) { ex = std::current_exception(); }
  if (ex) {
    std::string w = describe(ex);
    sim_guard g;
    if (why) *why = w;
    if (!may_throw) sim_report("exception", "%s: unexpected exception '%s' (%s)", what, w.c_str(), j.text().c_str());
  }
  judge_operands(j, what);
  return o;
}
inline void set_budget(double n, double reps, double padded = 0) {
  double m = (n + 8 > padded ? n + 8 : padded);
  sim_budget((uint64_t)(2e6 + 3000.0 * m * m * m * reps));
}
} // namespace drv
