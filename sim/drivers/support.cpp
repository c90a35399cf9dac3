#include "support.hpp"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <streambuf>

namespace drv {
const char *const mode_name[] = {"small", "positional", "big", "permutation", "dyadic", "sparse", "onehot"};

static uint32_t rnd(uint32_t n) { return (uint32_t)((sim_data64() >> 11) % n); }
void fill(double *m, size_t n, int mode, int which) {
  size_t nn = n * n;
  switch (mode) {
  case D_SMALL: for (size_t i = 0; i < nn; i++) { int v = 1 + (int)rnd(9); m[i] = rnd(2) ? v : -v; } break;
  case D_POS: for (size_t i = 0; i < nn; i++) m[i] = which ? (double)(1 + (i * 7919) % 4093) : (double)(i + 1); break;
  case D_BIG: for (size_t i = 0; i < nn; i++) { int v = (1 << 20) - (int)rnd(1 << 10); m[i] = rnd(2) ? v : -v; } break;
  case D_PERM: {
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; i++) p[i] = i;
    if (rnd(3)) for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[rnd((uint32_t)i)]);
    for (size_t i = 0; i < nn; i++) m[i] = 0;
    for (size_t i = 0; i < n; i++) m[i * n + p[i]] = 1 + (which ? 0 : (double)rnd(5));
    break;
  }
  case D_DYADIC: for (size_t i = 0; i < nn; i++) { int v = 1 + (int)rnd(1 << 14); m[i] = (rnd(2) ? v : -v) / 1024.0; } break;
  case D_SPARSE: for (size_t i = 0; i < nn; i++) m[i] = rnd(4) ? 0.0 : (double)((int)rnd(19) - 9); break;
  default: // one nonzero row/column pair
    for (size_t i = 0; i < nn; i++) m[i] = 0;
    { size_t k = rnd((uint32_t)n); if (which) for (size_t j = 0; j < n; j++) m[k * n + j] = 1 + j; else for (size_t j = 0; j < n; j++) m[j * n + k] = 1 + j; }
  }
}
void reference(const double *A, const double *B, bool tr, double *C, size_t n) {
  std::vector<double> T;
  if (tr) { T.resize(n * n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) T[j * n + i] = B[i * n + j]; B = T.data(); }
  for (size_t i = 0; i < n * n; i++) C[i] = 0;
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) { double a = A[i * n + k]; for (size_t j = 0; j < n; j++) C[i * n + j] += a * B[k * n + j]; }
}
long first_diff(const double *a, const double *b, size_t n) { for (size_t i = 0; i < n; i++) if (!(a[i] == b[i])) return (long)i; return -1; }
std::string show(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

size_t pick_n(int big) {
  switch (sim_choose(SIM_K_CFG, 8)) {
  case 0: case 1: return 1 + sim_choose(SIM_K_CFG, 4);
  case 2: case 3: return 1 + sim_choose(SIM_K_CFG, 12);
  case 4: return 2 * (1 + sim_choose(SIM_K_CFG, 8));
  case 5: return 1 + sim_choose(SIM_K_CFG, 20);
  case 6: return 4 * (1 + sim_choose(SIM_K_CFG, 5));
  default: return 1 + sim_choose(SIM_K_CFG, big);
  }
}
uint64_t pick_block(size_t n, bool zero) {
  uint64_t r;
  switch (sim_choose(SIM_K_CFG, 6)) {
  case 0: r = zero ? 0 : n; break;
  case 1: r = 1 + sim_choose(SIM_K_CFG, 4); break;
  case 2: r = n / 2; break;
  case 3: r = n + sim_choose(SIM_K_CFG, 3); break;
  case 4: r = 4 * (1 + sim_choose(SIM_K_CFG, 3)); break;
  default: r = 1 + sim_choose(SIM_K_CFG, (uint32_t)n + 4);
  }
  if (!zero && r == 0) r = 1;
  return r;
}
uint64_t pick_reps() { return sim_choose(SIM_K_CFG, 12) == 11 ? 4 + sim_choose(SIM_K_CFG, 6) : 1 + sim_choose(SIM_K_CFG, 3); }
uint64_t pick(std::initializer_list<uint64_t> v) { return v.begin()[sim_choose(SIM_K_CFG, (uint32_t)v.size())]; }
int pick_team(int usual) { return sim_choose(SIM_K_CFG, 20) == 19 ? usual + 1 + (int)sim_choose(SIM_K_CFG, 40) : 1 + (int)sim_choose(SIM_K_CFG, usual); }
std::vector<int> cluster(int max_loc, int max_workers, int omp_max, int wide) {
  if (sim_choose(SIM_K_CFG, 24) == 23) { // now and then many
    if (max_loc > 1) { max_loc = wide; max_workers = 7; } else max_workers = 33;
  }
  int L = 1 + (int)sim_choose(SIM_K_CFG, max_loc);
  std::vector<int> w;
  for (int i = 0; i < L; i++) w.push_back(1 + (int)sim_choose(SIM_K_CFG, max_workers));
  sim_setup(L, w.data(), omp_max ? pick_team(omp_max) : 2);
  return w;
}

struct capbuf : std::streambuf {
  std::string out[16];
  int overflow(int c) override { sim_guard g; if (c != EOF) out[sim_locality() & 15].push_back((char)c); return 0; }
  std::streamsize xsputn(const char *s, std::streamsize n) override { sim_guard g; out[sim_locality() & 15].append(s, n); return n; }
};
static capbuf *cap() { return (capbuf *)*sim_root(2); }
void capture_on() { sim_guard g; capbuf *c = new capbuf; *sim_root(2) = c; std::cout.rdbuf(c); std::cerr.rdbuf(c); }
std::string capture(int l) { sim_guard g; return cap() ? cap()->out[l] : std::string(); }
void capture_clear() { sim_guard g; if (cap()) for (auto &o : cap()->out) o.clear(); }
} // namespace drv
