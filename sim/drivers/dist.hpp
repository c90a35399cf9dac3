// Judgement of the work distribution of the pseudodynamic algorithm.
#pragma once
#include "jobs.hpp"
#include <cstring>
#include <map>
#include <tuple>

namespace drv {
struct region { uint64_t x, y, n; int loc; };
static std::string rtext(region const &r) { return "[" + std::to_string(r.x) + "," + std::to_string(r.y) + " size " + std::to_string(r.n) + " @" + std::to_string(r.loc) + "]"; }

// every cell of N x N covered exactly `times`
static bool partition(std::vector<region> const &rs, uint64_t N, uint64_t times, const char *what, std::string const &cfg) {
  std::vector<uint32_t> cnt(N * N);
  for (auto &r : rs) {
    if (r.n > N || r.x > N - r.n || r.y > N - r.n) { sim_report("distribution", "%s: package %s exceeds the matrix (%s)", what, rtext(r).c_str(), cfg.c_str()); return false; }
    for (uint64_t a = 0; a < r.n; a++) for (uint64_t b = 0; b < r.n; b++) cnt[(r.x + a) * N + r.y + b]++;
  }
  for (uint64_t i = 0; i < N * N; i++) if (cnt[i] != times) {
    sim_report("distribution", "%s: component (%llu,%llu) is computed %u times instead of %llu (%s)", what, (unsigned long long)(i / N), (unsigned long long)(i % N), cnt[i], (unsigned long long)times, cfg.c_str());
    return false;
  }
  return true;
}
static void limits(std::vector<region> const &pk, job &j, int first, int n, const char *what) {
  std::vector<uint64_t> load(n);
  for (auto &p : pk) {
    if (p.loc < first || p.loc >= first + n) { sim_report("distribution", "%s: package %s is not on a computing locality (%s)", what, rtext(p).c_str(), j.text().c_str()); return; }
    load[p.loc - first] += p.n * p.n;
    uint64_t s = p.n; while (s && s < j.N) s *= 2;
    if (p.n == 0 || s != j.N) { sim_report("distribution", "%s: package %s does not come from halving %zu (%s)", what, rtext(p).c_str(), j.N, j.text().c_str()); return; }
    if (p.n < j.N && 2 * p.n <= j.min_work) { sim_report("distribution", "%s: package %s comes from splitting one not larger than the minimum work size (%s)", what, rtext(p).c_str(), j.text().c_str()); return; }
  }
  uint64_t mx = 0, mn = ~0ull;
  for (uint64_t l : load) { if (l > mx) mx = l; if (l < mn) mn = l; }
  if (mx - mn < j.max_diff) return;
  if (mn > 0 && (double)(mx - mn) / (double)mn < j.max_rel) return;
  for (auto &p : pk) if (load[p.loc - first] == mx && p.n % 2 == 0 && p.n > j.min_work && p.n * p.n / 2 <= mx - mn && mx > mn) {
    sim_report("distribution", "%s: loads differ by %llu (min %llu), over both limits, although %s could be split (%s)", what, (unsigned long long)(mx - mn), (unsigned long long)mn, rtext(p).c_str(), j.text().c_str());
    return;
  }
  sim_probe("limits not reachable");
}

struct history { // block requests, recorded where they arrive
  std::vector<region> leaves, calls;
  void record(const char *name, int loc, std::vector<uint64_t> const &a) {
    if (a.size() < 3) return;
    if (strstr(name, "calculate_submatrix")) leaves.push_back(region{a[0], a[1], a[2], loc});
    else if (strstr(name, "distribute_recursively")) calls.push_back(region{a[0], a[1], a[2], loc});
  }
};
static void judge_history(history &h, job &j, std::vector<int> const &w) {
  auto &leaves = h.leaves; auto &calls = h.calls;
  int first = w.size() > 1 ? 1 : 0, n = (int)w.size() - first;
  if (!leaves.empty()) {
    sim_probe("network history inspected");
    if (!partition(leaves, j.N, j.reps, "execution", j.text())) return;
    if (first) for (auto &l : leaves) if (l.loc == 0) { sim_report("distribution", "root locality computes %s although others exist (%s)", rtext(l).c_str(), j.text().c_str()); return; }
  }
  if (!calls.empty()) { // top-level packages: calls not contained in a larger one
    std::vector<region> pk;
    for (auto &c : calls) {
      bool inner = false;
      for (auto &d : calls) if (d.n > c.n && d.x <= c.x && d.y <= c.y && c.x + c.n <= d.x + d.n && c.y + c.n <= d.y + d.n) { inner = true; break; }
      if (!inner) pk.push_back(c);
    }
    if (!partition(pk, j.N, j.reps, "packages", j.text())) return;
    // each repetition distributes the same packages
    std::map<std::tuple<int, uint64_t, uint64_t, uint64_t>, uint64_t> m;
    for (auto &p : pk) m[std::make_tuple(p.loc, p.x, p.y, p.n)]++;
    std::vector<region> one;
    for (auto &e : m) {
      if (e.second != j.reps) return; // another plan per repetition is allowed; the partition above still holds
      one.push_back(region{std::get<1>(e.first), std::get<2>(e.first), std::get<3>(e.first), std::get<0>(e.first)});
    }
    limits(one, j, first, n, "execution");
  }
}
} // namespace drv
