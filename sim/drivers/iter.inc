// Blocked index iteration, either copy of the template (the includer provides it).
#include "support.hpp"
#include <array>
#include <map>

namespace {
using drv::pick;
typedef std::vector<size_t> ivec;
struct level { ivec block; std::vector<bool> par; };

// reference enumeration: the index set, in some order
void expand(std::vector<level> const &lv, size_t l, ivec const &steps, ivec lo, ivec hi, size_t dim, std::map<ivec, int> &out) {
  ivec const &b = l < lv.size() ? lv[l].block : steps;
  ivec cur = lo;
  for (size_t d = 0; d < dim; d++) if (lo[d] >= hi[d]) return;
  for (;;) {
    if (l == lv.size()) out[cur]++;
    else { ivec h(dim); for (size_t d = 0; d < dim; d++) h[d] = std::min(hi[d], cur[d] + b[d]); expand(lv, l + 1, steps, cur, h, dim, out); }
    size_t d = 0;
    for (; d < dim; d++) { cur[d] += b[d]; if (cur[d] < hi[d]) break; cur[d] = lo[d]; }
    if (d == dim) return;
  }
}
// the block containing index i at each level, as origins
void origins(std::vector<level> const &lv, ivec const &lo0, ivec const &i, size_t dim, std::vector<ivec> &out) {
  ivec lo = lo0;
  for (auto &l : lv) { for (size_t d = 0; d < dim; d++) lo[d] += (i[d] - lo[d]) / l.block[d] * l.block[d]; out.push_back(lo); }
}
// must call a precede call b?  1 yes, -1 b before a, 0 unordered
int order(std::vector<level> const &lv, ivec const &lo0, ivec const &a, ivec const &b, size_t dim) {
  std::vector<ivec> oa, ob;
  origins(lv, lo0, a, dim, oa); origins(lv, lo0, b, dim, ob);
  for (size_t l = 0; l <= lv.size(); l++) {
    ivec const &x = l < lv.size() ? oa[l] : a, &y = l < lv.size() ? ob[l] : b;
    size_t nd = 0, at = 0; bool par = false;
    for (size_t d = 0; d < dim; d++) if (x[d] != y[d]) { nd++; at = d; par |= l < lv.size() && lv[l].par[d]; }
    if (nd == 0) continue;           // same block at this level
    if (par || nd > 1) return 0;     // different parallel blocks, or the statement does not order them
    return x[at] < y[at] ? 1 : -1;
  }
  return 0;
}

struct ctx {
  std::vector<ivec> calls;
  std::vector<double> cells;   // touched by the callback without synchronisation: each index once, no race
  ivec lo, ext;
  bool returned = false, outside = false;
  size_t dim;
};
void record(ctx *c, ivec i) {
  {
    sim_guard g;
    if (c->returned) sim_report("iteration", "the function is called after the iteration returned");
    c->calls.push_back(i);
  }
  size_t flat = 0;
  for (size_t d = 0; d < c->dim; d++) {
    if (i[d] < c->lo[d] || i[d] >= c->lo[d] + c->ext[d]) { c->outside = true; return; }
    flat = flat * c->ext[d] + (i[d] - c->lo[d]);
  }
  c->cells[flat] += 1.0;
}
template <size_t D> struct call;
template <> struct call<4> { template <class P> static void go(P p, ivec lo, ivec hi, ctx *c) { index_iterator::iterate_indices<4>(p, lo, hi, [c](size_t a, size_t b, size_t e, size_t f) { record(c, ivec{a, b, e, f}); }); } };
template <> struct call<1> { template <class P> static void go(P p, ivec lo, ivec hi, ctx *c) { index_iterator::iterate_indices<1>(p, lo, hi, [c](size_t a) { record(c, ivec{a}); }); } };
template <> struct call<2> { template <class P> static void go(P p, ivec lo, ivec hi, ctx *c) { index_iterator::iterate_indices<2>(p, lo, hi, [c](size_t a, size_t b) { record(c, ivec{a, b}); }); } };
template <> struct call<3> { template <class P> static void go(P p, ivec lo, ivec hi, ctx *c) { index_iterator::iterate_indices<3>(p, lo, hi, [c](size_t a, size_t b, size_t e) { record(c, ivec{a, b, e}); }); } };

std::string vtext(ivec const &v) { std::string s = "("; for (size_t x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + ")"; }

template <size_t D> void iterate_run(std::vector<int> const &w) {
  ctx *c = new ctx;
  c->dim = D;
  std::vector<level> lv;
  ivec lo(D), hi(D), steps(D, 1);
  std::string txt;
  bool have_steps;
  {
    sim_guard g;
    bool wide = sim_choose(SIM_K_CFG, 16) == 15; // now and then larger boxes, more levels
    uint32_t emax = wide ? (D == 4 ? 6 : D == 3 ? 14 : D == 2 ? 50 : 400) : D == 4 ? 4 : D == 3 ? 7 : D == 2 ? 13 : 40;
    for (size_t d = 0; d < D; d++) {
      lo[d] = sim_choose(SIM_K_CFG, 4); hi[d] = lo[d] + sim_choose(SIM_K_CFG, emax + 1);
      if (hi[d] == lo[d] && sim_choose(SIM_K_CFG, 4)) hi[d]++; // empty boxes stay rare
    }
    size_t nl = sim_choose(SIM_K_CFG, wide ? 6 : 4);
    for (size_t l = 0; l < nl; l++) {
      level x; x.block.resize(D); x.par.resize(D);
      for (size_t d = 0; d < D; d++) { x.block[d] = 1 + sim_choose(SIM_K_CFG, wide ? emax + 2 : 8); x.par[d] = sim_choose(SIM_K_CFG, 2) != 0; }
      lv.push_back(x);
    }
    have_steps = sim_choose(SIM_K_CFG, 3) == 2;
    if (have_steps) for (size_t d = 0; d < D; d++) steps[d] = 1 + sim_choose(SIM_K_CFG, 4);
    txt = "box " + vtext(lo) + ".." + vtext(hi);
    for (auto &l : lv) { txt += " block " + vtext(l.block) + " parallel "; for (size_t d = 0; d < D; d++) txt += l.par[d] ? '1' : '0'; }
    txt += " steps " + vtext(steps);
    sim_note("%s workers=%d", txt.c_str(), w[0]);
  }
  size_t cells = 1;
  c->lo = lo; c->ext.resize(D);
  for (size_t d = 0; d < D; d++) { c->ext[d] = hi[d] - lo[d]; cells *= c->ext[d]; }
  c->cells.assign(cells, 0.0);
  sim_budget(4000000);
  std::exception_ptr ex;
  try {
    hpx::async([&]() {
      index_iterator::blocking_pseudo_execution_policy<size_t> p(D);
      if (have_steps) p.set_final_steps(steps);
      for (size_t l = lv.size(); l-- > 0;) p.add_blocking(lv[l].block, lv[l].par); // outermost is added last
      call<D>::go(p, lo, hi, c);
      c->returned = true;
    }).get();
  } catch (...) { ex = std::current_exception(); }
  c->returned = true;
  if (cells) sim_read(c->cells.data(), cells * sizeof(double));
  {
    sim_guard g;
    if (ex) { std::string m = "?"; try { std::rethrow_exception(ex); } catch (std::exception const &e) { m = e.what(); } catch (...) {} sim_report("exception", "unexpected exception '%s' (%s)", m.c_str(), txt.c_str()); }
    else {
      std::map<ivec, int> want, got;
      expand(lv, 0, steps, lo, hi, D, want);
      for (auto &i : c->calls) got[i]++;
      for (auto &x : got) if (!want.count(x.first)) { sim_report("iteration", "called for %s, which is outside the box or off the step grid (%s)", vtext(x.first).c_str(), txt.c_str()); break; }
      for (auto &x : want) if (got[x.first] != 1) { sim_report("iteration", "called %d times for %s (%s)", got[x.first], vtext(x.first).c_str(), txt.c_str()); break; }
      bool bad = false;
      size_t n = c->calls.size();
      for (size_t i = 0; i < n && !bad; i++) for (size_t k = i + 1; k < n && k < i + (n > 500 ? 60 : 400); k++)
        if (order(lv, lo, c->calls[i], c->calls[k], D) == -1) { sim_report("iteration", "%s is called before %s although their blocks differ only along one serial dimension (%s)", vtext(c->calls[i]).c_str(), vtext(c->calls[k]).c_str(), txt.c_str()); bad = true; break; }
      if (n > 1) sim_probe("more than one index");
    }
  }
  sim_sleep(1000000000ull); // a task that outlives the iteration would call the function now
  delete c;
}
} // namespace
