// Tiled storage: tiling, untiling, visiting tiles; several threads, failing allocations.
#include <algorithm>
#include <array>
#include <cstddef>
#include <exception>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <boost/align/aligned_allocator.hpp>
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
#include "support.hpp"

using namespace drv;
namespace ml = memory_layout;

struct shape {
  size_t rows, cols, tr, tc;
  std::string text() const { char b[120]; snprintf(b, sizeof b, "%zux%zu tiles %zux%zu", rows, cols, tr, tc); return b; }
  std::vector<ml::tiling_info_dim> info() const { std::vector<ml::tiling_info_dim> i(2); i[0].tile_size_dir = tr; i[0].stride = rows; i[1].tile_size_dir = tc; i[1].stride = cols; return i; }
  size_t at(size_t k) const { // matrix position of element k of the tiled storage
    size_t t = k / (tr * tc), e = k % (tr * tc), ty = t / (cols / tc), tx = t % (cols / tc);
    return (ty * tr + e / tc) * cols + tx * tc + e % tc;
  }
};
static shape gen_shape() {
  sim_guard g;
  shape s;
  uint32_t lim = sim_choose(SIM_K_CFG, 24) == 23 ? 11 : sim_thorough() ? 7 : 5;
  s.tr = 1 + sim_choose(SIM_K_CFG, lim); s.tc = sim_choose(SIM_K_CFG, 3) == 0 ? s.tr : 1 + sim_choose(SIM_K_CFG, lim);
  s.rows = s.tr * (1 + sim_choose(SIM_K_CFG, lim)); s.cols = sim_choose(SIM_K_CFG, 3) == 0 && s.rows % s.tc == 0 ? s.rows : s.tc * (1 + sim_choose(SIM_K_CFG, lim));
  return s;
}
template <class T> static T value(size_t i, int salt) { return (T)(i + 1 + 1000 * salt); }

template <class V> struct visit { // records a walk over the tiles
  shape s; V *tiled; int writer, writers; int salt;
  std::vector<size_t> order; std::string bad;
};
template <class V> static void walk(visit<V> &v, std::vector<ml::tiling_info_dim> &info) {
  typedef typename V::value_type T;
  visit<V> *p = &v;
  ml::iterate_tiles<2>(*v.tiled, info, [p](auto view) {
    size_t ty = view.get_tile_index()[0], tx = view.get_tile_index()[1], nr = p->s.rows / p->s.tr, nc = p->s.cols / p->s.tc;
    { sim_guard g; p->order.push_back(ty * nc + tx);
      if (ty >= nr || tx >= nc || view.get_tiles_dir()[0] != nr || view.get_tiles_dir()[1] != nc || view.size() != p->s.tr * p->s.tc) { if (p->bad.empty()) p->bad = "the view does not describe a tile of the matrix"; return; } }
    for (size_t i = 0; i < p->s.tr; i++) for (size_t j = 0; j < p->s.tc; j++) {
      std::array<size_t, 2> c{{i, j}};
      size_t flat = view.flat_index(c), m = (ty * p->s.tr + i) * p->s.cols + tx * p->s.tc + j;
      if (p->writers) { // disjoint tiles are written by different threads
        if ((int)((ty * nc + tx) % p->writers) == p->writer) { size_t how = (i + j + tx) % 3; if (how == 0) view(i, j) = value<T>(m, p->salt); else if (how == 1) view[c] = value<T>(m, p->salt); else view[flat] = value<T>(m, p->salt); }
      } else {
        T a = view(i, j), b = view[c], d = view[flat], want = value<T>(m, p->salt);
        if (a != want || b != want || d != want) { sim_guard g; if (p->bad.empty()) { char t[160]; snprintf(t, sizeof t, "element (%zu,%zu) of tile (%zu,%zu) reads %g, %g, %g instead of %g", i, j, ty, tx, (double)a, (double)b, (double)d, (double)want); p->bad = t; } }
      }
    }
  });
}
template <class V> static void judge_walk(visit<V> &v, const char *what) {
  sim_guard g;
  size_t n = (v.s.rows / v.s.tr) * (v.s.cols / v.s.tc);
  if (!v.bad.empty()) { sim_report("tiles", "%s: %s (%s)", what, v.bad.c_str(), v.s.text().c_str()); return; }
  for (size_t i = 0; i < n || i < v.order.size(); i++)
    if (i >= n || i >= v.order.size() || v.order[i] != i) { sim_report("tiles", "%s: %zu tiles visited, expected %zu; visit %zu is tile %zu (%s)", what, v.order.size(), n, i, i < v.order.size() ? v.order[i] : (size_t)-1, v.s.text().c_str()); return; }
}
template <class V> static void same(V const &v, shape const &s, bool tiled, int salt, const char *what) {
  typedef typename V::value_type T;
  if (v.size()) sim_read(v.data(), v.size() * sizeof(T));
  sim_guard g;
  if (v.size() != s.rows * s.cols) { sim_report("tiles", "%s: %zu elements, expected %zu (%s)", what, v.size(), s.rows * s.cols, s.text().c_str()); return; }
  for (size_t k = 0; k < v.size(); k++) { size_t m = tiled ? s.at(k) : k; if (v[k] != value<T>(m, salt)) { sim_report("tiles", "%s: element %zu is %g, expected %g (%s)", what, k, (double)v[k], (double)value<T>(m, salt), s.text().c_str()); return; } }
}

// what one thread does with a matrix (possibly shared with others, which only read it)
template <class V> struct work {
  shape s; V *org; V *tiled; int salt, id, writers; bool faulty;
  std::string failed;
  void body() {
    auto info = s.info();
    V t = ml::make_tiled<2>(*org, info);
    same(t, s, true, salt, "make_tiled");
    visit<V> r{s, &t, 0, 0, salt, {}, {}};
    walk(r, info); judge_walk(r, "iterate_tiles");
    V u = ml::undo_tiling<2>(t, info);
    same(u, s, false, salt, "undo_tiling");
    same(t, s, true, salt, "tiled storage after undo_tiling");
  }
  void wrong() { // a description with another number of dimensions
    std::vector<ml::tiling_info_dim> info = s.info();
    size_t d; { sim_guard g; d = (size_t[]){0, 1, 3}[sim_choose(SIM_K_CFG, 3)]; }
    ml::tiling_info_dim x; x.tile_size_dir = 1; x.stride = 1;
    info.resize(d, x);
    for (int k = 0; k < 2; k++) {
      bool threw = false; std::string msg;
      try { if (k) ml::undo_tiling<2>(*org, info); else ml::make_tiled<2>(*org, info); }
      catch (std::bad_alloc const &) { throw; }
      catch (std::exception const &e) { threw = true; const char *w = e.what(); std::vector<char> scribble(64, 'x'); sim_read(w, 1); sim_guard g; msg = w; }
      sim_guard g;
      if (!threw) sim_report("tiles", "%s accepts a description with %zu dimensions (%s)", k ? "undo_tiling" : "make_tiled", d, s.text().c_str());
      else if (msg.find("tiling_info doesn't match specified dimension") == std::string::npos) sim_report("tiles", "%s with %zu dimensions reports '%s' (%s)", k ? "undo_tiling" : "make_tiled", d, msg.c_str(), s.text().c_str());
    }
  }
  void run() {
    std::exception_ptr ex;
    try { body(); if (sim_choose(SIM_K_CFG, 3) == 2) wrong(); }
    catch (...) { ex = std::current_exception(); }
    if (ex) {
      try { std::rethrow_exception(ex); } catch (std::exception const &e) { sim_guard g; failed = e.what(); } catch (...) { sim_guard g; failed = "unknown exception"; }
      if (failed.empty()) failed = "?";
      sim_guard g;
      if (!sim_fault_count(SIM_F_ALLOC)) sim_report("tiles", "unexpected exception '%s' (%s)", failed.c_str(), s.text().c_str());
    }
    same(*org, s, false, salt, "original matrix");
  }
};
template <class V> static void entry(void *p) { ((work<V> *)p)->run(); }
template <class V> static void writer(void *p) {
  work<V> *w = (work<V> *)p;
  try {
    auto info = w->s.info();
    visit<V> v{w->s, w->tiled, w->id, w->writers, w->salt, {}, {}};
    walk(v, info); judge_walk(v, "concurrent iterate_tiles");
  } catch (std::exception const &e) { sim_guard g; w->failed = e.what(); if (!sim_fault_count(SIM_F_ALLOC)) sim_report("tiles", "unexpected exception '%s' while visiting (%s)", e.what(), w->s.text().c_str()); }
}
template <class V> static V *matrix(shape const &s, int salt) {
  V *v = new V(s.rows * s.cols);
  sim_guard g;
  for (size_t i = 0; i < v->size(); i++) (*v)[i] = value<typename V::value_type>(i, salt);
  return v;
}
template <class V> static void tiles(bool faults) {
  typedef typename V::value_type T;
  int n = 1 + (int)sim_choose(SIM_K_CFG, 3), w1 = 1; sim_setup(1, &w1, 1);
  work<V> ws[3];
  std::string all;
  for (int i = 0; i < n; i++) {
    bool share = i && sim_choose(SIM_K_CFG, 2);
    ws[i].s = share ? ws[0].s : gen_shape(); ws[i].salt = share ? 0 : i; ws[i].id = i; ws[i].faulty = faults;
    ws[i].org = share ? ws[0].org : matrix<V>(ws[i].s, i);
    sim_guard g; all += ws[i].s.text() + (share ? " (shared); " : "; ");
  }
  { sim_guard g; sim_note("%d threads, %s, %s: %s", n, sizeof(T) == 8 ? "double" : "int", sizeof(V) && std::is_same<V, std::vector<T>>::value ? "std::allocator" : "aligned_allocator", all.c_str()); }
  sim_budget(20000000);
  if (faults) { unsigned m = 1u << SIM_F_ALLOC; if (sim_choose(SIM_K_CFG, 2)) m |= 1u << SIM_F_STALL; sim_fault_enable(m); }
  else if (sim_choose(SIM_K_CFG, 2)) sim_fault_enable(1u << SIM_F_STALL);
  if (n == 1) ws[0].run();
  else {
    uint64_t id[3];
    for (int i = 0; i < n; i++) id[i] = sim_thread_start(&entry<V>, &ws[i], "tiler");
    for (int i = 0; i < n; i++) sim_thread_join(id[i]);
  }
  for (int i = 0; i < n; i++) if (!ws[i].failed.empty()) { sim_probe("failure reported by an exception"); break; }
  sim_faults_off();
  // the same tiled matrix visited by several threads, each writing its own tiles
  std::exception_ptr ex;
  try {
    shape s = ws[0].s; auto info = s.info();
    V *t = new V(ml::make_tiled<2>(*ws[0].org, info));
    int k = 1 + (int)sim_choose(SIM_K_CFG, 3);
    work<V> wr[3]; uint64_t id[3];
    for (int i = 0; i < k; i++) { wr[i].s = s; wr[i].tiled = t; wr[i].id = i; wr[i].writers = k; wr[i].salt = 7; }
    for (int i = 0; i < k; i++) id[i] = sim_thread_start(&writer<V>, &wr[i], "writer");
    for (int i = 0; i < k; i++) sim_thread_join(id[i]);
    same(*t, s, true, 7, "tiles written through views");
    V u = ml::undo_tiling<2>(*t, info);
    same(u, s, false, 7, "undo_tiling after writing through views");
    delete t;
  } catch (...) { ex = std::current_exception(); }
  if (ex) { sim_guard g; sim_report("tiles", "exception although no fault is injected any more"); }
  for (int i = n; i-- > 0;) if (i == 0 || ws[i].org != ws[0].org) delete ws[i].org;
}
template <class T> using al = std::vector<T, boost::alignment::aligned_allocator<T, 32>>;
static void pick_type(bool faults) {
  capture_on();
  switch (sim_choose(SIM_K_CFG, 4)) {
  case 0: tiles<std::vector<double>>(faults); break;
  case 1: tiles<al<double>>(faults); break;
  case 2: tiles<std::vector<int>>(faults); break;
  default: tiles<al<double>>(faults);
  }
}
SIM_SCENARIO(tile) { pick_type(false); }
SIM_SCENARIO(tilefault) { pick_type(true); }
