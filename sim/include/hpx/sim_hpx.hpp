// HPX as seen by the simulated programs: localities, names, components, actions, futures,
// parallel algorithms, locks, start-up.  Runtime code runs under sim_guard (no preemption,
// no access checks); code of the simulated program runs under sim_unguard.
#pragma once
#include "sim.h"

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <deque>
#include <numeric>
#include <vector>

#include <boost/iterator/iterator_facade.hpp>
#include <boost/program_options.hpp>
#include <boost/range/irange.hpp>
#include <boost/format.hpp>

namespace hpx {

// ---- errors ---------------------------------------------------------------------
enum error { success = 0, no_success = 1, not_implemented = 2, out_of_memory = 3, bad_parameter = 9, network_error = 20,
             kernel_error = 28, invalid_status = 30, no_state = 35, broken_promise = 36, future_already_retrieved = 37, unhandled_exception = 40 };
class exception : public std::runtime_error {
  error e_;
public:
  explicit exception(error e = success, std::string const &m = "hpx error") : std::runtime_error(m), e_(e) {}
  exception(error e, char const *m) : std::runtime_error(m), e_(e) {}
  error get_error() const noexcept { return e_; }
};
class exception_list : public exception {
  std::vector<std::exception_ptr> l_;
public:
  explicit exception_list(std::vector<std::exception_ptr> l) : exception(unhandled_exception, "exception_list"), l_(std::move(l)) {}
  std::size_t size() const noexcept { return l_.size(); }
  std::vector<std::exception_ptr>::const_iterator begin() const { return l_.begin(); }
  std::vector<std::exception_ptr>::const_iterator end() const { return l_.end(); }
};
struct error_code {
  error v = success;
  explicit operator bool() const { return v != success; }
  void clear() { v = success; }
};
static error_code throws;

enum class launch_kind { async, fork, sync, deferred, apply };
struct launch {
  launch_kind k;
  constexpr launch(launch_kind k_ = launch_kind::async) : k(k_) {}
  static const launch async, fork, sync, deferred, apply, all;
};
__attribute__((weak)) const launch launch::async{launch_kind::async};
__attribute__((weak)) const launch launch::fork{launch_kind::fork};
__attribute__((weak)) const launch launch::sync{launch_kind::sync};
__attribute__((weak)) const launch launch::deferred{launch_kind::deferred};
__attribute__((weak)) const launch launch::apply{launch_kind::apply};
__attribute__((weak)) const launch launch::all{launch_kind::async};

namespace simd {
struct unit {};
template <class T> struct lift { typedef T type; };
template <> struct lift<void> { typedef unit type; };
template <class T> using lift_t = typename lift<T>::type;

inline void fault_point() { sim_unguard u; ::operator delete(::operator new(24)); } // the runtime allocates here

// invoke under unguard, void -> unit
template <class R> struct call_ {
  template <class F, class... A> static R go(F &&f, A &&...a) { sim_unguard u; return std::forward<F>(f)(std::forward<A>(a)...); }
};
template <> struct call_<void> {
  template <class F, class... A> static unit go(F &&f, A &&...a) { sim_unguard u; std::forward<F>(f)(std::forward<A>(a)...); return unit(); }
};

// type-erased runtime callback
struct cb { virtual ~cb() {} virtual void run() = 0; };
template <class F> struct cb_f : cb { F f; explicit cb_f(F &&x) : f(std::move(x)) {} void run() override { f(); } };
template <class F> cb *mkcb(F f) { return new cb_f<F>(std::move(f)); }
inline void tramp(void *p) { sim_guard g; std::unique_ptr<cb> c((cb *)p); c->run(); }
template <class F> void spawn(int loc, const char *name, F f) { sim_spawn(loc, &tramp, mkcb(std::move(f)), name); }

// ---- shared state ------------------------------------------------------------------
struct sbase {
  long refs = 0;
  bool ready = false;
  std::exception_ptr ex;
  sim_sync *s;
  std::vector<cb *> cbs;
  cb *lazy = nullptr; // launch::deferred
  sbase() : s(sim_sync_new()) {}
  virtual ~sbase() { sim_sync_free(s); for (cb *c : cbs) delete c; delete lazy; }
  void fire() {
    ready = true;
    sim_wake_all(s);
    std::vector<cb *> l; l.swap(cbs);
    for (cb *c : l) { c->run(); delete c; }
  }
  void fail(std::exception_ptr e) { ex = e; fire(); }
  void force() { if (lazy && !ready) { std::unique_ptr<cb> c(lazy); lazy = nullptr; c->run(); } }
  void wait() { force(); while (!ready) sim_wait(s); sim_acquire(s); }
  template <class F> void on_ready(F f) { force(); if (ready) f(); else cbs.push_back(mkcb(std::move(f))); }
};
template <class P> auto dropped(P *q, int) -> decltype(q->drop(), void()) { q->drop(); }
template <class P> void dropped(P *, long) {}
template <class P> struct ref { // intrusive, runtime only
  P *p = nullptr;
  ref() {}
  static P *hold(P *x) { sim_guard g; if (x) x->refs++; return x; } // counts change atomically
  explicit ref(P *x) : p(hold(x)) {}
  ref(ref const &o) : p(hold(o.p)) {}
  ref(ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  template <class Q, class = typename std::enable_if<std::is_convertible<Q *, P *>::value>::type> ref(ref<Q> const &o) : p(hold(o.p)) {}
  ref &operator=(ref o) noexcept { std::swap(p, o.p); return *this; }
  ~ref() { reset(); }
  void reset() { if (p) { sim_guard g; P *q = p; p = nullptr; dropped(q, 0); if (--q->refs == 0) delete q; } }
  P *operator->() const { return p; }
  P &operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
};
template <class T> struct state : sbase {
  typename std::aligned_storage<sizeof(T), alignof(T)>::type buf;
  bool has = false;
  T &val() { return *reinterpret_cast<T *>(&buf); }
  template <class U> void set(U &&u) { new (&buf) T(std::forward<U>(u)); has = true; fire(); }
  ~state() { if (has) { if (sim_task_id()) sim_acquire(s); val().~T(); } }
};

// run f (user code) and put its result into st
template <class R, class F, class... A> void run_into(ref<state<lift_t<R>>> st, F &&f, A &&...a) {
  try {
    auto &&r = call_<R>::go(std::forward<F>(f), std::forward<A>(a)...);
    st->set(std::move(r));
  } catch (...) { st->fail(std::current_exception()); }
}
} // namespace simd

template <class T> class shared_future;
template <class T> class future;
namespace simd {
template <class T> struct is_future : std::false_type {};
template <class T> struct is_future<future<T>> : std::true_type {};
template <class T> struct is_future<shared_future<T>> : std::true_type {};
template <class F> struct access {
  template <class X> static auto st(X &x) -> decltype((x.st_)) { return x.st_; }
};
struct acc {
  template <class X> static auto st(X &x) -> decltype((x.st_)) { return x.st_; }
  template <class Fu, class S> static Fu make(S s) { Fu f; f.st_ = std::move(s); return f; }
};
template <class R> struct unwrap_future { typedef R type; static const bool nested = false; };
template <class R> struct unwrap_future<future<R>> { typedef R type; static const bool nested = true; };
template <class R> struct unwrap_future<shared_future<R>> { typedef R type; static const bool nested = true; };
[[noreturn]] inline void bad_state() { throw ::hpx::exception(no_state, "this future has no valid shared state"); }

// result of a callable returning R, flattened if it is a future
template <class R, bool N = unwrap_future<R>::nested> struct into {
  typedef typename unwrap_future<R>::type V;
  template <class F, class... A> static void go(ref<state<lift_t<V>>> st, F &&f, A &&...a) { run_into<V>(st, std::forward<F>(f), std::forward<A>(a)...); }
};
template <class R> struct into<R, true> {
  typedef typename unwrap_future<R>::type V;
  template <class F, class... A> static void go(ref<state<lift_t<V>>> st, F &&f, A &&...a) {
    try {
      auto inner = call_<R>::go(std::forward<F>(f), std::forward<A>(a)...);
      auto is = acc::st(inner);
      if (!is) bad_state();
      is->on_ready([st, is]() { sim_acquire(is->s); if (is->ex) st->fail(is->ex); else st->set(lift_t<V>(is->val())); });
    } catch (...) { st->fail(std::current_exception()); }
  }
};

template <class Fu, class T, class F> auto then_impl(ref<state<lift_t<T>>> st, launch pol, F &&f)
    -> future<typename unwrap_future<typename std::result_of<typename std::decay<F>::type(Fu)>::type>::type>;

template <class D, class T> class fbase {
protected:
  ref<state<lift_t<T>>> st_;
  friend struct acc;
  ref<state<lift_t<T>>> &need() { if (!st_) bad_state(); return st_; }
public:
  bool valid() const { return (bool)st_; }
  bool is_ready() const { sim_guard g; if (!st_) return false; if (st_->ready) sim_acquire(st_->s); else { sim_yield(); } return st_->ready; }
  bool has_value() const { sim_guard g; return st_ && st_->ready && !st_->ex; }
  bool has_exception() const { sim_guard g; return st_ && st_->ready && st_->ex; }
  std::exception_ptr get_exception_ptr() const { sim_guard g; auto s = st_; s->wait(); return s->ex; }
  void wait() const { sim_guard g; if (!st_) bad_state(); auto s = st_; s->wait(); }
  template <class Dur> std::future_status wait_for(Dur const &) const { wait(); return std::future_status::ready; }
};
} // namespace simd

template <class T> class future : public simd::fbase<future<T>, T> {
  typedef simd::fbase<future<T>, T> B;
  friend struct simd::acc;
  template <class> friend class shared_future;
public:
  typedef T result_type;
  future() {}
  future(future &&o) noexcept { this->st_ = std::move(o.st_); }
  future(future const &) = delete;
  future &operator=(future &&o) noexcept { this->st_ = std::move(o.st_); return *this; }
  future(future<future<T>> &&o); // flattening
  template <class U, class = typename std::enable_if<std::is_void<T>::value && !std::is_void<U>::value>::type>
  explicit future(future<U> &&o);
  T get() {
    sim_guard g;
    auto s = std::move(this->need());
    this->st_ = simd::ref<simd::state<simd::lift_t<T>>>();
    s->wait();
    if (s->ex) std::rethrow_exception(s->ex);
    return take(s, std::is_void<T>());
  }
  shared_future<T> share() { return shared_future<T>(std::move(*this)); }
  template <class F> auto then(F &&f) -> decltype(simd::then_impl<future<T>, T>(this->st_, launch(), std::forward<F>(f))) {
    auto s = std::move(this->need()); this->st_ = simd::ref<simd::state<simd::lift_t<T>>>();
    return simd::then_impl<future<T>, T>(s, launch(), std::forward<F>(f));
  }
  template <class F> auto then(launch l, F &&f) -> decltype(simd::then_impl<future<T>, T>(this->st_, l, std::forward<F>(f))) {
    auto s = std::move(this->need()); this->st_ = simd::ref<simd::state<simd::lift_t<T>>>();
    return simd::then_impl<future<T>, T>(s, l, std::forward<F>(f));
  }
private:
  template <class S> static T take(S &s, std::false_type) { return std::move(s->val()); }
  template <class S> static void take(S &, std::true_type) {}
};

template <class T> class shared_future : public simd::fbase<shared_future<T>, T> {
  friend struct simd::acc;
  template <class S> static typename std::add_lvalue_reference<const T>::type take(S &s, std::false_type) { return s->val(); }
  template <class S> static void take(S &, std::true_type) {}
public:
  typedef T result_type;
  shared_future() {}
  shared_future(shared_future const &o) { sim_guard g; this->st_ = o.st_; }
  shared_future(shared_future &&o) noexcept { this->st_ = std::move(o.st_); }
  shared_future(future<T> &&o) { this->st_ = std::move(o.st_); }
  shared_future &operator=(shared_future const &o) { sim_guard g; this->st_ = o.st_; return *this; }
  shared_future &operator=(shared_future &&o) noexcept { this->st_ = std::move(o.st_); return *this; }
  typename std::add_lvalue_reference<const T>::type get() const {
    sim_guard g;
    if (!this->st_) simd::bad_state();
    auto s = this->st_;
    s->wait();
    if (s->ex) std::rethrow_exception(s->ex);
    return take(s, std::is_void<T>());
  }
  template <class F> auto then(F &&f) const -> decltype(simd::then_impl<shared_future<T>, T>(this->st_, launch(), std::forward<F>(f))) {
    return simd::then_impl<shared_future<T>, T>(this->st_, launch(), std::forward<F>(f));
  }
  template <class F> auto then(launch l, F &&f) const -> decltype(simd::then_impl<shared_future<T>, T>(this->st_, l, std::forward<F>(f))) {
    return simd::then_impl<shared_future<T>, T>(this->st_, l, std::forward<F>(f));
  }
};

namespace simd {
template <class Fu, class T, class F> auto then_impl(ref<state<lift_t<T>>> st, launch pol, F &&f)
    -> future<typename unwrap_future<typename std::result_of<typename std::decay<F>::type(Fu)>::type>::type> {
  typedef typename std::decay<F>::type FD;
  typedef typename std::result_of<FD(Fu)>::type R;
  typedef typename unwrap_future<R>::type V;
  FD fd(std::forward<F>(f)); // user's copy or move, checked
  sim_guard g;
  if (!st) bad_state();
  // attaching a continuation does not fail: after a failure inside HPX the future would be lost
  ref<state<lift_t<V>>> out(new state<lift_t<V>>());
  struct node { long refs = 0; FD f; sim_sync *s; node(FD &&x) : f(std::move(x)), s(sim_sync_new()) {} ~node() { sim_sync_free(s); } };
  ref<node> n(new node(std::move(fd)));
  sim_release(n->s);
  int loc = sim_locality();
  bool sync = pol.k == launch_kind::sync;
  st->on_ready([st, out, n, loc, sync]() {
    auto body = [st, out, n]() {
      sim_acquire(st->s); sim_acquire(n->s);
      Fu arg = acc::make<Fu>(st);
      auto fn = std::unique_ptr<FD>(new FD(std::move(n->f)));
      into<R>::go(out, *fn, std::move(arg));
    };
    if (sync) body(); else spawn(loc, "continuation", body);
  });
  return acc::make<future<V>>(out);
}
} // namespace simd

template <class T> future<T>::future(future<future<T>> &&o) {
  sim_guard g;
  auto outer = simd::acc::st(o);
  simd::ref<simd::state<simd::lift_t<T>>> out(new simd::state<simd::lift_t<T>>());
  outer->on_ready([outer, out]() {
    sim_acquire(outer->s);
    if (outer->ex) { out->fail(outer->ex); return; }
    auto in = simd::acc::st(outer->val());
    in->on_ready([in, out]() { sim_acquire(in->s); if (in->ex) out->fail(in->ex); else out->set(std::move(in->val())); });
  });
  o = future<future<T>>();
  this->st_ = out;
}
template <class T> template <class U, class> future<T>::future(future<U> &&o) {
  sim_guard g;
  auto in = simd::acc::st(o);
  simd::ref<simd::state<simd::unit>> out(new simd::state<simd::unit>());
  in->on_ready([in, out]() { sim_acquire(in->s); if (in->ex) out->fail(in->ex); else out->set(simd::unit()); });
  o = future<U>();
  this->st_ = out;
}

template <class T> class promise {
  simd::ref<simd::state<simd::lift_t<T>>> s_;
  bool got_ = false;
public:
  promise() { sim_guard g; s_ = simd::ref<simd::state<simd::lift_t<T>>>(new simd::state<simd::lift_t<T>>()); }
  promise(promise &&) = default;
  promise &operator=(promise &&) = default;
  ~promise() { if (s_) { sim_guard g; if (!s_->ready && s_->refs > 1) s_->fail(std::make_exception_ptr(exception(broken_promise, "broken promise"))); } }
  future<T> get_future() { sim_guard g; return simd::acc::make<future<T>>(s_); }
  template <class... U> void set_value(U &&...u) { sim_guard g; s_->set(simd::lift_t<T>(std::forward<U>(u)...)); }
  void set_exception(std::exception_ptr e) { sim_guard g; s_->fail(e); }
};
template <class T> future<typename std::decay<T>::type> make_ready_future(T &&t) {
  typedef typename std::decay<T>::type V;
  V v(std::forward<T>(t));
  sim_guard g;
  simd::ref<simd::state<V>> s(new simd::state<V>());
  s->set(std::move(v));
  return simd::acc::make<future<V>>(s);
}
inline future<void> make_ready_future() {
  sim_guard g;
  simd::ref<simd::state<simd::unit>> s(new simd::state<simd::unit>());
  s->set(simd::unit());
  return simd::acc::make<future<void>>(s);
}
template <class T> future<T> make_exceptional_future(std::exception_ptr e) {
  sim_guard g;
  simd::ref<simd::state<simd::lift_t<T>>> s(new simd::state<simd::lift_t<T>>());
  s->fail(e);
  return simd::acc::make<future<T>>(s);
}
template <class T> shared_future<T> make_shared_future(future<T> &&f) { return f.share(); }

// ---- localities and ids ---------------------------------------------------------------
namespace simd {
struct comp_state { // a component instance (or a locality)
  long refs = 0;
  int loc = 0;
  void *obj = nullptr;
  void (*del)(void *) = nullptr;
  uint64_t gid = 0;
  sim_sync *life = nullptr; // everything done before a reference was dropped happens before the destruction
  void drop() { if (obj) { if (!life) life = sim_sync_new(); sim_release(life); } }
  ~comp_state() {
    if (life && sim_task_id()) { sim_acquire(life); sim_sync_free(life); }
    if (!obj || !sim_locality_alive(loc)) return;
    void *o = obj; auto d = del;
    if (sim_task_id() == 0) return; // end of the run
    spawn(loc, "destroy", [o, d]() { d(o); }); // destroyed at its locality, later
  }
};
struct rt { // run-wide runtime state
  ref<comp_state> locs[16];
  uint64_t next_gid = 100;
  struct name_entry { ref<comp_state> id; sim_sync *s; };
  struct waiter { ref<state<ref<comp_state>>> st; sim_sync *s; int loc; };
  std::map<std::string, name_entry> names;
  std::map<std::string, std::vector<waiter>> waiting;
  bool finalized = false, stopped = false;
  sim_sync *stop = nullptr;
  uint64_t comps_made = 0, comps_dead = 0;
  // scenario's hook: a component action starts (its name, locality, integral arguments)
  std::function<void(const char *, int, std::vector<uint64_t> const &)> observer;
  std::function<void()> timer_hook;  // a timer is constructed
  std::function<void()> init_hook;   // hpx::init is about to return at the root
};
inline rt &R() {
  void **p = sim_root(0);
  if (!*p) {
    sim_guard g;
    rt *r = new rt();
    for (int i = 0; i < 16; i++) { r->locs[i] = ref<comp_state>(new comp_state()); r->locs[i]->loc = i; r->locs[i]->gid = i; }
    r->stop = sim_sync_new();
    *p = r;
  }
  return *(rt *)*p;
}
} // namespace simd

namespace naming {
struct id_type {
  enum management_type { unmanaged, managed };
  simd::ref<simd::comp_state> c_;
  id_type() {}
  explicit id_type(simd::ref<simd::comp_state> c) : c_(std::move(c)) {}
  id_type(id_type const &o) { sim_guard g; c_ = o.c_; }
  id_type(id_type &&o) noexcept : c_(std::move(o.c_)) {}
  id_type &operator=(id_type const &o) { sim_guard g; c_ = o.c_; return *this; }
  id_type &operator=(id_type &&o) noexcept { c_ = std::move(o.c_); return *this; }
  explicit operator bool() const { return (bool)c_; }
  uint64_t raw() const { sim_guard g; return c_ ? c_->gid : ~0ull; }
  friend bool operator==(id_type const &a, id_type const &b) { return a.raw() == b.raw(); }
  friend bool operator!=(id_type const &a, id_type const &b) { return a.raw() != b.raw(); }
  friend bool operator<(id_type const &a, id_type const &b) { return a.raw() < b.raw(); }
  friend std::ostream &operator<<(std::ostream &o, id_type const &i) {
    sim_guard g;
    if (!i.c_) return o << "{invalid}";
    return o << "{0000000" << (i.c_->loc + 1) << "00000000, " << i.c_->gid << "}";
  }
};
inline std::uint32_t get_locality_id_from_id(id_type const &i) { sim_guard g; if (!i.c_) throw exception(bad_parameter, "invalid id"); return i.c_->loc; }
inline id_type get_locality_from_id(id_type const &i) { sim_guard g; return id_type(simd::R().locs[i.c_->loc]); }
inline bool is_locality(id_type const &i) { sim_guard g; return i.c_ && i.c_->gid < 16; }
static const id_type invalid_id;
} // namespace naming
using naming::id_type;
using naming::invalid_id;

inline id_type find_here() { sim_guard g; return id_type(simd::R().locs[sim_locality()]); }
inline id_type find_root_locality() { sim_guard g; return id_type(simd::R().locs[0]); }
inline std::vector<id_type> find_all_localities() {
  int n = sim_num_localities();
  std::vector<id_type> v;
  v.reserve(n);
  for (int i = 0; i < n; i++) { sim_guard g; v.push_back(id_type(simd::R().locs[i])); }
  return v;
}
inline std::vector<id_type> find_remote_localities() {
  std::vector<id_type> v;
  for (int i = 0; i < sim_num_localities(); i++) if (i != sim_locality()) { id_type x; { sim_guard g; x = id_type(simd::R().locs[i]); } v.push_back(x); }
  return v;
}
inline std::vector<id_type> find_localities() { return find_all_localities(); }
inline id_type find_locality() { return find_here(); }
inline std::uint32_t get_locality_id() { return sim_locality(); }
inline std::string get_locality_name() { return "locality#" + std::to_string(sim_locality()); }
inline future<std::uint32_t> get_num_localities() { return make_ready_future(std::uint32_t(sim_num_localities())); }
inline std::uint32_t get_num_localities(launch) { return sim_num_localities(); }
inline std::uint32_t get_initial_num_localities() { return sim_num_localities(); }
inline std::size_t get_os_thread_count() { return sim_num_workers(sim_locality()); }
inline std::size_t get_num_worker_threads() { return sim_num_workers(sim_locality()); }
inline std::size_t get_worker_thread_num() { return sim_worker_index(); }
inline future<id_type> get_colocation_id(id_type const &i) { return make_ready_future(naming::get_locality_from_id(i)); }
inline id_type get_colocation_id(launch, id_type const &i) { return naming::get_locality_from_id(i); }

namespace this_thread {
inline void yield() { sim_guard g; sim_yield(); }
inline void suspend() { sim_guard g; sim_yield(); }
template <class D> void sleep_for(D const &d) { sim_guard g; sim_sleep(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); }
} // namespace this_thread

// ---- remote procedure calls ---------------------------------------------------------------
namespace simd {
// a deep copy that stands for serialisation: made by the sender, then again at the receiver
template <class T> T wire(T const &t) { return T(t); }
inline void corrupt(...) {}
inline void corrupt(std::vector<double> *v) {
  if (v->empty() || !sim_flip_bits()) return;
  size_t i = sim_choose(SIM_K_FAULT, (uint32_t)v->size());
  uint64_t x; memcpy(&x, &(*v)[i], 8);
  x ^= 1ull << (40 + sim_choose(SIM_K_FAULT, 20));
  memcpy(&(*v)[i], &x, 8);
}
inline void corrupt(unit *) {}

inline std::exception_ptr lost(int dst) { return std::make_exception_ptr(exception(network_error, "connection to locality " + std::to_string(dst) + " lost")); }

// body: R(args tuple &) executed at dst as user code
template <class R, class Tuple, class Body> struct request {
  typedef typename unwrap_future<R>::type V;
  int src, dst;
  uint64_t id = 0;
  ref<state<lift_t<V>>> out;
  std::unique_ptr<Tuple> args;
  Body body;
  const char *name;
  std::unique_ptr<lift_t<V>> result;
  std::exception_ptr ex;
  ref<state<lift_t<V>>> inner;
  request(Body b) : body(std::move(b)) {}
  static void deliver(void *p) {
    sim_guard g;
    request *r = (request *)p;
    { std::unique_ptr<Tuple> mine(new Tuple(*r->args)); r->args = std::move(mine); } // unpacked at dst
    r->inner = ref<state<lift_t<V>>>(new state<lift_t<V>>());
    Body b(r->body); Tuple *t = r->args.get(); // the request itself belongs to the sender
    into<R>::go(r->inner, [&b, t]() -> R { return b(*t); });
    r->inner->on_ready([r]() {
      sim_acquire(r->inner->s);
      if (r->inner->ex) r->ex = r->inner->ex; else r->result.reset(new lift_t<V>(std::move(r->inner->val())));
      sim_reply(r->id, &reply, r);
    });
  }
  static void reply(void *p) {
    sim_guard g;
    request *r = (request *)p;
    if (r->ex) r->out->fail(r->ex);
    else { lift_t<V> v(*r->result); corrupt(&v); r->out->set(std::move(v)); } // unpacked at src
    r->out = ref<state<lift_t<V>>>();
  }
  static void failed(void *p) {
    sim_guard g;
    request *r = (request *)p;
    auto o = r->out;
    o->fail(lost(r->dst));
  }
};
template <class R, class Tuple, class Body>
future<typename unwrap_future<R>::type> rpc(int dst, const char *name, Tuple args, Body body) {
  typedef typename unwrap_future<R>::type V;
  sim_guard g;
  fault_point();
  ref<state<lift_t<V>>> out(new state<lift_t<V>>());
  if (dst == sim_locality()) {
    auto t = std::shared_ptr<Tuple>(new Tuple(std::move(args)));
    spawn(dst, name, [out, t, body]() mutable { into<R>::go(out, [&]() -> R { return body(*t); }); });
  } else {
    auto *r = new request<R, Tuple, Body>(std::move(body)); // freed with the run: late replies may still look at it
    r->src = sim_locality(); r->dst = dst; r->out = out; r->name = name;
    { sim_unguard u; r->args.reset(new Tuple(args)); } // serialised by the caller
    r->id = sim_call(dst, &request<R, Tuple, Body>::deliver, &request<R, Tuple, Body>::failed, r, name);
  }
  return acc::make<future<V>>(out);
}

template <class F> struct fn_traits;
template <class R, class... A> struct fn_traits<R (*)(A...)> { typedef R result; typedef std::tuple<typename std::decay<A>::type...> args; typedef void cls; };
template <class R, class C, class... A> struct fn_traits<R (C::*)(A...)> { typedef R result; typedef std::tuple<typename std::decay<A>::type...> args; typedef C cls; };
template <class R, class C, class... A> struct fn_traits<R (C::*)(A...) const> { typedef R result; typedef std::tuple<typename std::decay<A>::type...> args; typedef C cls; };

template <class Fn, size_t... I, class C, class T> auto call_member(Fn f, C *c, T &t, std::index_sequence<I...>) -> decltype((c->*f)(std::move(std::get<I>(t))...)) {
  return (c->*f)(std::move(std::get<I>(t))...);
}
template <class Fn, size_t... I, class T> auto call_plain(Fn f, T &t, std::index_sequence<I...>) -> decltype(f(std::move(std::get<I>(t))...)) {
  return f(std::move(std::get<I>(t))...);
}
template <class T> typename std::enable_if<std::is_integral<T>::value>::type arg_value(std::vector<uint64_t> &v, T const &t) { v.push_back((uint64_t)t); }
template <class T> typename std::enable_if<!std::is_integral<T>::value>::type arg_value(std::vector<uint64_t> &, T const &) {}
template <class T, size_t... I> void observe(const char *what, T const &t, std::index_sequence<I...>) {
  sim_guard g;
  auto &o = R().observer;
  if (!o) return;
  std::vector<uint64_t> v;
  int dummy[] = {0, (arg_value(v, std::get<I>(t)), 0)...}; (void)dummy;
  o(what, sim_locality(), v);
}

template <class Fn, Fn fn, class Derived> struct component_action {
  typedef fn_traits<Fn> tr;
  typedef typename tr::result raw_result;
  typedef typename unwrap_future<raw_result>::type result_type;
  typedef typename tr::args arguments_type;
  typedef typename tr::cls component_type;
  static future<result_type> invoke(id_type const &id, arguments_type args) {
    sim_guard g;
    if (!id.c_ || !id.c_->obj) throw exception(bad_parameter, "action invoked on an invalid id");
    ref<comp_state> keep = id.c_;
    return rpc<raw_result>(keep->loc, Derived::sim_name(), std::move(args), [keep](arguments_type &a) -> raw_result {
      observe(Derived::sim_name(), a, std::make_index_sequence<std::tuple_size<arguments_type>::value>());
      return call_member(fn, (component_type *)keep->obj, a, std::make_index_sequence<std::tuple_size<arguments_type>::value>());
    });
  }
  template <class... A> result_type operator()(id_type const &id, A &&...a) const { return invoke(id, arguments_type(std::forward<A>(a)...)).get(); }
  template <class... A> result_type operator()(launch, id_type const &id, A &&...a) const { return invoke(id, arguments_type(std::forward<A>(a)...)).get(); }
};
template <class Fn, Fn fn, class Derived> struct plain_action {
  typedef fn_traits<Fn> tr;
  typedef typename tr::result raw_result;
  typedef typename unwrap_future<raw_result>::type result_type;
  typedef typename tr::args arguments_type;
  static future<result_type> invoke(id_type const &id, arguments_type args) {
    sim_guard g;
    if (!id.c_) throw exception(bad_parameter, "action invoked on an invalid id");
    return rpc<raw_result>(id.c_->loc, Derived::sim_name(), std::move(args), [](arguments_type &a) -> raw_result {
      return call_plain(fn, a, std::make_index_sequence<std::tuple_size<arguments_type>::value>());
    });
  }
  template <class... A> result_type operator()(id_type const &id, A &&...a) const { return invoke(id, arguments_type(std::forward<A>(a)...)).get(); }
};
template <class A, class = void> struct is_action : std::false_type {};
template <class A> struct is_action<A, typename std::enable_if<(sizeof(typename A::arguments_type) >= 0)>::type> : std::true_type {};
} // namespace simd
namespace actions {
template <class Fn, Fn fn, class D> struct make_action { typedef simd::plain_action<Fn, fn, D> type; };
}

// ---- async, apply, sync ---------------------------------------------------------------------
namespace simd {
template <class A> struct is_launch : std::is_same<typename std::decay<A>::type, launch> {};
template <class F, class... A> auto async_fn(launch l, F &&f, A &&...a)
    -> future<typename unwrap_future<typename std::result_of<typename std::decay<F>::type(typename std::decay<A>::type...)>::type>::type> {
  typedef typename std::decay<F>::type FD;
  typedef typename std::result_of<FD(typename std::decay<A>::type...)>::type Rr;
  typedef typename unwrap_future<Rr>::type V;
  auto b = std::bind(FD(std::forward<F>(f)), std::forward<A>(a)...);
  sim_guard g;
  fault_point();
  ref<state<lift_t<V>>> out(new state<lift_t<V>>());
  auto p = std::make_shared<decltype(b)>(std::move(b));
  auto body = [out, p]() { into<Rr>::go(out, [&]() -> Rr { return (*p)(); }); };
  if (l.k == launch_kind::sync) body();
  else if (l.k == launch_kind::deferred) {
    // executed by whoever waits first; no cycle: the state owns the callback
    state<lift_t<V>> *raw = &*out;
    out->lazy = mkcb([raw, p]() { ref<state<lift_t<V>>> o(raw); into<Rr>::go(o, [&]() -> Rr { return (*p)(); }); });
  } else spawn(sim_locality(), "async", body);
  return acc::make<future<V>>(out);
}
} // namespace simd
template <class Action, class... A> auto async(id_type const &id, A &&...a) -> typename std::enable_if<simd::is_action<Action>::value, future<typename Action::result_type>>::type {
  return Action::invoke(id, typename Action::arguments_type(std::forward<A>(a)...));
}
template <class Action, class... A> auto async(launch l, id_type const &id, A &&...a) -> typename std::enable_if<simd::is_action<Action>::value, future<typename Action::result_type>>::type {
  auto f = Action::invoke(id, typename Action::arguments_type(std::forward<A>(a)...));
  if (l.k == launch_kind::sync) f.wait();
  return f;
}
namespace simd {
template <class F, bool Act> struct async_disp {
  template <class... A> static auto go(launch l, F f, A &&...a) -> decltype(async_fn(l, std::move(f), std::forward<A>(a)...)) { return async_fn(l, std::move(f), std::forward<A>(a)...); }
};
template <class F> struct async_disp<F, true> {
  template <class... A> static future<typename F::result_type> go(launch, F, id_type const &id, A &&...a) { return F::invoke(id, typename F::arguments_type(std::forward<A>(a)...)); }
};
}
template <class F, class... A, class = typename std::enable_if<!simd::is_launch<F>::value && !std::is_same<typename std::decay<F>::type, id_type>::value>::type>
auto async(F &&f, A &&...a) -> decltype(simd::async_disp<typename std::decay<F>::type, simd::is_action<typename std::decay<F>::type>::value>::go(launch(), std::forward<F>(f), std::forward<A>(a)...)) {
  return simd::async_disp<typename std::decay<F>::type, simd::is_action<typename std::decay<F>::type>::value>::go(launch(), std::forward<F>(f), std::forward<A>(a)...);
}
template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, id_type>::value>::type>
auto async(launch l, F &&f, A &&...a) -> decltype(simd::async_disp<typename std::decay<F>::type, simd::is_action<typename std::decay<F>::type>::value>::go(l, std::forward<F>(f), std::forward<A>(a)...)) {
  return simd::async_disp<typename std::decay<F>::type, simd::is_action<typename std::decay<F>::type>::value>::go(l, std::forward<F>(f), std::forward<A>(a)...);
}
template <class Action, class... A> auto apply(id_type const &id, A &&...a) -> typename std::enable_if<simd::is_action<Action>::value, bool>::type {
  Action::invoke(id, typename Action::arguments_type(std::forward<A>(a)...));
  return true;
}
template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, id_type>::value>::type> bool apply(F &&f, A &&...a) {
  async(std::forward<F>(f), std::forward<A>(a)...);
  return true;
}
template <class Action, class... A> auto sync(id_type const &id, A &&...a) -> typename std::enable_if<simd::is_action<Action>::value, typename Action::result_type>::type {
  return Action::invoke(id, typename Action::arguments_type(std::forward<A>(a)...)).get();
}

// ---- waiting for and combining futures ----------------------------------------------------------
namespace simd {
template <class Fu> void wait_one(Fu const &f) { if (f.valid()) f.wait(); }
template <class Fu> typename std::enable_if<is_future<Fu>::value>::type wait_arg(Fu const &f) { wait_one(f); }
template <class Fu> void wait_arg(std::vector<Fu> const &v) { for (auto const &f : v) wait_one(f); }
template <class Fu, size_t N> void wait_arg(std::array<Fu, N> const &v) { for (auto const &f : v) wait_one(f); }
inline void attach(std::vector<std::pair<sbase *, ref<sbase>>> &) {}
// run done once all states are ready
struct counter { long refs = 0; long left = 0; cb *done = nullptr; ~counter() { delete done; } };
template <class D> void after_all(std::vector<ref<sbase>> const &v, D d) {
  ref<counter> c(new counter());
  c->left = 1;
  c->done = mkcb(std::move(d));
  for (auto const &s : v) if (s) { c->left++; sbase *raw = s.p; ref<sbase> keep = s; s->on_ready([c, raw, keep]() { sim_acquire(raw->s); if (--c->left == 0) { c->done->run(); } }); }
  if (--c->left == 0) c->done->run();
}
template <class Fu> typename std::enable_if<is_future<Fu>::value>::type collect(std::vector<ref<sbase>> &v, Fu &f) { v.push_back(ref<sbase>(acc::st(f))); }
template <class Fu> void collect(std::vector<ref<sbase>> &v, std::vector<Fu> &f) { for (auto &x : f) collect(v, x); }
template <class X> typename std::enable_if<!is_future<typename std::decay<X>::type>::value>::type collect(std::vector<ref<sbase>> &, X &) {}
inline void collect_all(std::vector<ref<sbase>> &) {}
template <class A, class... R> void collect_all(std::vector<ref<sbase>> &v, A &a, R &...r) { collect(v, a); collect_all(v, r...); }
template <class T, size_t... I> void collect_tuple(std::vector<ref<sbase>> &v, T &t, std::index_sequence<I...>) { (void)t; collect_all(v, std::get<I>(t)...); }
} // namespace simd
template <class... A> void wait_all(A const &...a) { int d[] = {0, (simd::wait_arg(a), 0)...}; (void)d; }
template <class It> typename std::enable_if<!simd::is_future<It>::value && sizeof(typename std::iterator_traits<It>::value_type) != 0>::type wait_all(It b, It e) { for (; b != e; ++b) simd::wait_one(*b); }
template <class It> It wait_all_n(It b, std::size_t n) { for (; n; --n, ++b) simd::wait_one(*b); return b; }
template <class Fu> void wait_each(std::vector<Fu> &v) { wait_all(v); }
template <class Fu> future<std::vector<Fu>> when_all(std::vector<Fu> &v) { return when_all(std::move(v)); }
template <class Fu> future<std::vector<Fu>> when_all(std::vector<Fu> &&v) {
  sim_guard g;
  auto vals = std::make_shared<std::vector<Fu>>(std::move(v));
  v.clear();
  simd::ref<simd::state<std::vector<Fu>>> out(new simd::state<std::vector<Fu>>());
  std::vector<simd::ref<simd::sbase>> ss; simd::collect(ss, *vals);
  simd::after_all(ss, [out, vals]() { out->set(std::move(*vals)); });
  return simd::acc::make<future<std::vector<Fu>>>(out);
}
template <class It> future<std::vector<typename std::iterator_traits<It>::value_type>> when_all(It b, It e) {
  std::vector<typename std::iterator_traits<It>::value_type> v;
  for (; b != e; ++b) v.push_back(std::move(*b));
  return when_all(std::move(v));
}
template <class F0, class... Fs> auto when_all(F0 &&f0, Fs &&...fs) -> typename std::enable_if<simd::is_future<typename std::decay<F0>::type>::value,
    future<std::tuple<typename std::decay<F0>::type, typename std::decay<Fs>::type...>>>::type {
  typedef std::tuple<typename std::decay<F0>::type, typename std::decay<Fs>::type...> T;
  sim_guard g;
  std::vector<simd::ref<simd::sbase>> ss; simd::collect_all(ss, f0, fs...);
  auto vals = std::make_shared<T>(std::move(f0), std::move(fs)...);
  simd::ref<simd::state<T>> out(new simd::state<T>());
  simd::after_all(ss, [out, vals]() { out->set(std::move(*vals)); });
  return simd::acc::make<future<T>>(out);
}
template <class Fu> struct when_any_result { std::size_t index; std::vector<Fu> futures; };
template <class Fu> future<when_any_result<Fu>> when_any(std::vector<Fu> v) {
  sim_guard g;
  typedef when_any_result<Fu> W;
  simd::ref<simd::state<W>> out(new simd::state<W>());
  auto vals = std::make_shared<std::vector<Fu>>(std::move(v));
  auto done = std::make_shared<bool>(false);
  for (size_t i = 0; i < vals->size() && !*done; i++) {
    auto s = simd::acc::st((*vals)[i]);
    s->on_ready([s, out, vals, done, i]() { sim_acquire(s->s); if (*done) return; *done = true; out->set(W{i, std::move(*vals)}); });
  }
  return simd::acc::make<future<W>>(out);
}
template <class Fu> void wait_any(std::vector<Fu> &v) {
  sim_guard g;
  if (v.empty()) return;
  sim_sync *s = sim_sync_new();
  auto any = std::make_shared<bool>(false);
  for (auto &f : v) { auto st = simd::acc::st(f); st->on_ready([st, s, any]() { *any = true; sim_wake_all(s); }); }
  while (!*any) sim_wait(s); // s stays: later completions still use it
}

namespace util {
namespace sim_unwrap {
template <class T> struct value { static T &&get(T &t) { return std::move(t); } };
template <class F> struct fn {
  F f;
  // every argument becomes a tuple of 0 or 1 values
  template <class A> static typename std::enable_if<!simd::is_future<typename std::decay<A>::type>::value, std::tuple<A &&>>::type one(A &&a, int) { return std::tuple<A &&>(std::forward<A>(a)); }
  template <class T> static std::tuple<T> one(future<T> &&a, int) { return std::tuple<T>(a.get()); }
  template <class T> static std::tuple<T> one(future<T> &a, int) { return std::tuple<T>(a.get()); }
  template <class T> static std::tuple<T> one(shared_future<T> const &a, int) { return std::tuple<T>(a.get()); }
  static std::tuple<> one(future<void> &&a, int) { a.get(); return std::tuple<>(); }
  static std::tuple<> one(future<void> &a, int) { a.get(); return std::tuple<>(); }
  static std::tuple<> one(shared_future<void> const &a, int) { a.get(); return std::tuple<>(); }
  template <class T> static std::tuple<std::vector<T>> vec(std::vector<future<T>> &v) { std::vector<T> r; r.reserve(v.size()); for (auto &x : v) r.push_back(x.get()); return std::tuple<std::vector<T>>(std::move(r)); }
  static std::tuple<> vec(std::vector<future<void>> &v) { for (auto &x : v) x.get(); return std::tuple<>(); }
  template <class T> static auto one(std::vector<future<T>> &&v, int) -> decltype(vec(v)) { return vec(v); }
  template <class T> static auto one(std::vector<future<T>> &v, int) -> decltype(vec(v)) { return vec(v); }
  template <class T> static auto one(future<std::vector<future<T>>> &&v, int) -> decltype(vec(std::declval<std::vector<future<T>> &>())) { auto w = v.get(); return vec(w); }
  template <size_t... I, class T> auto call(T &&t, std::index_sequence<I...>) -> decltype(f(std::get<I>(std::move(t))...)) { return f(std::get<I>(std::move(t))...); }
  template <class... A> auto operator()(A &&...a) -> decltype(this->call(std::tuple_cat(one(std::forward<A>(a), 0)...), std::make_index_sequence<std::tuple_size<decltype(std::tuple_cat(one(std::forward<A>(a), 0)...))>::value>())) {
    auto t = std::tuple_cat(one(std::forward<A>(a), 0)...);
    return call(std::move(t), std::make_index_sequence<std::tuple_size<decltype(t)>::value>());
  }
};
} // namespace sim_unwrap
template <class F> sim_unwrap::fn<typename std::decay<F>::type> unwrapped(F &&f) { return sim_unwrap::fn<typename std::decay<F>::type>{std::forward<F>(f)}; }
template <class F> sim_unwrap::fn<typename std::decay<F>::type> unwrapping(F &&f) { return sim_unwrap::fn<typename std::decay<F>::type>{std::forward<F>(f)}; }
template <class F> sim_unwrap::fn<typename std::decay<F>::type> unwrapped2(F &&f) { return sim_unwrap::fn<typename std::decay<F>::type>{std::forward<F>(f)}; }
template <class T> std::vector<T> unwrap(std::vector<future<T>> &&v) { std::vector<T> r; for (auto &x : v) r.push_back(x.get()); return r; }
inline void unwrap(std::vector<future<void>> &&v) { for (auto &x : v) x.get(); }
template <class T> T unwrap(future<T> &&f) { return f.get(); }
template <class... A> auto bind(A &&...a) -> decltype(std::bind(std::forward<A>(a)...)) { return std::bind(std::forward<A>(a)...); }
template <class S> using function = std::function<S>;
template <class S> using unique_function = std::function<S>;
using std::get; using std::tuple; using std::make_tuple; using std::tie;
} // namespace util
using util::unwrapping;

template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, launch>::value>::type> auto dataflow(F &&f, A &&...a)
    -> future<typename simd::unwrap_future<typename std::result_of<typename std::decay<F>::type(typename std::decay<A>::type...)>::type>::type> {
  typedef typename std::decay<F>::type FD;
  typedef typename std::result_of<FD(typename std::decay<A>::type...)>::type R;
  typedef typename simd::unwrap_future<R>::type V;
  FD fv(std::forward<F>(f)); // user's copies or moves, checked
  std::tuple<typename std::decay<A>::type...> tv(std::forward<A>(a)...);
  sim_guard g; // like attaching a continuation, this does not fail: the futures would be lost
  auto fd = std::make_shared<FD>(std::move(fv));
  auto t = std::make_shared<std::tuple<typename std::decay<A>::type...>>(std::move(tv));
  simd::ref<simd::state<simd::lift_t<V>>> out(new simd::state<simd::lift_t<V>>());
  std::vector<simd::ref<simd::sbase>> ss;
  simd::collect_tuple(ss, *t, std::make_index_sequence<sizeof...(A)>());
  struct nd { long refs = 0; sim_sync *s = sim_sync_new(); ~nd() { sim_sync_free(s); } };
  simd::ref<nd> n(new nd()); sim_release(n->s);
  int loc = sim_locality();
  simd::after_all(ss, [out, fd, t, n, loc, ss]() {
    simd::spawn(loc, "dataflow", [out, fd, t, n, ss]() {
      for (auto &s : ss) if (s) sim_acquire(s->s);
      sim_acquire(n->s);
      simd::into<R>::go(out, [&]() -> R { return simd::call_plain(std::ref(*fd), *t, std::make_index_sequence<sizeof...(A)>()); });
    });
  });
  return simd::acc::make<future<V>>(out);
}

template <class F, class... A> auto dataflow(launch, F &&f, A &&...a) -> decltype(dataflow(std::forward<F>(f), std::forward<A>(a)...)) { return dataflow(std::forward<F>(f), std::forward<A>(a)...); }

template <class F, class Fu> future<void> when_each(F f, std::vector<Fu> &v) { // f sees each future as it becomes ready
  std::vector<future<void>> r;
  for (auto &x : v) r.push_back(x.then(f));
  return when_all(std::move(r)).then([](future<std::vector<future<void>>> q) { for (auto &x : q.get()) x.get(); });
}
template <class F, class Fu> future<void> when_each(F f, std::vector<Fu> &&v) { return when_each(f, v); }
template <class F, class Fu> void wait_each(F f, std::vector<Fu> &v) { when_each(f, v).get(); }
template <class Fu> void wait_some(std::size_t n, std::vector<Fu> &v) { // the first n to become ready
  sim_guard g;
  sim_sync *s = sim_sync_new();
  auto c = std::make_shared<std::size_t>(0);
  for (auto &f : v) { auto st = simd::acc::st(f); st->on_ready([st, s, c]() { ++*c; sim_wake_all(s); }); }
  while (*c < n && *c < v.size()) sim_wait(s);
}
class thread { // joinable task
  future<void> f_;
public:
  thread() {}
  template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, thread>::value>::type> explicit thread(F &&f, A &&...a) : f_(hpx::async(std::forward<F>(f), std::forward<A>(a)...)) {}
  thread(thread &&o) noexcept : f_(std::move(o.f_)) {}
  thread &operator=(thread &&o) noexcept { f_ = std::move(o.f_); return *this; }
  ~thread() { if (joinable()) std::terminate(); }
  bool joinable() const { return f_.valid(); }
  void join() { f_.get(); }
  void detach() { f_ = future<void>(); }
};
namespace lcos { namespace local {
template <class S> class packaged_task;
template <class R, class... A> class packaged_task<R(A...)> {
  std::function<R(A...)> f_; hpx::promise<R> p_;
  template <class T> struct run { template <class P, class F> static void go(P &p, F f) { p.set_value(f()); } };
public:
  packaged_task() {}
  template <class F> explicit packaged_task(F f) : f_(std::move(f)) {}
  packaged_task(packaged_task &&) = default;
  packaged_task &operator=(packaged_task &&) = default;
  future<R> get_future() { return p_.get_future(); }
  void operator()(A... a) { std::exception_ptr e; try { call(std::is_void<R>(), a...); } catch (...) { e = std::current_exception(); } if (e) p_.set_exception(e); }
private:
  void call(std::true_type, A... a) { f_(a...); p_.set_value(); }
  void call(std::false_type, A... a) { p_.set_value(f_(a...)); }
};
}}
namespace lcos {
using hpx::future; using hpx::shared_future; using hpx::wait_all; using hpx::wait_any; using hpx::when_all; using hpx::when_any; using hpx::promise;
}

// ---- names (AGAS) ----------------------------------------------------------------------------------
namespace simd {
struct agas_req {
  int op; // 0 bind 1 resolve (waits) 2 unbind
  std::string name;
  ref<comp_state> id;
  ref<state<ref<comp_state>>> rst;
  ref<state<bool>> bst;
  ref<sbase> hold;     // client state kept alive meanwhile
  std::function<void(bool)> after;
  sim_sync *s;
  int loc;
};
inline void agas_answer(agas_req *r, ref<comp_state> id, sim_sync *es) {
  sim_sync *s = sim_sync_new();
  if (es) sim_sync_merge(s, es);
  sim_sync_merge(s, r->s);
  auto st = r->rst;
  if (sim_locality_alive(r->loc)) spawn(r->loc, "resolved", [st, id, s]() { sim_acquire(s); st->set(id); });
}
inline void agas_handle(void *p) {
  agas_req *r = (agas_req *)p;
  rt &x = R();
  bool ok = false;
  if (r->op == 0) {
    if (!x.names.count(r->name)) {
      ok = true;
      sim_sync *s = sim_sync_new(); sim_sync_merge(s, r->s);
      x.names[r->name] = rt::name_entry{r->id, s};
      auto it = x.waiting.find(r->name);
      if (it != x.waiting.end()) {
        std::vector<rt::waiter> w; w.swap(it->second); x.waiting.erase(it);
        for (auto &y : w) { agas_req q{1, r->name, {}, y.st, {}, {}, {}, y.s, y.loc}; agas_answer(&q, r->id, s); }
      }
    }
  } else if (r->op == 1) {
    auto it = x.names.find(r->name);
    if (it != x.names.end()) { agas_answer(r, it->second.id, it->second.s); }
    else { sim_probe("name resolved before it was bound"); x.waiting[r->name].push_back(rt::waiter{r->rst, r->s, r->loc}); }
    delete r;
    return;
  } else {
    auto it = x.names.find(r->name);
    if (it != x.names.end()) { ok = true; x.names.erase(it); }
  }
  if (r->after) r->after(ok);
  auto st = r->bst; sim_sync *s = r->s; auto hold = r->hold; auto id = r->id;
  if (sim_locality_alive(r->loc)) spawn(r->loc, "name-reply", [st, ok, s, hold, id]() mutable { sim_acquire(s); hold.reset(); id.reset(); st->set(ok); });
  r->hold.reset(); r->id.reset();
  delete r;
}
inline agas_req *agas_make(int op, std::string const &name) {
  agas_req *r = new agas_req();
  r->op = op; r->name = name; r->s = sim_sync_new(); r->loc = sim_locality();
  sim_release(r->s);
  return r;
}
} // namespace simd
namespace agas {
inline future<bool> register_name(std::string const &n, id_type const &id) {
  sim_guard g;
  simd::agas_req *r = simd::agas_make(0, n);
  r->id = id.c_; r->bst = simd::ref<simd::state<bool>>(new simd::state<bool>());
  auto st = r->bst;
  sim_agas(&simd::agas_handle, r);
  return simd::acc::make<future<bool>>(st);
}
inline bool register_name(launch, std::string const &n, id_type const &id) { return register_name(n, id).get(); }
inline future<id_type> unregister_name(std::string const &n) {
  sim_guard g;
  simd::agas_req *r = simd::agas_make(2, n);
  r->bst = simd::ref<simd::state<bool>>(new simd::state<bool>());
  auto f = simd::acc::make<future<bool>>(r->bst);
  sim_agas(&simd::agas_handle, r);
  return f.then([](future<bool> x) { x.get(); return id_type(); });
}
inline future<id_type> resolve_name(std::string const &n) {
  sim_guard g;
  auto it = simd::R().names.find(n);
  return make_ready_future(it == simd::R().names.end() ? id_type() : id_type(it->second.id));
}
} // namespace agas
inline future<bool> register_with_basename(std::string const &b, id_type const &id, std::size_t seq = 0) { return agas::register_name("/" + b + "/" + std::to_string(seq), id); }

// ---- components ------------------------------------------------------------------------------------------
namespace components {
template <class T> struct component_base {
  simd::comp_state *sim_state = nullptr;
  typedef component_base<T> base_type;
  typedef T component_type;
  component_base() {}
  virtual ~component_base() {}
  id_type get_id() const { sim_guard g; return id_type(simd::ref<simd::comp_state>(sim_state)); }
  id_type get_unmanaged_id() const { return get_id(); }
};
template <class T> struct simple_component_base : component_base<T> {};
template <class T> struct managed_component_base : component_base<T> {};
template <class T> struct locking_hook : T { using T::T; };
template <class T> struct migration_support : T { using T::T; };
template <class T> struct component { typedef T type; };
template <class T> struct simple_component { typedef T type; };
template <class T> struct managed_component { typedef T type; };
} // namespace components

namespace simd {
// client state: a future id plus the names it manages
struct cstate : sbase {
  ref<comp_state> id;
  std::vector<std::string> names;
  ref<state<ref<comp_state>>> src; // resolves to the id
  ~cstate() {
    for (auto &n : names) {
      agas_req *r = agas_make(2, n);
      r->bst = ref<state<bool>>(new state<bool>());
      auto st = r->bst;
      sim_agas(&agas_handle, r);
      if (sim_task_id()) { try { st->wait(); } catch (...) {} } // unregistered before the client is gone
    }
  }
};
template <class T, class Tuple> struct creator {
  struct maker { template <class... A> T *operator()(A &&...a) const { return new T(std::forward<A>(a)...); } };
  static T *construct(Tuple &t) { return call_plain(maker(), t, std::make_index_sequence<std::tuple_size<Tuple>::value>()); }
};
template <class T> void destroy_obj(void *p) { sim_unguard u; delete (T *)p; }
template <class T, class Tuple> ref<comp_state> make_component(Tuple &t) {
  T *o = creator<T, Tuple>::construct(t);
  sim_guard g;
  ref<comp_state> c(new comp_state());
  c->loc = sim_locality(); c->obj = o; c->del = &destroy_obj<T>; c->gid = R().next_gid++;
  o->sim_state = c.p;
  return c;
}
template <class T, class... A> future<ref<comp_state>> create_at(int loc, A &&...a) {
  typedef std::tuple<typename std::decay<A>::type...> Tup;
  Tup t(std::forward<A>(a)...); // the caller's copies
  return rpc<ref<comp_state>>(loc, "create component", std::move(t), [](Tup &x) { return make_component<T>(x); });
}
} // namespace simd

namespace components {
template <class Derived, class Stub> class client_base {
public:
  typedef Stub server_component_type;
  simd::ref<simd::cstate> s_;
protected:
  void from(simd::ref<simd::state<simd::ref<simd::comp_state>>> src) {
    sim_guard g;
    s_ = simd::ref<simd::cstate>(new simd::cstate());
    s_->src = src;
  }
public:
  client_base() {}
  client_base(client_base const &o) { sim_guard g; s_ = o.s_; }
  client_base(client_base &&o) noexcept : s_(std::move(o.s_)) {}
  client_base &operator=(client_base const &o) { sim_guard g; s_ = o.s_; return *this; }
  client_base &operator=(client_base &&o) noexcept { s_ = std::move(o.s_); return *this; }
  client_base(id_type const &id) { sim_guard g; set_id(id); }
  client_base(id_type &&id) { sim_guard g; set_id(id); }
  client_base(future<id_type> &&f) {
    sim_guard g;
    simd::ref<simd::state<simd::ref<simd::comp_state>>> st(new simd::state<simd::ref<simd::comp_state>>());
    auto in = simd::acc::st(f);
    in->on_ready([in, st]() { sim_acquire(in->s); if (in->ex) st->fail(in->ex); else st->set(in->val().c_); });
    from(st);
  }
  explicit client_base(simd::ref<simd::state<simd::ref<simd::comp_state>>> st) { from(st); }
  void set_id(id_type const &id) {
    s_ = simd::ref<simd::cstate>(new simd::cstate());
    s_->src = simd::ref<simd::state<simd::ref<simd::comp_state>>>(new simd::state<simd::ref<simd::comp_state>>());
    s_->src->set(id.c_);
  }
  bool valid() const { return (bool)s_; }
  explicit operator bool() const { return valid(); }
  void free() { s_ = simd::ref<simd::cstate>(); }
  void reset() { free(); }
  bool is_ready() const { sim_guard g; return s_ && s_->src->ready; }
  void wait() const { sim_guard g; auto s = s_->src; s->wait(); }
  id_type get_id() const {
    sim_guard g;
    if (!s_) throw exception(no_state, "this client has no valid shared state");
    auto s = s_->src;
    s->wait();
    if (s->ex) std::rethrow_exception(s->ex);
    return id_type(s->val());
  }
  id_type get() const { return get_id(); }
  id_type const get_gid() const { return get_id(); }
  future<bool> register_as(std::string name, bool manage_lifetime = true) {
    sim_guard g;
    if (!s_) throw exception(no_state, "this client has no valid shared state");
    simd::fault_point();
    simd::ref<simd::state<bool>> out(new simd::state<bool>());
    auto cs = s_;
    auto src = s_->src;
    int loc = sim_locality();
    struct nd { long refs = 0; sim_sync *s = sim_sync_new(); ~nd() { sim_sync_free(s); } };
    simd::ref<nd> n(new nd()); sim_release(n->s);
    src->on_ready([out, cs, src, name, manage_lifetime, loc, n]() {
      if (src->ex) { out->fail(src->ex); return; }
      simd::spawn(loc, "register name", [out, cs, src, name, manage_lifetime, n]() {
        sim_acquire(src->s); sim_acquire(n->s);
        simd::agas_req *r = simd::agas_make(0, name);
        r->id = src->val(); r->bst = out; r->hold = simd::ref<simd::sbase>(cs);
        if (manage_lifetime) { simd::cstate *raw = cs.p; r->after = [raw, name](bool ok) { if (ok) raw->names.push_back(name); }; }
        sim_agas(&simd::agas_handle, r);
      });
    });
    return simd::acc::make<future<bool>>(out);
  }
  bool register_as(launch, std::string name, bool manage_lifetime = true) { return register_as(std::move(name), manage_lifetime).get(); }
  void connect_to(std::string const &name) {
    sim_guard g;
    simd::fault_point();
    simd::agas_req *r = simd::agas_make(1, name);
    r->rst = simd::ref<simd::state<simd::ref<simd::comp_state>>>(new simd::state<simd::ref<simd::comp_state>>());
    auto st = r->rst;
    sim_agas(&simd::agas_handle, r);
    from(st);
  }
  friend bool operator==(client_base const &a, client_base const &b) { return a.get_id() == b.get_id(); }
};
template <class T> class client : public client_base<client<T>, T> {
  typedef client_base<client<T>, T> B;
public:
  typedef T component_type;
  client() {}
  client(client const &) = default;
  client(client &&) = default;
  client &operator=(client const &) = default;
  client &operator=(client &&) = default;
  client(id_type const &id) : B(id) {}
  client(id_type &&id) : B(std::move(id)) {}
  client(future<id_type> &&f) : B(std::move(f)) {}
  explicit client(simd::ref<simd::state<simd::ref<simd::comp_state>>> st) : B(std::move(st)) {}
};
} // namespace components

struct default_distribution_policy {
  std::vector<id_type> l_;
  default_distribution_policy operator()(std::vector<id_type> const &l) const { default_distribution_policy p; p.l_ = l; return p; }
  default_distribution_policy operator()(std::vector<id_type> &&l) const { default_distribution_policy p; p.l_ = std::move(l); return p; }
  default_distribution_policy operator()(id_type const &l) const { default_distribution_policy p; p.l_.push_back(l); return p; }
  std::size_t get_num_localities() const { return l_.empty() ? 1 : l_.size(); }
};
static const default_distribution_policy default_layout{};
typedef default_distribution_policy binpacking_distribution_policy;

namespace simd {
template <class T> struct is_client : std::false_type {};
template <class T> struct is_client<components::client<T>> : std::true_type { typedef T comp; };
inline future<id_type> to_id(future<ref<comp_state>> &&f) {
  sim_guard g;
  auto in = acc::st(f);
  ref<state<id_type>> out(new state<id_type>());
  in->on_ready([in, out]() { sim_acquire(in->s); if (in->ex) out->fail(in->ex); else out->set(id_type(in->val())); });
  return acc::make<future<id_type>>(out);
}
template <class T> struct new_impl { // component type
  template <class... A> static future<id_type> go(id_type const &l, A &&...a) { return to_id(create_at<T>(naming::get_locality_id_from_id(l), std::forward<A>(a)...)); }
  template <class... A> static future<id_type> go(default_distribution_policy const &p, A &&...a) { return go(p.l_.empty() ? find_here() : p.l_[0], std::forward<A>(a)...); }
};
template <class T> struct new_impl<components::client<T>> {
  template <class... A> static components::client<T> go(id_type const &l, A &&...a) {
    auto f = create_at<T>(naming::get_locality_id_from_id(l), std::forward<A>(a)...);
    sim_guard g;
    return components::client<T>(acc::st(f));
  }
  template <class... A> static components::client<T> go(default_distribution_policy const &p, A &&...a) { return go(p.l_.empty() ? find_here() : p.l_[0], std::forward<A>(a)...); }
};
template <class T, class... A> std::vector<future<ref<comp_state>>> bulk(default_distribution_policy const &p, std::size_t count, A const &...a) {
  std::vector<id_type> l = p.l_;
  if (l.empty()) l.push_back(find_here());
  std::vector<future<ref<comp_state>>> v;
  std::size_t L = l.size();
  std::size_t per = (count + L - 1) / L, made = 0;
  for (std::size_t i = 0; i < L && made < count; i++) {
    std::size_t n = i + 1 == L ? count - made : std::min(per, count - made);
    for (std::size_t j = 0; j < n; j++) v.push_back(create_at<T>(naming::get_locality_id_from_id(l[i]), A(a)...));
    made += n;
  }
  return v;
}
template <class T> struct new_impl<components::client<T>[]> {
  template <class... A> static future<std::vector<components::client<T>>> go(default_distribution_policy const &p, std::size_t count, A const &...a) {
    auto v = std::make_shared<std::vector<future<ref<comp_state>>>>(bulk<T>(p, count, a...));
    sim_guard g;
    typedef std::vector<components::client<T>> V;
    ref<state<V>> out(new state<V>());
    std::vector<ref<sbase>> ss; collect(ss, *v);
    after_all(ss, [v, out]() {
      V r;
      for (auto &f : *v) { auto st = acc::st(f); if (st->ex) { out->fail(st->ex); return; } r.push_back(components::client<T>(st)); }
      out->set(std::move(r));
    });
    return acc::make<future<V>>(out);
  }
  template <class... A> static future<std::vector<components::client<T>>> go(id_type const &l, std::size_t count, A const &...a) { return go(default_layout(l), count, a...); }
};
template <class T> struct new_impl<T[]> {
  template <class... A> static future<std::vector<id_type>> go(default_distribution_policy const &p, std::size_t count, A const &...a) {
    auto v = std::make_shared<std::vector<future<ref<comp_state>>>>(bulk<T>(p, count, a...));
    sim_guard g;
    typedef std::vector<id_type> V;
    ref<state<V>> out(new state<V>());
    std::vector<ref<sbase>> ss; collect(ss, *v);
    after_all(ss, [v, out]() {
      V r;
      for (auto &f : *v) { auto st = acc::st(f); if (st->ex) { out->fail(st->ex); return; } r.push_back(id_type(st->val())); }
      out->set(std::move(r));
    });
    return acc::make<future<V>>(out);
  }
};
} // namespace simd
template <class T, class... A> auto new_(A &&...a) -> decltype(simd::new_impl<T>::go(std::forward<A>(a)...)) { return simd::new_impl<T>::go(std::forward<A>(a)...); }
template <class T, class... A> auto local_new(A &&...a) -> decltype(simd::new_impl<T>::go(find_here(), std::forward<A>(a)...)) { return simd::new_impl<T>::go(find_here(), std::forward<A>(a)...); }
template <class T> future<std::shared_ptr<T>> get_ptr(id_type const &id) { sim_guard g; auto c = id.c_; return make_ready_future(std::shared_ptr<T>((T *)c->obj, [c](T *) {})); }

// ---- locks -----------------------------------------------------------------------------------------------------
namespace lcos { namespace local {
class mutex {
  bool held_ = false;
  sim_sync *s_;
public:
  mutex(char const * = "") : s_(sim_sync_new()) {}
  mutex(mutex const &) = delete;
  ~mutex() { sim_sync_free(s_); }
  void lock() { sim_guard g; sim_yield(); while (held_) sim_wait(s_); held_ = true; sim_acquire(s_); }
  bool try_lock() { sim_guard g; sim_yield(); if (held_) return false; held_ = true; sim_acquire(s_); return true; }
  void unlock() { sim_guard g; held_ = false; sim_wake_one(s_); sim_yield(); }
};
typedef mutex spinlock;
typedef mutex no_mutex;
class condition_variable {
  sim_sync *s_;
public:
  condition_variable() : s_(sim_sync_new()) {}
  ~condition_variable() { sim_sync_free(s_); }
  template <class L> void wait(L &l) { sim_guard g; l.unlock(); sim_wait(s_); l.lock(); }
  template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
  void notify_one() { sim_guard g; sim_wake_one(s_); }
  void notify_all() { sim_guard g; sim_wake_all(s_); }
};
typedef condition_variable condition_variable_any;
class latch {
  std::ptrdiff_t n_; sim_sync *s_;
public:
  explicit latch(std::ptrdiff_t n) : n_(n), s_(sim_sync_new()) {}
  ~latch() { sim_sync_free(s_); }
  void count_down(std::ptrdiff_t n = 1) { sim_guard g; sim_release(s_); if ((n_ -= n) <= 0) sim_wake_all(s_); }
  void wait() { sim_guard g; while (n_ > 0) sim_wait(s_); sim_acquire(s_); }
  void count_down_and_wait() { count_down(); wait(); }
  bool is_ready() const { return n_ <= 0; }
};
class counting_semaphore {
  std::int64_t n_; sim_sync *s_;
public:
  explicit counting_semaphore(std::int64_t n = 0) : n_(n), s_(sim_sync_new()) {}
  ~counting_semaphore() { sim_sync_free(s_); }
  void wait(std::int64_t c = 1) { sim_guard g; while (n_ < c) sim_wait(s_); n_ -= c; sim_acquire(s_); }
  void signal(std::int64_t c = 1) { sim_guard g; n_ += c; sim_wake_all(s_); }
};
template <class T> using promise = hpx::promise<T>;
class recursive_mutex {
  mutex m_; std::uint64_t owner_ = 0; long depth_ = 0;
public:
  void lock() { std::uint64_t me; { sim_guard g; me = sim_task_id(); if (depth_ && owner_ == me) { depth_++; return; } } m_.lock(); sim_guard g; owner_ = me; depth_ = 1; }
  bool try_lock() { sim_guard g; std::uint64_t me = sim_task_id(); if (depth_ && owner_ == me) { depth_++; return true; } if (!m_.try_lock()) return false; owner_ = me; depth_ = 1; return true; }
  void unlock() { { sim_guard g; if (--depth_) return; } m_.unlock(); }
};
class shared_mutex {
  long readers_ = 0; bool writer_ = false; sim_sync *s_;
public:
  shared_mutex() : s_(sim_sync_new()) {}
  shared_mutex(shared_mutex const &) = delete;
  ~shared_mutex() { sim_sync_free(s_); }
  void lock() { sim_guard g; sim_yield(); while (writer_ || readers_) sim_wait(s_); writer_ = true; sim_acquire(s_); }
  bool try_lock() { sim_guard g; sim_yield(); if (writer_ || readers_) return false; writer_ = true; sim_acquire(s_); return true; }
  void unlock() { sim_guard g; writer_ = false; sim_wake_all(s_); sim_yield(); }
  void lock_shared() { sim_guard g; sim_yield(); while (writer_) sim_wait(s_); readers_++; sim_acquire(s_); }
  bool try_lock_shared() { sim_guard g; sim_yield(); if (writer_) return false; readers_++; sim_acquire(s_); return true; }
  void unlock_shared() { sim_guard g; readers_--; sim_wake_all(s_); sim_yield(); }
};
class barrier {
  std::size_t n_, in_ = 0, turn_ = 0; sim_sync *s_;
public:
  explicit barrier(std::size_t n) : n_(n), s_(sim_sync_new()) {}
  barrier(barrier const &) = delete;
  ~barrier() { sim_sync_free(s_); }
  void wait() { sim_guard g; sim_release(s_); std::size_t t = turn_; if (++in_ == n_) { in_ = 0; turn_++; sim_wake_all(s_); } else while (turn_ == t) sim_wait(s_); sim_acquire(s_); }
};
class event {
  bool set_ = false; sim_sync *s_;
public:
  event() : s_(sim_sync_new()) {}
  event(event const &) = delete;
  ~event() { sim_sync_free(s_); }
  bool occurred() { sim_guard g; if (set_) sim_acquire(s_); else sim_yield(); return set_; }
  void wait() { sim_guard g; while (!set_) sim_wait(s_); sim_acquire(s_); }
  void set() { sim_guard g; sim_release(s_); set_ = true; sim_wake_all(s_); }
  void reset() { sim_guard g; set_ = false; }
};
template <class T> class channel {
  struct st { std::deque<hpx::promise<T>> ready; std::deque<hpx::promise<T>> waiting; bool closed = false; };
  std::shared_ptr<st> s_ = std::make_shared<st>();
public:
  template <class U> void set(U &&v) {
    sim_guard g;
    if (!s_->waiting.empty()) { hpx::promise<T> p = std::move(s_->waiting.front()); s_->waiting.pop_front(); p.set_value(std::forward<U>(v)); return; }
    hpx::promise<T> p; p.set_value(std::forward<U>(v)); s_->ready.push_back(std::move(p));
  }
  future<T> get() {
    sim_guard g;
    if (!s_->ready.empty()) { hpx::promise<T> p = std::move(s_->ready.front()); s_->ready.pop_front(); return p.get_future(); }
    hpx::promise<T> p; future<T> f = p.get_future(); s_->waiting.push_back(std::move(p)); return f;
  }
  void close() { sim_guard g; s_->closed = true; s_->waiting.clear(); }
};
}} // namespace lcos::local
namespace util { using lcos::local::spinlock; }
using lcos::local::mutex;
using lcos::local::spinlock;

// ---- parallel algorithms -----------------------------------------------------------------------------------------
namespace parallel {
struct static_chunk_size { std::size_t n; explicit static_chunk_size(std::size_t n_ = 0) : n(n_) {} };
struct dynamic_chunk_size { std::size_t n; explicit dynamic_chunk_size(std::size_t n_ = 1) : n(n_) {} };
struct auto_chunk_size { std::size_t n = 0; auto_chunk_size() {} };
struct guided_chunk_size { std::size_t n; explicit guided_chunk_size(std::size_t n_ = 1) : n(n_) {} };
struct task_policy_tag {};
static const task_policy_tag task{};
template <bool Par, bool Task = false> struct policy {
  std::size_t chunk = 0;
  template <class C> policy with(C const &c) const { policy p; p.chunk = c.n; return p; }
  template <class E> policy on(E &&) const { return *this; }
  policy<Par, true> operator()(task_policy_tag) const { policy<Par, true> p; p.chunk = chunk; return p; }
};
typedef policy<false> sequential_execution_policy;
typedef policy<true> parallel_execution_policy;
typedef policy<true> parallel_vector_execution_policy;
typedef policy<false> sequenced_policy;
typedef policy<true> parallel_policy;
static const policy<false> seq{};
static const policy<true> par{};
static const policy<true> par_vec{};
static const policy<true> par_unseq{};
namespace execution {
static const policy<false> seq{};
static const policy<true> par{};
static const policy<true> par_unseq{};
using parallel::task; using parallel::static_chunk_size; using parallel::dynamic_chunk_size; using parallel::auto_chunk_size;
typedef policy<false> sequenced_policy; typedef policy<true> parallel_policy;
}
namespace v1 { using parallel::seq; using parallel::par; }

namespace sim_detail {
struct join { long refs = 0; long left = 0; sim_sync *s; std::vector<std::exception_ptr> ex; join() : s(sim_sync_new()) {} ~join() { sim_sync_free(s); } };
// body(iterator-like state, count) applied to chunks of [0,n); every chunk is a task
template <class Cur, class Adv, class Body> void chunks(std::size_t n, std::size_t want, Cur cur, Adv adv, Body const &body) {
  sim_guard g;
  if (n == 0) return;
  std::size_t per;
  int W = sim_num_workers(sim_locality());
  if (want) per = want;
  else switch (sim_choose(SIM_K_CHUNK, 6)) {
    case 0: per = std::max<std::size_t>(1, (n + 4 * W - 1) / (4 * W)); break; // HPX's default
    case 1: per = 1; break;
    case 2: per = std::max<std::size_t>(1, (n + W - 1) / W); break;
    case 3: per = n; break;
    case 4: per = 1 + sim_choose(SIM_K_CHUNK, (uint32_t)std::min<std::size_t>(n, 1u << 20)); break;
    default: per = 0; // irregular
  }
  simd::ref<join> j(new join());
  j->left = 1;
  std::size_t done = 0;
  std::size_t tasks = 0;
  bool failed = false;
  while (done < n) {
    std::size_t c = per ? per : 1 + sim_choose(SIM_K_CHUNK, (uint32_t)std::min<std::size_t>(n - done, 64));
    if (tasks > 600) c = n - done;
    c = std::min(c, n - done);
    tasks++;
    bool last = done + c == n;
    try {
      simd::fault_point();
      std::shared_ptr<Cur> mine; std::shared_ptr<Body> b;
      { sim_unguard u; mine = std::shared_ptr<Cur>(new Cur(cur)); b = std::shared_ptr<Body>(new Body(body)); }
      j->left++;
      auto run = [j, mine, b, c]() mutable {
        try { sim_unguard u; (*b)(*mine, c); } catch (...) { j->ex.push_back(std::current_exception()); }
        { sim_unguard u; mine.reset(); b.reset(); }
        sim_release(j->s);
        if (--j->left == 0) sim_wake_all(j->s);
      };
      if (last && sim_choose(SIM_K_CHUNK, 2)) run(); // the caller executes the last chunk itself
      else simd::spawn(sim_locality(), "chunk", std::move(run));
      if (!last) { sim_unguard u; adv(cur, c); }
    } catch (...) { j->ex.push_back(std::current_exception()); failed = true; }
    if (failed) break;
    done += c;
  }
  if (--j->left > 0) while (j->left > 0) sim_wait(j->s);
  sim_acquire(j->s);
  if (!j->ex.empty()) {
    for (auto &e : j->ex) { try { std::rethrow_exception(e); } catch (std::bad_alloc const &) { throw; } catch (...) {} }
    throw exception_list(j->ex);
  }
}
template <class It, class F> struct each_body {
  F f;
  void operator()(It &it, std::size_t c) { for (; c; --c, ++it) f(*it); }
};
template <class F> struct loop_body {
  F f; long long step;
  template <class I> void operator()(I &i, std::size_t c) { I x = i; for (; c; --c) { f(x); if (c > 1) x += (I)step; } }
};
template <class I, class F> struct iloop_body { F f; void operator()(I &i, std::size_t c) { for (; c; --c) { f(i); if (c > 1) ++i; } } };
template <bool Task> struct ret {
  template <class T> using type = T;
  template <class T, class W> static T go(T r, W w) { w(); return r; }
};
template <> struct ret<true> {
  template <class T> using type = future<T>;
  template <class T, class W> static future<T> go(T r, W w) { return hpx::async([r, w]() mutable { w(); return r; }); }
};
} // namespace sim_detail

template <bool T, class It, class Size, class F> typename sim_detail::ret<T>::template type<It> for_each_n(policy<false, T> const &, It first, Size n, F f) {
  return sim_detail::ret<T>::go(first, [first, n, f]() mutable { for (Size i = 0; i < n; ++i, ++first) f(*first); });
}
template <bool T, class It, class Size, class F> typename sim_detail::ret<T>::template type<It> for_each_n(policy<true, T> const &p, It first, Size n, F f) {
  std::size_t c = p.chunk;
  return sim_detail::ret<T>::go(first, [first, n, f, c]() {
    sim_detail::chunks((std::size_t)n, c, first, [](It &i, std::size_t k) { for (; k; --k) ++i; }, sim_detail::each_body<It, F>{f});
  });
}
template <bool P, bool T, class It, class F> typename sim_detail::ret<T>::template type<It> for_each(policy<P, T> const &p, It first, It last, F f) {
  return for_each_n(p, first, (std::size_t)std::distance(first, last), f);
}
template <class I, class F> typename std::enable_if<std::is_integral<I>::value>::type sim_loop(bool par, std::size_t chunk, I a, std::size_t n, long long step, F f) {
  if (!par) { I x = a; for (std::size_t i = 0; i < n; i++, x += (I)step) f(x); return; }
  sim_detail::chunks(n, chunk, a, [step](I &i, std::size_t k) { i += (I)(step * (long long)k); }, sim_detail::loop_body<F>{f, step});
}
template <class I, class F> typename std::enable_if<!std::is_integral<I>::value>::type sim_loop(bool par, std::size_t chunk, I a, std::size_t n, long long, F f) {
  if (!par) { for (std::size_t i = 0; i < n; i++) { f(a); if (i + 1 < n) ++a; } return; }
  sim_detail::chunks(n, chunk, a, [](I &i, std::size_t k) { for (; k; --k) ++i; }, sim_detail::iloop_body<I, F>{f});
}
template <class T> struct sim_id { typedef T type; };
template <class A, class B, bool> struct sim_common { typedef A type; };
template <class A, class B> struct sim_common<A, B, true> { typedef typename std::common_type<A, B>::type type; };
template <class A, class B> struct loop_type { typedef typename sim_common<A, B, std::is_integral<A>::value && std::is_integral<B>::value>::type type; };
template <class I> typename std::enable_if<std::is_integral<I>::value, std::size_t>::type sim_dist(I a, I b) { return b > a ? (std::size_t)(b - a) : 0; }
template <class I> typename std::enable_if<!std::is_integral<I>::value, std::size_t>::type sim_dist(I a, I b) { return (std::size_t)std::distance(a, b); }
template <bool P, bool T, class A, class B, class F> typename std::enable_if<!T>::type for_loop(policy<P, T> const &p, A a, B b, F f) {
  typedef typename loop_type<A, B>::type I;
  sim_loop<I>(P, p.chunk, (I)a, sim_dist<I>((I)a, (I)b), 1, f);
}
template <bool P, bool T, class A, class B, class F> typename std::enable_if<T, future<void>>::type for_loop(policy<P, T> const &p, A a, B b, F f) {
  typedef typename loop_type<A, B>::type I;
  std::size_t c = p.chunk;
  return hpx::async([a, b, c, f]() { sim_loop<I>(P, c, (I)a, sim_dist<I>((I)a, (I)b), 1, f); });
}
template <class A, class B, class F> auto for_loop(A a, B b, F f) -> typename std::enable_if<std::is_convertible<A, B>::value || std::is_convertible<B, A>::value>::type { for_loop(seq, a, b, f); }
template <bool P, bool T, class A, class F> void for_loop_n(policy<P, T> const &p, A a, std::size_t n, F f) { sim_loop<A>(P, p.chunk, a, n, 1, f); }
template <bool P, bool T, class A, class B, class S, class F> void for_loop_strided(policy<P, T> const &p, A a, B b, S s, F f) {
  typedef typename loop_type<A, B>::type I;
  std::size_t d = sim_dist<I>((I)a, (I)b);
  sim_loop<I>(P, p.chunk, (I)a, (d + (std::size_t)s - 1) / (std::size_t)s, (long long)s, f);
}
template <bool P, bool T, class It, class O, class F> O transform(policy<P, T> const &p, It a, It b, O o, F f) {
  std::size_t n = std::distance(a, b);
  sim_loop<std::size_t>(P, p.chunk, 0, n, 1, [a, o, f](std::size_t i) mutable { It x = a; std::advance(x, i); O y = o; std::advance(y, i); *y = f(*x); });
  std::advance(o, n);
  return o;
}
template <bool P, bool T, class It, class V> void fill(policy<P, T> const &p, It a, It b, V const &v) { for_each(p, a, b, [v](typename std::iterator_traits<It>::reference x) { x = v; }); }
template <bool P, bool T, class It, class F> void generate(policy<P, T> const &p, It a, It b, F f) { for_each(p, a, b, [f](typename std::iterator_traits<It>::reference x) mutable { x = f(); }); }
template <bool P, bool T, class It, class O> O copy(policy<P, T> const &p, It a, It b, O o) { return transform(p, a, b, o, [](typename std::iterator_traits<It>::reference x) { return x; }); }
template <bool P, bool T, class It, class O> O copy_n(policy<P, T> const &p, It a, std::size_t n, O o) { It b = a; std::advance(b, n); return copy(p, a, b, o); }
template <bool P, bool T, class It, class V> void fill_n(policy<P, T> const &p, It a, std::size_t n, V const &v) { It b = a; std::advance(b, n); fill(p, a, b, v); }
template <bool P, bool T, class It, class C> void sort(policy<P, T> const &, It a, It b, C c) { std::sort(a, b, c); }
template <bool P, bool T, class It> void sort(policy<P, T> const &, It a, It b) { std::sort(a, b); }
template <bool P, bool T, class It, class V, class R, class F> V transform_reduce(policy<P, T> const &p, It a, It b, V v, R r, F f) { // conversions run in parallel, the combination does not
  std::vector<V> t(std::distance(a, b));
  sim_loop<std::size_t>(P, p.chunk, 0, t.size(), 1, [a, &t, f](std::size_t i) mutable { It x = a; std::advance(x, i); t[i] = f(*x); });
  for (auto &x : t) v = r(v, x);
  return v;
}
template <bool P, bool T, class It, class It2, class V> V inner_product(policy<P, T> const &, It a, It b, It2 c, V v) { return std::inner_product(a, b, c, v); }
template <bool P, bool T, class It, class It2, class V> V transform_reduce(policy<P, T> const &, It a, It b, It2 c, V v) { return std::inner_product(a, b, c, v); }
namespace sim_detail {
template <class V, class R> struct reduction_arg { V *var; V id; R op; };
// body of a loop with one reduction: every chunk accumulates its own copy, combined in some order
template <class V, class R, class F> struct red_body {
  reduction_arg<V, R> r; F f; mutable V mine; 
  red_body(reduction_arg<V, R> const &r_, F const &f_) : r(r_), f(f_), mine(r_.id) {}
  red_body(red_body const &o) : r(o.r), f(o.f), mine(o.r.id) {}
  template <class I> void operator()(I &i, std::size_t c) { I x = i; for (; c; --c, ++x) f(x, mine); sim_guard g; *r.var = r.op(*r.var, mine); }
};
}
template <class V, class R> sim_detail::reduction_arg<V, R> reduction(V &v, typename sim_id<V>::type id, R op) { return sim_detail::reduction_arg<V, R>{&v, id, op}; }
template <class V> sim_detail::reduction_arg<V, std::plus<V>> reduction_plus(V &v) { return sim_detail::reduction_arg<V, std::plus<V>>{&v, V(), std::plus<V>()}; }
template <bool P, bool T, class A, class B, class V, class R, class F> void for_loop(policy<P, T> const &p, A a, B b, sim_detail::reduction_arg<V, R> r, F f) {
  typedef typename loop_type<A, B>::type I;
  std::size_t n = sim_dist<I>((I)a, (I)b);
  if (!P) { for (I i = (I)a; n; --n, ++i) f(i, *r.var); return; }
  sim_detail::chunks(n, p.chunk, (I)a, [](I &i, std::size_t k) { i += (I)k; }, sim_detail::red_body<V, R, F>(r, f));
}
class task_block {
  std::vector<hpx::future<void>> &v_;
public:
  explicit task_block(std::vector<hpx::future<void>> &v) : v_(v) {}
  template <class F, class... A> void run(F &&f, A &&...a) { v_.push_back(hpx::async(std::forward<F>(f), std::forward<A>(a)...)); }
  void wait() { hpx::wait_all(v_); for (auto &f : v_) f.get(); v_.clear(); }
};
template <class F> void define_task_block(F &&f) {
  std::vector<hpx::future<void>> v;
  task_block b(v);
  std::exception_ptr e;
  try { f(b); } catch (...) { e = std::current_exception(); }
  hpx::wait_all(v);
  if (e) std::rethrow_exception(e);
  for (auto &x : v) x.get();
}
template <class P, class F> void define_task_block(P const &, F &&f) { define_task_block(std::forward<F>(f)); }
template <bool P, bool T, class It, class V> V reduce(policy<P, T> const &, It a, It b, V v) { return std::accumulate(a, b, v); }
template <bool P, bool T, class It, class V, class F> V reduce(policy<P, T> const &, It a, It b, V v, F f) { return std::accumulate(a, b, v, f); }
} // namespace parallel
namespace execution = parallel::execution;
using parallel::for_each; using parallel::for_each_n; using parallel::for_loop;

// ---- utilities -----------------------------------------------------------------------------------------------------
namespace util {
template <class D, class V, class C, class Ref = V &, class Diff = std::ptrdiff_t> using iterator_facade = boost::iterator_facade<D, V, C, Ref, Diff>;
using boost::iterator_core_access;
class high_resolution_timer {
  std::uint64_t t0_;
  static void hook() { sim_guard g; auto &h = simd::R().timer_hook; if (h) h(); }
public:
  high_resolution_timer() : t0_(sim_clock()) { hook(); }
  explicit high_resolution_timer(double t) : t0_((std::uint64_t)(t * 1e9)) {}
  void restart() { t0_ = sim_clock(); }
  double elapsed() const { return (double)(std::int64_t)(sim_clock() - t0_) * 1e-9; }
  std::int64_t elapsed_nanoseconds() const { return (std::int64_t)(sim_clock() - t0_); }
  std::int64_t elapsed_microseconds() const { return elapsed_nanoseconds() / 1000; }
  static double now() { return sim_clock() * 1e-9; }
  double elapsed_max() const { return 1e9; }
  double elapsed_min() const { return 1e-9; }
};
struct high_resolution_clock { static std::uint64_t now() { return sim_clock(); } };
} // namespace util

// ---- output ----------------------------------------------------------------------------------------------------------
struct sim_ostream {
  template <class T> sim_ostream &operator<<(T const &t) { sim_guard g; std::ostringstream o; o << t; std::cout << o.str(); return *this; }
  sim_ostream &operator<<(std::ostream &(*)(std::ostream &)) { sim_guard g; std::cout << '\n'; return *this; }
  sim_ostream &operator<<(std::ios_base &(*)(std::ios_base &)) { return *this; }
  struct flush_t {};
  sim_ostream &operator<<(flush_t) { return *this; }
  sim_ostream &flush() { return *this; }
  template <class A> sim_ostream &operator<<(sim_ostream &(*f)(sim_ostream &)) { return f(*this); }
};
static sim_ostream cout, cerr, consolestream;
static const sim_ostream::flush_t flush{}, async_flush{};
struct endl_t { friend std::ostream &operator<<(std::ostream &o, endl_t) { return o << '\n'; } };
static const endl_t endl{}, async_endl{};

// ---- start-up ---------------------------------------------------------------------------------------------------------
namespace simd {
inline int run_main(boost::program_options::options_description const &desc, int argc, char **argv, int (*fn)(boost::program_options::variables_map &)) {
  sim_guard g;
  rt &r = R();
  if (sim_locality() != 0) { // worker process: serves until the shutdown
    while (!r.stopped) sim_wait(r.stop);
    sim_acquire(r.stop);
    return 0;
  }
  namespace po = boost::program_options;
  auto vm = std::make_shared<po::variables_map>();
  po::options_description all; all.add(desc);
  try { po::store(po::command_line_parser(argc, argv).options(all).allow_unregistered().run(), *vm); po::notify(*vm); }
  catch (po::error const &e) { std::cout << e.what() << '\n'; return -1; }
  auto f = async_fn(launch(), [vm, fn]() { return fn(*vm); });
  int ret = -1;
  std::exception_ptr ex;
  try { ret = f.get(); } catch (...) { ex = std::current_exception(); }
  r.stopped = true;
  sim_wake_all(r.stop);
  if (ex) std::rethrow_exception(ex);
  if (r.init_hook) r.init_hook();
  return ret;
}
} // namespace simd
inline int finalize(double = -1, double = -1) { sim_guard g; simd::R().finalized = true; return 0; }
inline int finalize(error_code &) { sim_guard g; simd::R().finalized = true; return 0; }
inline int disconnect() { return 0; }
[[noreturn]] inline void terminate() { std::terminate(); }
} // namespace hpx

int hpx_main(boost::program_options::variables_map &vm) __attribute__((weak));
namespace hpx {
inline int init(boost::program_options::options_description const &d, int argc, char **argv) { return simd::run_main(d, argc, argv, &::hpx_main); }
inline int init(int argc, char **argv) { boost::program_options::options_description d; return simd::run_main(d, argc, argv, &::hpx_main); }
inline int init(int (*f)(boost::program_options::variables_map &), boost::program_options::options_description const &d, int argc, char **argv) { return simd::run_main(d, argc, argv, f); }
} // namespace hpx

// ---- macros --------------------------------------------------------------------------------------------------------------
#define HPX_SIM_EMPTY(...) static_assert(true, "")
#define HPX_DEFINE_COMPONENT_ACTION_3(comp, func, name) \
  struct name : ::hpx::simd::component_action<decltype(&comp::func), &comp::func, name> { static const char *sim_name() { return #comp "::" #func; } }
#define HPX_DEFINE_COMPONENT_ACTION_2(comp, func) HPX_DEFINE_COMPONENT_ACTION_3(comp, func, func##_action)
#define HPX_SIM_PICK(a, b, c, N, ...) N
#define HPX_DEFINE_COMPONENT_ACTION(...) HPX_SIM_PICK(__VA_ARGS__, HPX_DEFINE_COMPONENT_ACTION_3, HPX_DEFINE_COMPONENT_ACTION_2, 0)(__VA_ARGS__)
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION(...) HPX_DEFINE_COMPONENT_ACTION(__VA_ARGS__)
#define HPX_DEFINE_COMPONENT_CONST_ACTION(...) HPX_DEFINE_COMPONENT_ACTION(__VA_ARGS__)
#define HPX_DEFINE_PLAIN_ACTION_2(func, name) struct name : ::hpx::simd::plain_action<decltype(&func), &func, name> { static const char *sim_name() { return #func; } }
#define HPX_DEFINE_PLAIN_ACTION(...) HPX_DEFINE_PLAIN_ACTION_2(__VA_ARGS__)
#define HPX_PLAIN_ACTION(...) HPX_DEFINE_PLAIN_ACTION_2(__VA_ARGS__)
#define HPX_PLAIN_DIRECT_ACTION(...) HPX_DEFINE_PLAIN_ACTION_2(__VA_ARGS__)
#define HPX_REGISTER_COMPONENT(...) HPX_SIM_EMPTY()
#define HPX_REGISTER_COMPONENT_MODULE(...) HPX_SIM_EMPTY()
#define HPX_REGISTER_MINIMAL_COMPONENT_FACTORY(...) HPX_SIM_EMPTY()
#define HPX_REGISTER_ACTION(...) HPX_SIM_EMPTY()
#define HPX_REGISTER_ACTION_DECLARATION(...) HPX_SIM_EMPTY()
#define HPX_REGISTER_ACTION_ID(...) HPX_SIM_EMPTY()
#define HPX_REGISTER_PLAIN_ACTION(...) HPX_SIM_EMPTY()
#define HPX_ASSERT(x) assert(x)
#define HPX_THROW_EXCEPTION(e, f, m) throw ::hpx::exception(e, m)
#define HPX_APPLICATION_STRING "matrix_multiply"
#define HPX_EXPORT
#define HPX_COMPONENT_EXPORT
#define HPX_MOVABLE_ONLY(c) c(c const &) = delete; c &operator=(c const &) = delete
#define HPX_NON_COPYABLE(c) c(c const &) = delete; c &operator=(c const &) = delete
#define HPX_FORWARD(T, x) std::forward<T>(x)
