// A controlled scheduler: std::thread, mutex, atomic and barrier of the code under test are replaced (by macros, see the end)
// with versions that give the scheduler the choice of who runs next at every operation.  Exactly one thread runs at a time.
// Executions are enumerated depth-first with a bound on preemptions, or chosen at random.
#pragma once
#include <algorithm>
#include <atomic>
#include <barrier>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <random>
#include <thread>
#include <utility>
#include <vector>

namespace vs {
struct Th { enum St { READY, BLOCKED, DONE } st = READY; std::function<bool()> pred; std::condition_variable cv; bool go = false; };
struct Sched {
  std::mutex m;
  std::vector<std::unique_ptr<Th>> th;
  std::vector<std::pair<int, int>> trail;   // (choice, options)
  std::vector<int> prefix;
  int bound = 2, preempt = 0; bool random = false; std::mt19937 rng;
  std::function<void()> on_deadlock;
  std::atomic<unsigned long> beat{0};
  bool on = false;
};
inline Sched& S() { static Sched s; return s; }
inline thread_local int self = -1;
inline void watchdog() {
  static bool started = false; if (started) return; started = true;
  std::thread([] {
    unsigned long last = 0; int same = 0;
    for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(500));
      auto b = S().beat.load(); if (S().on && b == last) { if (++same > 20) { std::cerr << "sched: uncontrolled blocking\n"; std::_Exit(4); } } else same = 0; last = b; }
  }).detach();
}
// choose who runs next; called with S().m held by the running thread
inline int pick(int cur, bool cur_ok) {
  auto& s = S(); std::vector<int> en;
  if (cur_ok) en.push_back(cur);
  for (int i = 0; i < static_cast<int>(s.th.size()); ++i) {
    if (i == cur && cur_ok) continue;
    auto& t = *s.th[i];
    if (t.st == Th::READY && i != cur) en.push_back(i);
    else if (t.st == Th::BLOCKED && t.pred()) en.push_back(i);
  }
  if (en.empty()) return -1;
  int opts = static_cast<int>(en.size());
  if (cur_ok && !s.random && s.preempt >= s.bound) opts = 1;
  int k = s.trail.size(), c;
  if (s.random) c = static_cast<int>(s.rng() % opts); else c = k < static_cast<int>(s.prefix.size()) ? std::min(s.prefix[k], opts - 1) : 0;
  s.trail.emplace_back(c, opts);
  if (cur_ok && c != 0) ++s.preempt;
  return en[c];
}
inline void hand_over(std::unique_lock<std::mutex>& lk, int next) {
  auto& s = S();
  s.th[next]->st = Th::READY; s.th[next]->pred = nullptr; s.th[next]->go = true; s.th[next]->cv.notify_one();
  (void)lk;
}
inline void wait_go(std::unique_lock<std::mutex>& lk, int me) { auto& s = S(); s.th[me]->cv.wait(lk, [&] { return s.th[me]->go; }); s.th[me]->go = false; }
inline void deadlock() { if (S().on_deadlock) S().on_deadlock(); std::_Exit(0); }
inline void point() {
  if (self < 0 || !S().on) return;
  auto& s = S(); ++s.beat; std::unique_lock lk{s.m};
  int n = pick(self, true);
  if (n == self) return;
  hand_over(lk, n); wait_go(lk, self);
}
inline void block(std::function<bool()> pred) {
  if (self < 0 || !S().on) { while (!pred()) std::this_thread::yield(); return; }
  auto& s = S(); ++s.beat; std::unique_lock lk{s.m};
  s.th[self]->st = Th::BLOCKED; s.th[self]->pred = std::move(pred);
  int n = pick(self, false);
  // pick() skips the running thread, whose predicate may already hold
  if (n < 0) { deadlock(); }
  if (n == self) { s.th[self]->st = Th::READY; s.th[self]->pred = nullptr; return; }
  hand_over(lk, n); wait_go(lk, self);
}
inline void finish(int me) {
  auto& s = S(); ++s.beat; std::unique_lock lk{s.m};
  s.th[me]->st = Th::DONE;
  int n = pick(me, false);
  if (n < 0) { bool all = true; for (auto& t : s.th) all = all && t->st == Th::DONE; if (!all) deadlock(); return; }
  hand_over(lk, n);
}
// run f under control with the given prefix of choices; the trail tells what was chosen
template <class F> void run(F f) {
  auto& s = S(); watchdog();
  s.th.clear(); s.trail.clear(); s.preempt = 0; s.th.push_back(std::make_unique<Th>()); self = 0; s.on = true;
  f();
  block([&] { for (std::size_t i = 1; i < s.th.size(); ++i) if (s.th[i]->st != Th::DONE) return false; return true; });
  s.on = false; self = -1;
}
// next prefix in depth-first order; false when exhausted
inline bool advance() {
  auto& s = S();
  while (!s.trail.empty() && s.trail.back().first + 1 >= s.trail.back().second) s.trail.pop_back();
  if (s.trail.empty()) return false;
  s.prefix.clear(); for (auto& [c, o] : s.trail) s.prefix.push_back(c);
  ++s.prefix.back();
  return true;
}
}  // namespace vs

namespace std {
class vh_mutex {
 public:
  void lock() { vs::point(); if (vs::self >= 0 && vs::S().on) { while (held_) vs::block([this] { return !held_; }); held_ = true; } else m_.lock(); }
  bool try_lock() { vs::point(); if (vs::self >= 0 && vs::S().on) { if (held_) return false; held_ = true; return true; } return m_.try_lock(); }
  void unlock() { if (vs::self >= 0 && vs::S().on) { held_ = false; vs::point(); } else m_.unlock(); }
 private:
  bool held_ = false; mutex m_;
};
template <class T> class vh_atomic {
 public:
  vh_atomic() = default;
  vh_atomic(T v) : v_{v} {}
  vh_atomic(const vh_atomic&) = delete; vh_atomic& operator=(const vh_atomic&) = delete;
  template <class... A> T load(A...) const { vs::point(); return v_.load(); }
  template <class... A> void store(T x, A...) { vs::point(); v_.store(x); }
  template <class... A> T exchange(T x, A...) { vs::point(); return v_.exchange(x); }
  template <class... A> bool compare_exchange_strong(T& e, T d, A...) { vs::point(); return v_.compare_exchange_strong(e, d); }
  template <class... A> bool compare_exchange_weak(T& e, T d, A...) { vs::point(); return v_.compare_exchange_strong(e, d); }
  template <class... A> T fetch_add(T x, A...) { vs::point(); return v_.fetch_add(x); }
  template <class... A> T fetch_sub(T x, A...) { vs::point(); return v_.fetch_sub(x); }
  operator T() const { return load(); }
  T operator=(T x) { store(x); return x; }
  T operator++(int) { return fetch_add(1); }
  T operator++() { return fetch_add(1) + 1; }
  T operator--(int) { return fetch_sub(1); }
  T operator--() { return fetch_sub(1) - 1; }
  T operator+=(T x) { return fetch_add(x) + x; }
 private:
  atomic<T> v_{};
};
class vh_barrier_base {};
template <class C = vh_barrier_base> class vh_barrier {
 public:
  explicit vh_barrier(std::ptrdiff_t n, C = C()) : n_{n}, left_{n} {}
  void arrive_and_wait() {
    vs::point();
    auto g = gen_;
    if (--left_ == 0) { left_ = n_; ++gen_; vs::point(); return; }
    vs::block([this, g] { return gen_ != g; });
  }
  void arrive_and_drop() { vs::point(); --n_; if (--left_ == 0) { left_ = n_; ++gen_; } }
 private:
  std::ptrdiff_t n_, left_; unsigned long gen_ = 0;
};
class vh_thread {
 public:
  using id = std::thread::id;
  vh_thread() = default;
  template <class F, class... A> explicit vh_thread(F&& f, A&&... a) {
    auto& s = vs::S();
    { std::lock_guard lk{s.m}; no_ = static_cast<int>(s.th.size()); s.th.push_back(std::make_unique<vs::Th>()); }
    t_ = std::thread([no = no_, fn = std::bind(std::forward<F>(f), std::forward<A>(a)...)]() mutable {
      vs::self = no; { std::unique_lock lk{vs::S().m}; vs::wait_go(lk, no); }
      fn();
      vs::finish(no);
    });
    vs::point();
  }
  vh_thread(vh_thread&& o) noexcept : t_{std::move(o.t_)}, no_{o.no_} {}
  vh_thread& operator=(vh_thread&& o) noexcept { t_ = std::move(o.t_); no_ = o.no_; return *this; }
  bool joinable() const { return t_.joinable(); }
  void join() { int n = no_; vs::block([n] { return vs::S().th[n]->st == vs::Th::DONE; }); t_.join(); }
  void detach() { t_.detach(); }
  id get_id() const { return t_.get_id(); }
  static unsigned hardware_concurrency() { return std::thread::hardware_concurrency(); }
 private:
  std::thread t_; int no_ = -1;
};
class vh_jthread : public vh_thread { public: using vh_thread::vh_thread; vh_jthread(vh_jthread&&) = default; vh_jthread& operator=(vh_jthread&&) = default; ~vh_jthread() { if (joinable()) join(); } };
}  // namespace std
