// A reference counter that hands every one of its steps to a scheduler, so that a program of several threads can be
// run under any interleaving of those steps.
#pragma once
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <cstdint>

namespace sched {
  struct Plan { std::vector<int> order; std::vector<std::pair<long, int>> switches; };   // (step, to)
  struct Sched {
    std::mutex mu; std::vector<std::unique_ptr<std::condition_variable>> cv;
    int running = -1; std::vector<char> done; Plan plan; size_t next = 0; long steps = 0;
    void start(size_t n, Plan p) {
      cv.clear(); for (size_t i = 0; i < n; ++i) cv.emplace_back(new std::condition_variable);
      done.assign(n, 0); plan = std::move(p); next = 0; steps = 0; running = -1;
    }
    int pick(int self, int wish) {
      if (wish >= 0 && wish < int(done.size()) && wish != self && !done[size_t(wish)]) return wish;
      for (int t : plan.order) if (t != self && !done[size_t(t)]) return t;
      return self >= 0 && !done[size_t(self)] ? self : -1;
    }
    void enter(int me) { std::unique_lock<std::mutex> l(mu); cv[size_t(me)]->wait(l, [&] { return running == me; }); }
    void go() { std::lock_guard<std::mutex> l(mu); running = plan.order[0]; cv[size_t(running)]->notify_one(); }
    void yield(int me) {
      ++steps;
      if (next < plan.switches.size() && steps >= plan.switches[next].first) {
        int to = pick(me, plan.switches[next].second); ++next;
        if (to == me || to < 0) return;
        std::unique_lock<std::mutex> l(mu);
        running = to; cv[size_t(to)]->notify_one();
        cv[size_t(me)]->wait(l, [&] { return running == me; });
      }
    }
    void leave(int me) {
      std::lock_guard<std::mutex> l(mu);
      done[size_t(me)] = 1; int to = pick(me, -1); running = to;
      if (to >= 0) cv[size_t(to)]->notify_one();
    }
  };
  inline Sched& it() { static Sched s; return s; }
  inline int& me() { static thread_local int m = -1; return m; }
  inline void point() { if (me() >= 0) it().yield(me()); }
  inline std::atomic<long>& live() { static std::atomic<long> l {0}; return l; }
  struct Block { std::atomic<long> use {1}; void (*destroy)(Block*); };
  template <class T, class D> struct Held : Block { T* p; D d; Held(T* pp, D dd) : p(pp), d(std::move(dd)) { destroy = [] (Block* b) { auto* h = static_cast<Held*>(b); h->d(h->p); delete h; }; } };
}

#ifndef SCHED_POINT
#define SCHED_POINT() sched::point()
#endif

template <class T>
struct sched_ptr {
  using element_type = T;
  sched_ptr() noexcept : p(nullptr), b(nullptr) {}
  sched_ptr(std::nullptr_t) noexcept : p(nullptr), b(nullptr) {}
  explicit sched_ptr(T* t) : sched_ptr(t, std::default_delete<T>{}) {}
  template <class D> sched_ptr(T* t, D d) : p(t), b(t ? new sched::Held<T, D>(t, std::move(d)) : nullptr) { if (b) sched::live()++; }
  sched_ptr(sched_ptr const& o) noexcept : p(o.p), b(o.b) { SCHED_POINT(); if (b) b->use.fetch_add(1, std::memory_order_relaxed); SCHED_POINT(); }
  sched_ptr(sched_ptr&& o) noexcept : p(o.p), b(o.b) { o.p = nullptr; o.b = nullptr; }
  sched_ptr& operator=(sched_ptr const& o) { sched_ptr t(o); swap(t); return *this; }
  sched_ptr& operator=(sched_ptr&& o) noexcept { sched_ptr t(std::move(o)); swap(t); return *this; }
  ~sched_ptr() { drop(); }
  void swap(sched_ptr& o) noexcept { std::swap(p, o.p); std::swap(b, o.b); }
  void drop() noexcept {
    if (!b) return;
    SCHED_POINT();
    auto* x = b; b = nullptr; p = nullptr;
    if (x->use.fetch_sub(1, std::memory_order_acq_rel) == 1) { SCHED_POINT(); sched::live()--; x->destroy(x); }
  }
  void reset() noexcept { drop(); }
  T* get() const noexcept { SCHED_POINT(); return p; }
  T& operator*() const noexcept { return *get(); }
  T* operator->() const noexcept { return get(); }
  explicit operator bool() const noexcept { return p != nullptr; }
  long use_count() const noexcept { SCHED_POINT(); long n = b ? b->use.load(std::memory_order_acquire) : 0; SCHED_POINT(); return n; }
  T* p; sched::Block* b;
};
