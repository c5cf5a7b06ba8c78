// Programs of several threads on handles sharing storage.   usage: thr PROGRAM TRACE BUDGET SEED
//   {"o":"reset","slots":n,"its":m,"keep":0/1}  set-up lines  {"o":"thread"} lines of thread 1  {"o":"thread"} ...
// Each thread works on its own copies of the slots the set-up left; with keep, the set-up's handles stay and every
// thread also reads them (slots n+1 ..).  Without THR_FREE, BUDGET interleavings of the reference counter's steps are
// executed; with it, the threads run freely, BUDGET times.  A thread's observations do not depend on the schedule:
// every distinct log is written out as a sequential history.
#define VM_NO_MAIN
#define VM_TLS thread_local
#define VM_RC(p) 0ll            // counts depend on the schedule
#include "sched.hpp"
#include "vm.cc"
#include <map>
#include <random>
#include <set>

struct Program { Str head; size_t slots, its; bool keep; std::vector<Str> setup; std::vector<std::vector<Str>> th; };

static Str head_line(Program const& p, bool both, long live, long leak, int sso) {
  return "{\"op\":{\"o\":\"reset\",\"slots\":" + std::to_string(p.slots * (both && p.keep ? 2 : 1)) + ",\"its\":" + std::to_string(p.its) + "},\"out\":[\"ok\"],\"sso\":" + std::to_string(sso)
       + ",\"sw\":" + std::to_string(int(VM_PACKET)) + ",\"live\":" + std::to_string(live) + ",\"leak\":" + std::to_string(leak) + "}";
}

struct Result { std::vector<std::vector<Str>> logs; long live; long steps; std::vector<Str> setup; };

static Result run(Program const& p, sched::Plan plan, bool fibres) {
  Result r; size_t n = p.th.size(); r.logs.resize(n);
  auto& S = sched::it();
  {
    sl.resize(p.slots); its.resize(p.its); common = nullptr;
    for (auto& l : p.setup) r.setup.push_back(step_line(l));
    for (auto& i : its) { i.it = typename P::iterator(); i.on = false; }
    std::vector<std::vector<P>> start(n);
    if (!p.keep) { for (auto& s : start) s = sl; std::vector<P>(p.slots).swap(sl); }
    std::vector<P> const& shared = sl;
    S.start(n, std::move(plan));
    std::atomic<int> ready {0};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < n; ++t) ts.emplace_back([&, t] {
      if (fibres) { sched::me() = int(t); S.enter(int(t)); }
      else { ++ready; while (ready.load() < int(n)) std::this_thread::yield(); }
      if (p.keep) { sl = shared; } else sl.swap(start[t]);
      its.resize(p.its);
      if (p.keep) common = &shared;
      for (auto& l : p.th[t]) r.logs[t].push_back(step_line(l));
      { std::vector<P> a; a.swap(sl); std::vector<ItReg> b; b.swap(its); }
      sched::me() = -1;
      if (fibres) S.leave(int(t));
    });
    if (fibres) S.go();
    for (auto& t : ts) t.join();
    common = nullptr;
    std::vector<P> a; a.swap(sl); std::vector<ItReg> b; b.swap(its);
  }
  r.live = sched::live().load(); r.steps = S.steps;
  return r;
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]); Str line; std::vector<Program> ps;
  while (std::getline(in, line)) {
    rapidjson::Document d; d.Parse(line.data(), line.size()); Str o = d["o"].GetString();
    if (o == "reset") { ps.emplace_back(); auto& p = ps.back(); p.slots = size_t(d["slots"].GetInt()); p.its = size_t(d["its"].GetInt()); p.keep = d["keep"].GetInt() != 0; }
    else if (o == "thread") ps.back().th.emplace_back();
    else if (ps.back().th.empty()) ps.back().setup.push_back(line);
    else ps.back().th.back().push_back(line);
  }
  Tracer tr(argv[2]); long budget = std::atol(argv[3]); std::mt19937_64 rng(std::strtoull(argv[4], nullptr, 10));
  int sso = sso_limit(); long runs = 0, steps = 0, live = 0, leak = 0;
  for (auto& p : ps) {
    size_t n = p.th.size(); std::vector<std::set<std::vector<Str>>> seen(n); std::vector<Str> setup;
    auto go = [&] (sched::Plan pl, bool fib) {
      size_t before = __sanitizer_get_current_allocated_bytes(); (void) before;
      Result r = run(p, std::move(pl), fib); ++runs; steps += r.steps;
      if (r.live) live = r.live;
      if (setup.empty()) setup = r.setup;
      for (size_t t = 0; t < n; ++t) seen[t].insert(std::move(r.logs[t]));
      return r.steps;
    };
    std::vector<int> order; for (size_t t = 0; t < n; ++t) order.push_back(int(t));
#ifdef THR_FREE
    for (long i = 0; i < budget; ++i) go({order, {}}, false);
#else
    // every order without preemption, every single preemption, then random ones
    long used = 0, total = 0;
    do { total = go({order, {}}, true); ++used; } while (std::next_permutation(order.begin(), order.end()));
    for (size_t t = 0; t < n; ++t) order[t] = int(t);
    total = std::max(1l, total);
    long stride = std::max(1l, total * long(n) / std::max(1l, budget / 2));
    for (int rot = 0; rot < int(n); ++rot) {
      for (long at = 1 + long(rng() % uint64_t(stride)); at <= total; at += stride) { go({order, {{at, int((order[0] + 1 + int(rng() % (n - 1))) % int(n))}}}, true); ++used; }
      std::rotate(order.begin(), order.begin() + 1, order.end());
    }
    for (; used < budget; ++used) {
      std::shuffle(order.begin(), order.end(), rng);
      sched::Plan pl {order, {}}; int k = 2 + int(rng() % 4); std::vector<long> at;
      for (int i = 0; i < k; ++i) at.push_back(1 + long(rng() % uint64_t(total)));
      std::sort(at.begin(), at.end());
      if (rng() % 3 == 0) { long a = at[0]; for (int i = 1; i < k; ++i) at[size_t(i)] = a + i * long(1 + rng() % 4); }    // a burst of switches
      for (long a : at) pl.switches.push_back({a, int(rng() % n)});
      go(std::move(pl), true);
    }
#endif
    bool first = true;
    for (size_t t = 0; t < n; ++t) for (auto& log : seen[t]) {
      tr.line(head_line(p, true, first ? live : 0, leak, sso)); first = false; live = 0;
      // with keep, the thread also sees the set-up's slots: the same history with copies made at its end
      for (size_t i = 0; i < setup.size(); ++i) {
        Str s = setup[i];
        if (p.keep) { auto q = s.find(",\"p\":["); if (q != Str::npos) s = s.substr(0, q) + "}"; }
        tr.line(s);
      }
      if (p.keep) for (size_t i = 0; i < p.slots; ++i) tr.line("{\"op\":{\"o\":\"copy\",\"d\":" + std::to_string(p.slots + i + 1) + ",\"s\":" + std::to_string(i + 1) + ",\"h\":0},\"out\":[\"ok\"]}");
      for (auto& l : log) tr.line(l);
    }
  }
  tr.line("{\"op\":{\"o\":\"end\"},\"out\":[\"ok\"],\"live\":" + std::to_string(live) + ",\"leak\":0,\"runs\":" + std::to_string(runs) + ",\"steps\":" + std::to_string(steps) + "}");
  return 0;
}
