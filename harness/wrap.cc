// Typed wrappers (object, array, string, number, flag, null).
//   usage: wrap MODE CASES TRACE     -DWR=0 heap, 1 packet, 2 buffer, 3 heap with an unsafe counter, 4 its packet
//   MODE: machine (programs over registers), offer (every value to every wrapper), ask (queries through wrappers)
#define COMMON_IMPL
#include "query.hpp"
#include <map>
#include <set>
#include <list>
#include <deque>
#include <unordered_map>

#if WR == 0
using P = dart::heap; using B = dart::buffer;
#elif WR == 1
using P = dart::packet; using B = dart::buffer;
#elif WR == 2
using P = dart::heap; using B = dart::buffer;
#elif WR == 3
using P = dart::unsafe_heap; using B = dart::unsafe_buffer;
#else
using P = dart::unsafe_packet; using B = dart::unsafe_buffer;
#endif
template <class X> struct heap_of { using type = dart::basic_heap<std::shared_ptr>; };
#if WR >= 3
using H = dart::unsafe_heap; using K = dart::unsafe_packet;
#else
using H = dart::heap; using K = dart::packet;
#endif

template <class X> using obj_t = dart::basic_object<X>;
template <class X> using arr_t = dart::basic_array<X>;
template <class X> using str_t = dart::basic_string<X>;
template <class X> using num_t = dart::basic_number<X>;
template <class X> using flg_t = dart::basic_flag<X>;
template <class X> using nul_t = dart::basic_null<X>;

// ------------------------------------------------------------------ queries through a wrapper
static char const SKIP[] = "[\"skip\"]", OK1[] = "[\"ok\"]";
template <class W> Str wtype(W const& x) {
  using T = std::decay_t<decltype(x.get_type())>;
  switch (x.get_type()) {
    case T::object: return "[\"ok\",\"object\"]"; case T::array: return "[\"ok\",\"array\"]";
    case T::string: return "[\"ok\",\"string\"]"; case T::integer: return "[\"ok\",\"integer\"]";
    case T::decimal: return "[\"ok\",\"decimal\"]"; case T::boolean: return "[\"ok\",\"boolean\"]";
    case T::null: return "[\"ok\",\"null\"]";
  }
  return "[\"ok\",\"?\"]";
}
template <class W> Str common_q(W const& x, Str const& op) {
  if (op == "val") return okv(x.dynamic());
  if (op == "type") return wtype(x);
  if (op == "fin") return okb(x.is_finalized());
  if (op == "is") {
    Str o = "[\"ok\",["; bool bs[] = {x.is_object(), x.is_array(), x.is_aggregate(), x.is_str(), x.is_integer(),
      x.is_decimal(), x.is_numeric(), x.is_boolean(), x.is_null(), x.is_primitive()};
    for (int i = 0; i < 10; ++i) { if (i) o += ','; o += bs[i] ? '1' : '0'; }
    return o + "]]";
  }
  return SKIP;
}
template <class W, class A, class D> auto try_or(W const& w, A const& k, D const& d, int) -> decltype(w.get_or(k, d), Str()) { return okv(w.get_or(k, d)); }
template <class W, class A, class D> Str try_or(W const&, A const&, D const&, long) { return SKIP; }
template <class W, class D> auto try_front(W const& w, D const& d, int) -> decltype(w.front_or(d), Str()) { return okv(w.front_or(d)); }
template <class W, class D> Str try_front(W const&, D const&, long) { return SKIP; }
template <class W, class D> auto try_back(W const& w, D const& d, int) -> decltype(w.back_or(d), Str()) { return okv(w.back_or(d)); }
template <class W, class D> Str try_back(W const&, D const&, long) { return SKIP; }

template <class A, class X>
Str wq(obj_t<X> const& x, JV const& q, int how) {
  Str op = q[0].GetString();
  return guarded([&] () -> Str {
    if (op == "size") return okn((long long) x.size());
    if (op == "empty") return okb(x.empty());
    if (q.Size() > 1 && q[1].IsArray() && q[1].Size() && q[1][0] == "k") {
      if (op == "get") return with_skey<A>(q[1], how, [&] (auto const& k) { return okv(x.get(k)); });
      if (op == "br") return with_skey<A>(q[1], how, [&] (auto const& k) { return okv(x[k]); });
      if (op == "at") return with_skey<A>(q[1], how, [&] (auto const& k) { return okv(x.at(k)); });
      if (op == "or") { auto d = dec<A>(q[2]); return with_skey<A>(q[1], how, [&] (auto const& k) { return try_or(x, k, d, 0); }); }
      if (op == "hask") return with_skey<A>(q[1], how, [&] (auto const& k) { return okb(x.has_key(k)); });
      if (op == "find" || op == "findkey") {
        Str key = dec_rle(q[1][1]); bool kk = op == "findkey"; auto const& d = x.dynamic();
        auto go = [&] (auto const& k) { return kk ? found_at(x, x.find_key(k), true) : found_at(x, x.find(k), false); };
        switch (how % 3) {
          case 1: if (key.find('\0') == Str::npos) return go(key.c_str()); return go(sv(key));
          case 2: return go(typename A::string(A::make_string(key)));
          default: return go(sv(key));
        }
      }
    }
    if (op == "nest") { Str path = dec_rle(q[1]); char sep = char(q[2].GetInt()); return okv(sep == '.' && how % 2 ? x.get_nested(path) : x.get_nested(path, sep)); }
    if (op == "keys") { Str o; enc_vec(o, x.keys()); return okx(o); }
    if (op == "vals") { Str o; enc_vec(o, x.values()); return okx(o); }
    if (op == "fwd") { Str o; if (how % 2) enc_range(o, x.cbegin(), x.cend()); else enc_range(o, x.begin(), x.end()); return okx(o); }
    if (op == "rev") { Str o; enc_range(o, x.rbegin(), x.rend()); return okx(o); }
    if (op == "kfwd") { Str o; enc_range(o, x.key_begin(), x.key_end()); return okx(o); }
    if (op == "krev") { Str o; enc_range(o, x.rkey_begin(), x.rkey_end()); return okx(o); }
    if (op == "kv" || op == "rkv") {
      Str o = "["; bool first = true;
      auto run = [&] (auto b, auto e) {
        auto k = std::get<0>(b); auto v = std::get<1>(b);
        for (; v != std::get<1>(e) && k != std::get<0>(e); ++k, ++v) {
          if (!first) o += ','; first = false;
          o += '['; enc(o, *k); o += ','; enc(o, *v); o += ']';
        }
        if ((v != std::get<1>(e)) || (k != std::get<0>(e))) o += ",[\"uneven\"]";
      };
      if (op == "kv") run(x.kvbegin(), x.kvend()); else run(x.rkvbegin(), x.rkvend());
      return okx(o + "]");
    }
    return common_q(x, op);
  });
}
template <class A, class F>
Str with_idx(JV const& k, int how, F&& f) {
  auto n = k[1].GetInt64();
  if (how % 2 && n >= 0) { typename A::number w(A::make_integer(n)); return f(w); }
  return f(size_t(n));
}
template <class A, class X>
Str wq(arr_t<X> const& x, JV const& q, int how) {
  Str op = q[0].GetString();
  return guarded([&] () -> Str {
    if (op == "size") return okn((long long) x.size());
    if (op == "empty") return okb(x.empty());
    if (q.Size() > 1 && q[1].IsArray() && q[1].Size() && q[1][0] == "x") {
      if (op == "get") return with_idx<A>(q[1], how, [&] (auto const& k) { return okv(x.get(k)); });
      if (op == "br") return with_idx<A>(q[1], how, [&] (auto const& k) { return okv(x[k]); });
      if (op == "at") return with_idx<A>(q[1], how, [&] (auto const& k) { return okv(x.at(k)); });
      if (op == "or") { auto d = dec<A>(q[2]); return with_idx<A>(q[1], how, [&] (auto const& k) { return try_or(x, k, d, 0); }); }
    }
    if (op == "front") return okv(x.front());
    if (op == "back") return okv(x.back());
    if (op == "atfront") return okv(x.at_front());
    if (op == "atback") return okv(x.at_back());
    if (op == "frontor") return try_front(x, dec<A>(q[1]), 0);
    if (op == "backor") return try_back(x, dec<A>(q[1]), 0);
    if (op == "vals") { Str o; enc_vec(o, x.values()); return okx(o); }
    if (op == "fwd") { Str o; if (how % 2) enc_range(o, x.cbegin(), x.cend()); else enc_range(o, x.begin(), x.end()); return okx(o); }
    if (op == "rev") { Str o; enc_range(o, x.rbegin(), x.rend()); return okx(o); }
    return common_q(x, op);
  });
}
template <class A, class X>
Str wq(str_t<X> const& x, JV const& q, int how) {
  Str op = q[0].GetString();
  return guarded([&] () -> Str {
    if (op == "size") return okn((long long) x.size());
    if (op == "empty") return okb(x.empty());
    if (op == "str") {
      auto v = x.strv(); auto* s = x.str();
      if (s[v.size()] != '\0' || std::memcmp(s, v.data(), v.size())) return "[\"err\",\"str/strv differ\"]";
      switch (how % 5) {
        case 0: return okr(v);
        case 1: return okr(sv(s, v.size()));
        case 2: return okr(*x);
        case 3: { Str c; for (size_t i = 0; i < v.size(); ++i) c += x[i]; for (size_t j = 0; j < 12; ++j) if (x[v.size() + j] != '\0') return "[\"err\",\"past the end\"]"; return okr(c); }
        default: { sv w(x); Str t(w); Str u = static_cast<Str>(x); if (t != u) return "[\"err\",\"views differ\"]"; return okr(u); }
      }
    }
    return common_q(x, op);
  });
}
template <class A, class X>
Str wq(num_t<X> const& x, JV const& q, int how) {
  Str op = q[0].GetString();
  return guarded([&] () -> Str {
    if (op == "int") return okl(uint64_t(x.integer()));
    if (op == "dec") return okl(dbits(x.decimal()));
    if (op == "num") return okl(dbits(how % 2 ? x.numeric() : *x));
    return common_q(x, op);
  });
}
template <class A, class X>
Str wq(flg_t<X> const& x, JV const& q, int how) {
  Str op = q[0].GetString();
  return guarded([&] () -> Str {
    if (op == "flag") return okb(how % 3 == 0 ? x.boolean() : how % 3 == 1 ? *x : bool(x));
    return common_q(x, op);
  });
}
template <class A, class X>
Str wq(nul_t<X> const& x, JV const& q, int) { return common_q(x, q[0].GetString()); }

// ------------------------------------------------------------------ mode ask
static JV const* g_qs; static int g_case; static Str g_bad;
struct Collector {
  std::map<Str, std::vector<Str>> by; std::vector<Str> order; int rep = 0;
  void add(Str const& name, Str const& out) {
    auto it = by.find(out);
    if (it == by.end()) { order.push_back(out); by[out] = {name}; } else it->second.push_back(name);
  }
};
template <class A, class W>
void ask(Collector& c, Str const& name, W const& w) {
  Str o = "["; int i = 0; ++c.rep;
  for (auto& q : g_qs->GetArray()) { if (i) o += ','; o += wq<A>(w, q, g_case + c.rep * 5 + i++); }
  c.add(name, o + "]");
}
template <class F>
void rep(Collector& c, Str const& name, F&& f) {
  Str r = guarded([&] () -> Str { f(); return "ok"; });
  if (r != "ok") { if (g_bad.size() > 1) g_bad += ','; g_bad += "[\"" + name + "\"," + r + "]"; }
}
// The value x in the wrapper of its type, made in several ways.
template <template <class> class W, class A, class X>
void ask_as(Collector& c, Str const& n, X const& x) {
  W<X> w(x); ask<A>(c, n, w);
  W<X> m(X(std::move(w))); ask<A>(c, n + " rewrapped", m);
  W<X> d(m); m = W<X>(x); ask<A>(c, n + " copied", d);
  typename W<X>::view v = d; ask<A>(c, n + " view", v);
  ask<A>(c, n + " view owner", v.as_owner());
  W<typename X::view> t(typename X::view {x}); ask<A>(c, n + " of view", t);
}
template <class A, class X>
void ask_all(Collector& c, Str const& n, X const& x) {
  rep(c, n, [&] {
    if (x.is_object()) ask_as<obj_t, A>(c, n, x);
    else if (x.is_array()) ask_as<arr_t, A>(c, n, x);
    else if (x.is_str()) ask_as<str_t, A>(c, n, x);
    else if (x.is_numeric()) ask_as<num_t, A>(c, n, x);
    else if (x.is_boolean()) ask_as<flg_t, A>(c, n, x);
    else ask_as<nul_t, A>(c, n, x);
  });
}

// Every representation of a value.
template <class F>
void each_rep(JV const& v, F&& f) {
  H h = dec<H>(v);
  B b = H::make_object("pad", "x", "kk", h).finalize()["kk"];
#if WR == 0 || WR == 3
  f("heap", h); { H::view w = h; f("heap view", w); } f("heap of buffer", H(b));
#elif WR == 2
  f("buffer", b); { B::view w = b; f("buffer view", w); }
  if (h.is_object()) f("buffer root", h.finalize());
#else
  f("packet", K(h)); f("packet of buffer", K(b)); { K k(b); K::view w = k; f("packet view", w); } { K k(h); K::view w = k; f("packet heap view", w); }
#endif
}
#if WR == 2
using A_ = H;
#else
using A_ = P;
#endif

// ------------------------------------------------------------------ mode offer
static Str g_offers; static std::vector<Str> g_seen;
static void offer(Str const& name, char const* kind, int mv, Str const& out, Str const& after) {
  Str k = Str("\"") + kind + "\"," + (mv ? "1" : "0") + "," + out + "," + after;
  for (auto& s : g_seen) if (s == k) return;
  g_seen.push_back(k);
  if (g_offers.size() > 1) g_offers += ',';
  g_offers += "[\"" + name + "\"," + k + "]";
}
template <class X> Str shown(X const& x) { Str o; enc(o, x); return o; }
template <class W> Str okw(W const& w) { return okv(w.dynamic()); }
template <class W, class X>
void offer1(Str const& n, char const* kind, X const& x) {
  { X s(x); Str o = guarded([&] { W w(s); return okw(w); }); offer(n, kind, 0, o, shown(s)); }
  { X s(x); Str o = guarded([&] { W w(std::move(s)); return okw(w); }); offer(n + " moved", kind, 1, o, shown(s)); }
  { X s(x); Str o = guarded([&] { auto w = s.template as<W>(); return okw(w); }); offer(n + " as", kind, 0, o, shown(s)); }
  { X s(x); Str o = guarded([&] { auto w = std::move(s).template as<W>(); return okw(w); }); offer(n + " as moved", kind, 1, o, shown(s)); }
  { X s(x); Str o = guarded([&] { W w = static_cast<W>(s); return okw(w); }); offer(n + " cast", kind, 0, o, shown(s)); }
}
template <class X>
void offers(Str const& n, X const& x) {
  offer1<obj_t<X>>(n, "object", x); offer1<arr_t<X>>(n, "array", x); offer1<str_t<X>>(n, "string", x);
  offer1<num_t<X>>(n, "number", x); offer1<flg_t<X>>(n, "flag", x); offer1<nul_t<X>>(n, "null", x);
}

// ------------------------------------------------------------------ mode machine
#if WR != 2
struct Machine {
  P p[2]; P::object o[2]; P::array a[2]; P::string s[2]; P::number n[2]; P::flag f[2]; P::null u;
  template <class F> auto at(int i, F&& g) {
    switch (i) {
      case 1: case 2: return g(p[i - 1]);
      default: return at_w(i, g);
    }
  }
  template <class F> auto at_w(int i, F&& g) {
    switch (i) {
      case 3: case 4: return g(o[i - 3]); case 5: case 6: return g(a[i - 5]); case 7: case 8: return g(s[i - 7]);
      case 9: case 10: return g(n[i - 9]); case 11: case 12: return g(f[i - 11]); default: return g(u);
    }
  }
};
template <class X> P const& dyn(X const& x) { return x.dynamic(); }
inline P const& dyn(P const& x) { return x; }
static Str kill(Str const& r) { return r; }

struct Run {
  Machine m; Str nat;
  // Calls f with the argument a source names: a literal, a copy of a register, or a register by move.
  template <class F> auto with_src(JV const& v, F&& f) {
    if (v[0] == "lit") { P x = dec<P>(v[1]); return f(std::move(x)); }
    if (v[0] == "mslot") return m.at(v[1].GetInt(), [&] (auto& r) { return f(std::move(r)); });
    return m.at(v[1].GetInt(), [&] (auto& r) { auto const& c = r; return f(c); });
  }
  long pos(P::object const& x, Str const& key) { long i = 0; for (auto b = x.key_begin(); b != x.key_end(); ++b, ++i) if ((*b).strv() == key) return i; return -1; }
  template <class X, class It> long where(X const& x, It const& it) { long i = 0; for (auto b = x.begin(); b != x.end(); ++b, ++i) if (b == it) return i; return i; }

  Str mutate(P::object& x, JV const& op, int h) {
    Str o = op["o"].GetString();
    if (o == "clear") { x.clear(); return OK1; }
    if (o == "inj") {
      auto& p = op["p"];
      if (p.Size() == 1) { m.o[op["d"].GetInt() - 3] = x.inject(dec_rle(p[0][0][1]), dec<P>(p[0][1][1])); return OK1; }
      m.o[op["d"].GetInt() - 3] = x.inject(dec_rle(p[0][0][1]), dec<P>(p[0][1][1]), dec_rle(p[1][0][1]), dec<P>(p[1][1][1])); return OK1;
    }
    if (o == "proj") {
      std::vector<Str> ks; for (auto& k : op["p"].GetArray()) ks.push_back(dec_rle(k));
      if (h % 2) { std::vector<sv> vs(ks.begin(), ks.end()); m.o[op["d"].GetInt() - 3] = x.project(vs); }
      else m.o[op["d"].GetInt() - 3] = x.project(ks);
      return OK1;
    }
    if (o == "fin") { fin(x, h); return OK1; }
    if (o == "lift") { lift(x, h); return OK1; }
    if (op.HasMember("k") && op["k"][0] == "k") {
      Str key = dec_rle(op["k"][1]);
      if (o == "ins" || o == "set") return with_src(op["v"], [&] (auto&& v) -> Str {
        using V = decltype(v);
        if (o == "set") { auto it = h % 2 ? x.set(key, std::forward<V>(v)) : x.set(typename P::string(P::make_string(key)), std::forward<V>(v)); return okn(where(x, it)); }
        switch (h % 4) {
          case 0: { auto& r = x.add_field(key, std::forward<V>(v)); if (&r != &x) return Str("[\"err\",\"other\"]"); return okn(pos(x, key)); }
          case 1: { auto&& r = std::move(x).add_field(key, std::forward<V>(v)); if (&r != &x) return Str("[\"err\",\"other\"]"); return okn(pos(x, key)); }
          case 2: { auto it = x.insert(P::make_string(key), std::forward<V>(v)); return okn(where(x, it)); }
          default: { auto it = x.insert(key, std::forward<V>(v)); return okn(where(x, it)); }
        }
      });
      if (o == "del") {
        if (h % 4 == 0) { x.remove_field(sv(key)); return OK1; }
        if (h % 4 == 1) { auto&& r = std::move(x).remove_field(key); if (&r != &x) return Str("[\"err\",\"other\"]"); return OK1; }
        auto it = h % 4 == 2 ? x.erase(key) : x.erase(P::make_string(key)); return okn(where(x, it));
      }
    }
    return SKIP;
  }
#if WR == 0 || WR == 3
  void fin(P::object& x, int h) { auto b = h % 2 ? x.finalize() : x.lower(); x = P::object(P(h % 3 ? b.definalize() : b.lift())); }
  void lift(P::object& x, int h) { auto& r = h % 2 ? x.lift() : x.definalize(); if (&r != &x.dynamic()) throw std::bad_alloc(); }
#else
  void fin(P::object& x, int h) { auto& r = h % 2 ? x.finalize() : x.lower(); if (&r != &x.dynamic()) throw std::bad_alloc(); }
  void lift(P::object& x, int h) { auto& r = h % 2 ? x.lift() : x.definalize(); if (&r != &x.dynamic()) throw std::bad_alloc(); }
#endif
  Str mutate(P::array& x, JV const& op, int h) {
    Str o = op["o"].GetString();
    if (o == "clear") { x.clear(); return OK1; }
    if (o == "popf") { if (h % 2) x.pop_front(); else { auto&& r = std::move(x).pop_front(); if (&r != &x) return Str("[\"err\",\"other\"]"); } return OK1; }
    if (o == "popb") { if (h % 2) x.pop_back(); else { auto&& r = std::move(x).pop_back(); if (&r != &x) return Str("[\"err\",\"other\"]"); } return OK1; }
    if (o == "reserve") { x.reserve(op["n"].GetInt()); return OK1; }
    if (o == "resize") { x.resize(op["n"].GetInt(), dec<P>(op["v"][1])); return OK1; }
    if (o == "pushb" || o == "pushf") return with_src(op["v"], [&] (auto&& v) -> Str {
      using V = decltype(v); bool b = o == "pushb";
      if (h % 2) { auto& r = b ? x.push_back(std::forward<V>(v)) : x.push_front(std::forward<V>(v)); if (&r != &x) return Str("[\"err\",\"other\"]"); }
      else { auto&& r = b ? std::move(x).push_back(std::forward<V>(v)) : std::move(x).push_front(std::forward<V>(v)); if (&r != &x) return Str("[\"err\",\"other\"]"); }
      return OK1;
    });
    if (op.HasMember("k") && op["k"][0] == "x") {
      auto i = op["k"][1].GetInt64(); typename P::number ni(P::make_integer(i));
      if (o == "ins" || o == "set") return with_src(op["v"], [&] (auto&& v) -> Str {
        using V = decltype(v);
        if (o == "ins") { auto it = h % 2 || i < 0 ? x.insert(size_t(i), std::forward<V>(v)) : x.insert(ni, std::forward<V>(v)); return okn(where(x, it)); }
        auto it = h % 2 || i < 0 ? x.set(size_t(i), std::forward<V>(v)) : x.set(ni, std::forward<V>(v)); return okn(where(x, it));
      });
      if (o == "del") { auto it = h % 2 || i < 0 ? x.erase(size_t(i)) : x.erase(ni); return okn(where(x, it)); }
    }
    return SKIP;
  }
  template <class X> Str mutate(X&, JV const&, int) { return SKIP; }

  // Assigns or constructs from a native value.
  Str native(P& x, JV const& v, int) { x = dec<P>(v); return OK1; }
  Str native(P::object& x, JV const& v, int h) {
    std::map<Str, P> mp; std::unordered_map<Str, P> um; std::multimap<Str, P> none;
    for (auto& e : v[1].GetArray()) { mp.emplace(dec_rle(e[0]), dec<P>(e[1])); um.emplace(dec_rle(e[0]), dec<P>(e[1])); }
    switch (h % 7) {
      case 0: x = mp; break; case 1: x = std::move(mp); break; case 2: x = um; break; case 3: x = std::move(um); break;
      case 4: x = P::object(mp); break; case 5: { P::object t(std::move(um)); x = t; break; }
      default: {
        auto& e = v[1];
        if (e.Size() == 0) x = P::object(); else if (e.Size() == 1) x = P::object(dec_rle(e[0][0]), dec<P>(e[0][1]));
        else { x = P::object(dec_rle(e[0][0]), dec<P>(e[0][1]), dec_rle(e[1][0]), dec<P>(e[1][1])); for (unsigned i = 2; i < e.Size(); ++i) x.add_field(dec_rle(e[i][0]), dec<P>(e[i][1])); }
      }
    }
    return OK1;
  }
  Str native(P::array& x, JV const& v, int h) {
    std::vector<P> vec; for (auto& e : v[1].GetArray()) vec.push_back(dec<P>(e));
    std::list<P> lst(vec.begin(), vec.end()); std::deque<P> deq(vec.begin(), vec.end()); std::forward_list<P> fl(vec.begin(), vec.end());
    switch (h % 9) {
      case 0: x = vec; break; case 1: x = std::move(vec); break; case 2: x = lst; break; case 3: x = std::move(lst); break; case 4: x = deq; break;
      case 5: x = std::move(deq); break; case 6: x = fl; break; case 7: x = std::move(fl); break;
      default:
        if (vec.empty()) x = P::array(); else if (vec.size() == 2) x = P::array(vec[0], vec[1]); else if (vec.size() == 3) x = P::array(vec[0], std::move(vec[1]), vec[2]); else x = vec;
    }
    return OK1;
  }
  Str native(P::string& x, JV const& v, int h) {
    Str t = dec_rle(v[1]); bool clean = t.find('\0') == Str::npos; size_t cut = t.size() / 3;
    switch (h % 8) {
      case 0: x = t; break; case 1: x = sv(t); break; case 2: if (clean) { x = t.c_str(); break; }
      case 3: x = P::string(t); break; case 4: x = P::string(sv(t)); break; case 5: if (clean) { x = P::string(t.c_str()); break; }
      default: x = P::string(sv(t).substr(0, cut), sv(t).substr(cut)); break;
    }
    return OK1;
  }
  Str native(P::number& x, JV const& v, int h) {
    if (v[0] == "i") {
      int64_t i = int64_t(dec_limbs(v, 1));
      if (h % 3 == 0) x = i; else if (h % 3 == 1) x = P::number(i); else if (i == int(i)) x = int(i); else { P::number t = i; x = std::move(t); }
    } else {
      double d = bitsd(dec_limbs(v, 1));
      if (h % 3 == 0) x = d; else if (h % 3 == 1) x = P::number(d); else if (double(float(d)) == d) x = P::number(float(d)); else { P::number t = d; x = t; }
    }
    return OK1;
  }
  Str native(P::flag& x, JV const& v, int h) { bool b = v[1].GetInt() != 0; if (h % 2) x = b; else x = P::flag(b); return OK1; }
  Str native(P::null& x, JV const&, int h) { if (h % 2) x = nullptr; else x = P::null(nullptr); return OK1; }

  static Str nval(P const& x) { return okv(x); }
  // Arithmetic: the operand is an integer or a decimal.
  template <class T>
  Str arith(P::number& x, Str const& f, T v) {
    // What the machine makes of the same operands as native decimals.
    P const& held = x.dynamic(); double a = held.is_integer() ? double(held.integer()) : held.decimal(), b = double(v);
    if (f.size() == 3) b = 1;
    bool flip = f[1] == 'n';
    char g = f[0] == 'n' || f[0] == '_' ? f[1] : f[0]; if (flip) std::swap(a, b);
    double r = g == '+' ? a + b : g == '-' ? a - b : g == '*' ? a * b : a / b;
    nat = okl(dbits(r)); nat = nat.substr(nat.find(',') + 1); nat.pop_back();
    if (f == "+=") { auto& r = x += v; return &r == &x ? okw(r) : "[\"err\",\"other\"]"; }
    if (f == "-=") { auto& r = x -= v; return &r == &x ? okw(r) : "[\"err\",\"other\"]"; }
    if (f == "*=") { auto& r = x *= v; return &r == &x ? okw(r) : "[\"err\",\"other\"]"; }
    if (f == "/=") { auto& r = x /= v; return &r == &x ? okw(r) : "[\"err\",\"other\"]"; }
    if (f == "++_") { auto& r = ++x; return &r == &x ? okw(r) : "[\"err\",\"other\"]"; }
    if (f == "--_") { auto& r = --x; return &r == &x ? okw(r) : "[\"err\",\"other\"]"; }
    if (f == "_++") { auto r = x++; return okw(r); }
    if (f == "_--") { auto r = x--; return okw(r); }
    P::number const& c = x;
    double d = f == "n+" ? c + v : f == "n-" ? c - v : f == "n*" ? c * v : f == "n/" ? c / v :
               f == "+n" ? v + c : f == "-n" ? v - c : f == "*n" ? v * c : v / c;
    return okv(P::make_decimal(d));
  }
  Str one(rapidjson::Document const& op) {
    Str o = op["o"].GetString(); int h = op.HasMember("h") ? op["h"].GetInt() : 0;
    int d = op.HasMember("d") ? op["d"].GetInt() : 0, s = op.HasMember("s") ? op["s"].GetInt() : 0;
    if (o == "reset") { m = Machine(); return OK1; }
    if (o == "load") {
      P x = dec<P>(op["v"]);
#if WR == 1 || WR == 4
      if (h % 3 == 1) { P w = P::make_object("kk", x, "zz", 5); w.finalize(); x = w["kk"]; }
      else if (h % 3 == 2 && x.is_object()) x.finalize();
#endif
      m.p[d - 1] = x; return OK1;
    }
    if (o == "wrap") return m.at_w(d, [&] (auto& w) -> Str {
      using W = std::decay_t<decltype(w)>; P& src = m.p[s - 1]; bool mv = op["mv"].GetInt() != 0;
      switch (h % 3) {
        case 0: if (mv) w = W(std::move(src)); else w = W(src); break;
        case 1: { if (mv) { W t(std::move(src)); w = t; } else { W t(src); w = std::move(t); } break; }
        default: if (mv) w = std::move(src).template as<W>(); else w = src.template as<W>();
      }
      return OK1;
    });
    if (o == "unwrap") return m.at_w(s, [&] (auto& w) -> Str {
      P& t = m.p[d - 1]; bool mv = op["mv"].GetInt() != 0;
      switch (h % 3) {
        case 0: if (mv) t = std::move(w); else t = w; break;
        case 1: if (mv) t = std::move(w).dynamic(); else t = w.dynamic(); break;
        default: if (mv) { P q(std::move(w)); t = std::move(q); } else { P q(w); t = q; }
      }
      return OK1;
    });
    if (o == "cross") return m.at_w(d, [&] (auto& w) -> Str { return cross(w, m, s, h); });
    if (o == "copy" || o == "move" || o == "swap") return m.at_w(d, [&] (auto& a) -> Str {
      return m.at_w(s, [&] (auto& b) -> Str { return same(a, b, o, h); });
    });
    if (o == "nat") return m.at(d, [&] (auto& w) -> Str { return native(w, op["v"], h); });
    if (o == "arith") {
      auto& x = m.n[d - 9]; if (x.is_null()) return SKIP;
      Str f = op["f"].GetString(); auto& v = op["v"];
      if (v[0] == "i") { int64_t i = int64_t(dec_limbs(v, 1)); return h % 3 == 0 ? arith(x, f, i) : h % 3 == 1 ? arith(x, f, int(i)) : i >= 0 ? arith(x, f, unsigned(i)) : arith(x, f, short(i)); }
      double z = bitsd(dec_limbs(v, 1)); return h % 2 ? arith(x, f, z) : arith(x, f, float(z));
    }
    if (o == "cat") {
      auto& x = m.s[s - 7]; if (x.is_null()) return SKIP;
      Str t = dec_rle(op["v"]); bool clean = t.find('\0') == Str::npos; bool rev = op["rev"].GetInt() != 0;
      switch (h % 4) {
        case 0: if (clean) return okw(rev ? t.c_str() + x : x + t.c_str());
        case 1: return okw(rev ? sv(t) + x : x + sv(t));
        default: return okw(rev ? t + x : x + t);
      }
    }
    if (o == "app") {
      auto& x = m.s[d - 7]; if (x.is_null()) return SKIP;
      if (op["v"][0] == "slot") { auto& y = m.s[op["v"][1].GetInt() - 7]; if (y.is_null()) return SKIP; auto& r = h % 2 ? x += y : x += y.strv(); return &r == &x ? OK1 : "[\"err\",\"other\"]"; }
      Str t = dec_rle(op["v"][1]); auto& r = x += sv(t); return &r == &x ? OK1 : "[\"err\",\"other\"]";
    }
    if (o == "neg") { auto& x = m.f[s - 11]; if (x.is_null()) return SKIP; return okb(h % 2 ? !x : !*x); }
    if (o == "truth") return m.at_w(s, [&] (auto& w) -> Str { return okb(static_cast<bool>(w)); });
    if (o == "numto") {
      auto& x = m.n[s - 9]; if (x.is_null()) return SKIP;
      switch (h % 4) {
        case 0: { int64_t i = x; return okv(P::make_integer(i)); } case 1: { int i = static_cast<int>(x); return okv(P::make_integer(i)); }
        case 2: { double z = x; return okv(P::make_decimal(z)); } default: return okv(P::make_decimal(double(static_cast<float>(x))));
      }
    }
    if (o == "q") return m.at_w(s, [&] (auto& w) -> Str { if (w.is_null() && s != 13) return SKIP; return wq<P>(w, op["q"], h); });
    int t = (o == "inj" || o == "proj") ? s : d;
    return m.at_w(t, [&] (auto& w) -> Str { if (w.is_null()) return SKIP; return mutate(w, op, h); });
  }
  template <class A, class C> Str same(A&, C&, Str const&, int) { return SKIP; }
  template <class A> Str same(A& a, A& b, Str const& o, int h) {
    if (o == "copy") { if (h % 2) a = b; else { A t(b); a = t; } }
    else if (o == "move") { if (h % 2) a = std::move(b); else { A t(std::move(b)); a = std::move(t); } }
    else std::swap(a, b);
    return OK1;
  }
  // Through the wrapper of another representation.
  template <template <class> class W>
  Str cross(W<P>& w, Machine& mm, int s, int h) {
    return mm.at_w(s, [&] (auto& x) -> Str { return crossed(w, x, h); });
  }
  template <class A, class C> Str crossed(A&, C&, int) { return SKIP; }
  template <template <class> class W> Str crossed(W<P>& w, W<P>& x, int h) {
    if (x.is_null() && !std::is_same<W<P>, nul_t<P>>::value) return SKIP;
    if (h % 3 == 0) { typename W<P>::view v = x; w = v.as_owner(); return OK1; }
#if WR == 0 || WR == 3
    W<K> k(x); W<P> t(k); w = t;
#else
    W<H> k(x); W<P> t(k); if (h % 3 == 1) w = std::move(t); else { W<K> z = W<H>(x); w = z; }
#endif
    return OK1;
  }
  Str state() {
    Str st, fin;
    for (int i = 1; i <= 13; ++i) {
      if (i > 1) { st += ','; fin += ','; }
      m.at(i, [&] (auto& x) { enc(st, dyn(x)); fin += x.is_finalized() ? '1' : '0'; return 0; });
    }
    return "\"st\":[" + st + "],\"fin\":[" + fin + "]";
  }
};
#endif

int main(int, char** argv) {
  Str mode = argv[3];
  std::ifstream in(argv[1]); Tracer tr(argv[2]); Str line;
#if WR != 2
  Run run;
#endif
  while (std::getline(in, line)) {
    rapidjson::Document op; op.Parse(line.data(), line.size());
    if (op.HasParseError()) return 3;
    if (mode == "machine") {
#if WR != 2
      run.nat = "[]"; Str r = guarded([&] { return run.one(op); });
      tr.line("{\"op\":" + line + ",\"out\":" + r + ",\"nat\":" + run.nat + "," + run.state() + "}");
#endif
    } else if (mode == "offer") {
      g_offers = "["; g_seen.clear();
      Str bad = guarded([&] { each_rep(op["v"], [&] (Str const& n, auto const& x) { offers(n, x); }); return Str("ok"); });
      tr.line("{\"op\":" + line + ",\"bad\":[" + (bad == "ok" ? "" : bad) + "],\"got\":" + g_offers + "]}");
    } else {
      g_qs = &op["q"]; g_case = op["h"].GetInt(); g_bad = "["; Collector c;
      Str bad = guarded([&] { each_rep(op["v"], [&] (Str const& n, auto const& x) { ask_all<A_>(c, n, x); }); return Str("ok"); });
      if (bad != "ok") { if (g_bad.size() > 1) g_bad += ','; g_bad += "[\"driver\"," + bad + "]"; }
      Str o = "{\"op\":" + line + ",\"bad\":" + g_bad + "],\"n\":" + std::to_string(c.rep) + ",\"outs\":[";
      for (size_t i = 0; i < c.order.size(); ++i) {
        if (i) o += ',';
        o += "[["; auto& names = c.by[c.order[i]];
        for (size_t j = 0; j < names.size(); ++j) { if (j) o += ','; o += '"' + names[j] + '"'; }
        o += "]," + c.order[i] + "]";
      }
      tr.line(o + "]}");
    }
  }
}
