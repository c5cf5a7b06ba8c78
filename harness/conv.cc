// Converts native C++ values into packets and back, and compares them, on every representation.
//   usage: conv CASES TRACE    -DPART=k: the group of native types compiled in
#define COMMON_IMPL
#include "common.hpp"
#include <ctime>
#include <set>
#include <map>
#include <list>
#include <deque>
#include <array>
#include <chrono>
#include <forward_list>
#include <unordered_set>
#include <unordered_map>

// ------------------------------------------------------------------ user types with conversions
struct User { Str name; int64_t num; bool operator ==(User const& o) const { return name == o.name && num == o.num; } };
struct UKey { Str key; bool operator <(UKey const& o) const { return key < o.key; } bool operator ==(UKey const& o) const { return key == o.key; } bool operator !=(UKey const& o) const { return key != o.key; } };
namespace dart { namespace convert {
  template <> struct conversion_traits<User> {
    template <class Packet> Packet to_dart(User const& u) { return Packet::make_object("name", u.name, "num", u.num); }
    template <class Packet> User from_dart(Packet const& p) {
      if (!p.is_object()) throw dart::type_error("user");
      auto n = p["name"]; auto m = p["num"];
      return User {Str(n.strv()), m.integer()};
    }
    template <class Packet> bool compare(Packet const& p, User const& u) { return p.is_object() && p["name"] == u.name && p["num"] == u.num; }
  };
  template <> struct conversion_traits<UKey> {
    template <class Packet> Packet to_dart(UKey const& u) { return Packet::make_string(u.key); }
    template <class Packet> UKey from_dart(Packet const& p) { return UKey {Str(p.strv())}; }
    template <class Packet> bool compare(Packet const& p, UKey const& u) { return p == u.key; }
  };
}}

// ------------------------------------------------------------------ encoding of native values
template <class T, class = void> struct nat;
template <class T> Str desc() { return nat<T>::desc(); }
template <class T> T ndec(JV const& v) { return nat<T>::dec(v); }
template <class T> void nenc(Str& o, T const& x) { nat<T>::enc(o, x); }

template <> struct nat<std::nullptr_t> {
  static Str desc() { return "[\"null\"]"; }
  static std::nullptr_t dec(JV const&) { return nullptr; }
  static void enc(Str& o, std::nullptr_t) { o += "[\"n\"]"; }
};
template <> struct nat<bool> {
  static Str desc() { return "[\"bool\"]"; }
  static bool dec(JV const& v) { return v[1].GetInt() != 0; }
  static void enc(Str& o, bool b) { o += b ? "[\"b\",1]" : "[\"b\",0]"; }
};
inline void enc_i(Str& o, uint64_t u) { o += "[\"i\","; enc_limbs(o, u); o += ']'; }
template <class T> struct nat<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static Str desc() { return "[\"int\"," + std::to_string(sizeof(T) * 8) + "," + (std::is_signed<T>::value ? "1]" : "0]"); }
  static T dec(JV const& v) { return T(dec_limbs(v, 1)); }
  static void enc(Str& o, T x) { enc_i(o, uint64_t(int64_t(x))); }
};
template <class T> struct nat<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static Str desc() { return sizeof(T) == 4 ? "[\"flt\"]" : "[\"dbl\"]"; }
  static T dec(JV const& v) { return T(bitsd(dec_limbs(v, 1))); }
  static void enc(Str& o, T x) { o += "[\"d\","; enc_limbs(o, dbits(double(x))); o += ']'; }
};
template <> struct nat<Str> {
  static Str desc() { return "[\"str\"]"; }
  static Str dec(JV const& v) { return dec_rle(v[1]); }
  static void enc(Str& o, Str const& x) { o += "[\"s\","; enc_rle(o, x); o += ']'; }
};
template <> struct nat<User> {
  static Str desc() { return "[\"user\"]"; }
  static User dec(JV const& v) { return User {dec_rle(v[1]), int64_t(dec_limbs(v[2], 0))}; }
  static void enc(Str& o, User const& x) { o += "[\"u\","; enc_rle(o, x.name); o += ",["; enc_limbs(o, uint64_t(x.num)); o += "]]"; }
};
template <> struct nat<UKey> {
  static Str desc() { return "[\"ukey\"]"; }
  static UKey dec(JV const& v) { return UKey {dec_rle(v[1])}; }
  static void enc(Str& o, UKey const& x) { o += "[\"k\","; enc_rle(o, x.key); o += ']'; }
};
template <class P> struct dart_nat {
  static Str desc() { return "[\"dart\"]"; }
  static P dec(JV const& v) { return ::dec<P>(v); }
  static void enc(Str& o, P const& x) { ::enc(o, x); }
};
template <> struct nat<dart::heap> : dart_nat<dart::heap> {};
template <> struct nat<dart::packet> : dart_nat<dart::packet> {};
template <class T> struct nat<dart::shim::optional<T>> {
  using O = dart::shim::optional<T>;
  static Str desc() { return "[\"opt\"," + ::desc<T>() + "]"; }
  static O dec(JV const& v) { if (v[0] == "none") return dart::shim::nullopt; return O(ndec<T>(v[1])); }
  static void enc(Str& o, O const& x) { if (!x) { o += "[\"none\"]"; return; } o += "[\"some\","; nenc<T>(o, *x); o += ']'; }
};
template <class... Ts> Str descs() { Str o = "["; int i = 0; for (auto const& d : std::vector<Str> {::desc<Ts>()...}) { if (i++) o += ','; o += d; } return o + "]"; }
template <class... Ts> struct nat<dart::shim::variant<Ts...>> {
  using V = dart::shim::variant<Ts...>;
  static Str desc() { return "[\"var\"," + descs<Ts...>() + "]"; }
  template <size_t k> static V pick(JV const&, int, std::integral_constant<size_t, k>, std::true_type) { throw std::bad_alloc(); }
  template <size_t k> static V pick(JV const& v, int want, std::integral_constant<size_t, k>, std::false_type) {
    using T = std::tuple_element_t<k, std::tuple<Ts...>>;
    if (want == int(k)) return V(ndec<T>(v));
    return pick(v, want, std::integral_constant<size_t, k + 1> {}, std::integral_constant<bool, k + 1 == sizeof...(Ts)> {});
  }
  static V dec(JV const& v) { return pick(v[2], v[1].GetInt() - 1, std::integral_constant<size_t, 0> {}, std::false_type {}); }
  static void enc(Str& o, V const& x) {
    o += "[\"alt\"," + std::to_string(x.index() + 1) + ",";
    dart::shim::visit([&] (auto const& y) { nenc<std::decay_t<decltype(y)>>(o, y); }, x); o += ']';
  }
};
template <class... Ts> struct nat<std::tuple<Ts...>> {
  using T = std::tuple<Ts...>;
  static Str desc() { return "[\"tup\"," + descs<Ts...>() + "]"; }
  template <size_t... is> static T dec_(JV const& v, std::index_sequence<is...>) { return T {ndec<Ts>(v[is])...}; }
  static T dec(JV const& v) { return dec_(v[1], std::index_sequence_for<Ts...> {}); }
  template <size_t... is> static void enc_(Str& o, T const& x, std::index_sequence<is...>) { int u[] = {0, ((is ? void(o += ',') : void()), nenc<Ts>(o, std::get<is>(x)), 0)...}; (void) u; }
  static void enc(Str& o, T const& x) { o += "[\"l\",["; enc_(o, x, std::index_sequence_for<Ts...> {}); o += "]]"; }
};
template <class A, class B> struct nat<std::pair<A, B>> {
  static Str desc() { return "[\"tup\"," + descs<A, B>() + "]"; }
  static std::pair<A, B> dec(JV const& v) { return {ndec<A>(v[1][0]), ndec<B>(v[1][1])}; }
  static void enc(Str& o, std::pair<A, B> const& x) { o += "[\"l\",["; nenc<A>(o, x.first); o += ','; nenc<B>(o, x.second); o += "]]"; }
};
template <class C> void enc_list(Str& o, C const& c) { o += "[\"l\",["; int i = 0; for (auto const& e : c) { if (i++) o += ','; nenc<std::decay_t<decltype(e)>>(o, e); } o += "]]"; }
template <class C, class T> struct seq_nat {
  static Str desc() { return "[\"seq\"," + ::desc<T>() + "]"; }
  static C dec(JV const& v) { C c; for (auto& e : v[1].GetArray()) c.emplace_back(ndec<T>(e)); return c; }
  static void enc(Str& o, C const& c) { enc_list(o, c); }
};
template <class T> struct nat<std::vector<T>> : seq_nat<std::vector<T>, T> {};
template <class T> struct nat<std::deque<T>> : seq_nat<std::deque<T>, T> {};
template <class T> struct nat<std::list<T>> : seq_nat<std::list<T>, T> {};
template <class T> struct nat<std::forward_list<T>> {
  using C = std::forward_list<T>;
  static Str desc() { return "[\"seq\"," + ::desc<T>() + "]"; }
  static C dec(JV const& v) { C c; auto it = c.before_begin(); for (auto& e : v[1].GetArray()) it = c.emplace_after(it, ndec<T>(e)); return c; }
  static void enc(Str& o, C const& c) { enc_list(o, c); }
};
template <class T, size_t n> struct nat<std::array<T, n>> {
  using C = std::array<T, n>;
  static Str desc() { return "[\"arr\"," + std::to_string(n) + "," + ::desc<T>() + "]"; }
  template <size_t... is> static C dec_(JV const& v, std::index_sequence<is...>) { return C {{ndec<T>(v[is])...}}; }
  static C dec(JV const& v) { return dec_(v[1], std::make_index_sequence<n> {}); }
  static void enc(Str& o, C const& c) { enc_list(o, c); }
};
template <class C, class T, int ord, int multi> struct set_nat {
  static Str desc() { return "[\"set\"," + std::to_string(ord) + "," + std::to_string(multi) + "," + ::desc<T>() + "]"; }
  static C dec(JV const& v) { C c; for (auto& e : v[1].GetArray()) c.emplace(ndec<T>(e)); return c; }
  static void enc(Str& o, C const& c) { enc_list(o, c); }
};
template <class T> struct nat<std::set<T>> : set_nat<std::set<T>, T, 1, 0> {};
template <class T> struct nat<std::multiset<T>> : set_nat<std::multiset<T>, T, 1, 1> {};
template <class T> struct nat<std::unordered_set<T>> : set_nat<std::unordered_set<T>, T, 0, 0> {};
template <class T> struct nat<std::unordered_multiset<T>> : set_nat<std::unordered_multiset<T>, T, 0, 1> {};
template <class C, class K, class T, int ord, int multi> struct map_nat {
  static Str desc() { return "[\"map\"," + std::to_string(ord) + "," + std::to_string(multi) + "," + ::desc<K>() + "," + ::desc<T>() + "]"; }
  static C dec(JV const& v) { C c; for (auto& e : v[1].GetArray()) c.emplace(ndec<K>(e[0]), ndec<T>(e[1])); return c; }
  static void enc(Str& o, C const& c) { o += "[\"m\",["; int i = 0; for (auto const& e : c) { if (i++) o += ','; o += '['; nenc<K>(o, e.first); o += ','; nenc<T>(o, e.second); o += ']'; } o += "]]"; }
};
template <class K, class T> struct nat<std::map<K, T>> : map_nat<std::map<K, T>, K, T, 1, 0> {};
template <class K, class T> struct nat<std::multimap<K, T>> : map_nat<std::multimap<K, T>, K, T, 1, 1> {};
template <class K, class T> struct nat<std::unordered_map<K, T>> : map_nat<std::unordered_map<K, T>, K, T, 0, 0> {};
template <class K, class T> struct nat<std::unordered_multimap<K, T>> : map_nat<std::unordered_multimap<K, T>, K, T, 0, 1> {};
template <class D> struct nat<std::chrono::time_point<std::chrono::system_clock, D>> {
  using C = std::chrono::time_point<std::chrono::system_clock, D>;
  static Str desc() { return "[\"time\"]"; }
  static C dec(JV const& v) { return C(std::chrono::duration_cast<D>(std::chrono::seconds(v[1].GetInt() * 86400ll + v[2].GetInt()))); }
  static void enc(Str& o, C const& c) {
    auto d = c.time_since_epoch(); long long s = std::chrono::duration_cast<std::chrono::seconds>(d).count();
    long long day = s >= 0 ? s / 86400 : -((-s + 86399) / 86400);
    o += "[\"t\"," + std::to_string(day) + "," + std::to_string(s - day * 86400) + (std::chrono::seconds(s) == d ? "]" : ",\"sub\"]");
  }
};
template <class T, T n> struct nat<std::integral_constant<T, n>> {
  static Str desc() { Str o = "[\"const\",["; enc_limbs(o, uint64_t(int64_t(n))); return o + "]]"; }
  static std::integral_constant<T, n> dec(JV const&) { return {}; }
  static void enc(Str& o, std::integral_constant<T, n>) { enc_i(o, uint64_t(int64_t(n))); }
};

// ------------------------------------------------------------------ the trace
static Str g_to, g_from, g_cmp, g_bad; static std::vector<Str> g_seen;
static void put(Str& o, Str const& name, Str const& r) { if (o.size() > 1) o += ','; o += "[\"" + name + "\"," + r + "]"; }
// One record per distinct outcome, naming the first way it was reached.
static void put1(Str& o, char const* kind, Str const& name, Str const& r) {
  Str k = Str(kind) + r; for (auto& s : g_seen) if (s == k) return;
  g_seen.push_back(k); put(o, name, r);
}
template <class T> Str nok(T const& x) { Str o = "[\"ok\","; nenc<T>(o, x); return o + "]"; }

template <class P, class F> void to1(Str const& n, F&& f) { put1(g_to, "t", n, guarded([&] { P p = f(); return okv(p); })); }
// Native maps are objects and native sequences and sets are arrays: the typed wrappers take and give them too.
template <class T> struct cat : std::integral_constant<int, 0> {};
#define CAT_MAP(C) template <class K, class T> struct cat<std::C<K, T>> : std::integral_constant<int, 1> {};
#define CAT_SEQ(C) template <class T> struct cat<std::C<T>> : std::integral_constant<int, 2> {};
CAT_MAP(map) CAT_MAP(multimap) CAT_MAP(unordered_map) CAT_MAP(unordered_multimap)
CAT_SEQ(vector) CAT_SEQ(deque) CAT_SEQ(list) CAT_SEQ(forward_list) CAT_SEQ(set) CAT_SEQ(multiset) CAT_SEQ(unordered_set) CAT_SEQ(unordered_multiset)
template <class T, size_t n> struct cat<std::array<T, n>> : std::integral_constant<int, 2> {};
template <class P, int c> struct wrapper_of;
template <class P> struct wrapper_of<P, 1> { using type = dart::basic_object<P>; };
template <class P> struct wrapper_of<P, 2> { using type = dart::basic_array<P>; };

template <class P> void settle(P&) {}
template <template <class> class RC> void settle(dart::basic_packet<RC>& p) { p.finalize(); }
template <class P, class T> void wrap_to(Str const&, T const&, std::integral_constant<int, 0>) {}
template <class P, class T, int c> void wrap_to(Str const& n, T const& x, std::integral_constant<int, c>) {
  using W = typename wrapper_of<P, c>::type; namespace cv = dart::convert;
  using A = dart::basic_array<P>;
  to1<P>(n + " wrapped in array", [&] { A w(x); return P(w.dynamic()[0]); });
  to1<P>(n + " wrapped in array moved", [&] { T y(x); A w(1, std::move(y)); return P(w.dynamic()[1]); });
  to1<P>(n + " wrapper assign", [&] { W w; w = x; return P(w.dynamic()); });
  to1<P>(n + " wrapper assign moved", [&] { T y(x); W w; w = std::move(y); return P(std::move(w).dynamic()); });
  to1<P>(n + " wrapper cast", [&] { return P(cv::cast<W>(x).dynamic()); });
  to1<P>(n + " wrapper cast moved", [&] { T y(x); return P(cv::cast<W>(std::move(y)).dynamic()); });
}
template <class T, class P>
void to_all(Str const& n, T const& x) {
  namespace cv = dart::convert;
  to1<P>(n + " cast", [&] { return P(cv::cast<P>(x)); });
  to1<P>(n + " cast moved", [&] { T y(x); return P(cv::cast<P>(std::move(y))); });
  to1<P>(n + " construct", [&] { P p(x); return p; });
  to1<P>(n + " construct moved", [&] { T y(x); P p(std::move(y)); return p; });
  to1<P>(n + " assign", [&] { P p; p = x; return p; });
  to1<P>(n + " assign over", [&] { P p = P::make_object("k", P::make_array(1, "two")); T y(x); p = std::move(y); return p; });
  to1<P>(n + " assign over finalized", [&] { P p = P::make_object("k", P::make_array(1, "two")); settle(p); P q(p["k"]); q = x; T y(x); p = std::move(y); return P(p == q ? p : P("differ")); });
  to1<P>(n + " make_array", [&] { return P(P::make_array(1, x)[1]); });
  to1<P>(n + " make_object", [&] { return P(P::make_object("k", x)["k"]); });
  to1<P>(n + " push_back", [&] { P p = P::make_array(); p.push_back(x); T y(x); p.push_back(std::move(y)); P q = P::make_array(p[1]); return P(q[0]); });
  to1<P>(n + " push_front", [&] { P p = P::make_array(1); p.push_front(x); return P(p[0]); });
  to1<P>(n + " add_field", [&] { P p = P::make_object(); p.add_field("k", x); return P(p["k"]); });
  to1<P>(n + " insert", [&] { P p = P::make_array(1, 2); T y(x); p.insert(1, std::move(y)); return P(p[1]); });
  to1<P>(n + " set", [&] { P p = P::make_object("k", 1); p.set("k", x); return P(p["k"]); });
  wrap_to<P>(n, x, cat<T> {});
  to1<P>(n + " inject", [&] { P p = P::make_object("k", 1).inject("k", x); return P(p["k"]); });
}
template <class P> void extra_to(Str const& n, Str const& s) {
  to1<P>(n + " string_view", [&] { return P(sv(s)); });
  if (s.find('\0') == Str::npos) to1<P>(n + " char const*", [&] { return P(s.c_str()); });
}
template <class P, class T> void extra_to(Str const& n, std::vector<T> const& x) {
  to1<P>(n + " span", [&] { return P(dart::convert::cast<P>(gsl::make_span(x))); });
}
template <class P, class T> void extra_to(Str const&, T const&) {}

// A cast to an optional or a tuple of one element constructs that element from the packet, by their own constructors.
template <class T> struct is_opt : std::false_type {};
template <class T> struct is_opt<dart::shim::optional<T>> : std::true_type {};
template <class T> struct is_opt<std::tuple<T>> : std::true_type {};
template <class T, class P, class V>
void from_all(Str const& n, V const& v, Str const& val) {
  auto one = [&] (char const* how, auto&& f) { put1(g_from, "f", n + how, val + "," + guarded([&] { return nok<T>(f()); })); };
  one(" cast", [&] { return T(dart::convert::cast<T>(v)); });
  one(" as", [&] { return T(v.template as<T>()); });
  one(" as moved", [&] { V w(v); return T(std::move(w).template as<T>()); });
  if (!is_opt<T>::value) one(" static_cast", [&] { return static_cast<T>(v); });
  one(" maybe_as", [&] { auto m = v.template maybe_as<T>(); if (!m) throw dart::type_error("maybe"); return T(*m); });
  one(" cast moved", [&] { V w(v); return T(dart::convert::cast<T>(std::move(w))); });
  if (!is_opt<T>::value) one(" static_cast moved", [&] { V w(v); return static_cast<T>(std::move(w)); });
  one(" maybe_as moved", [&] { V w(v); auto m = std::move(w).template maybe_as<T>(); if (!m) throw dart::type_error("maybe"); return T(*m); });
}
template <class T, class P> void wrap_from(Str const&, P const&, T const&, Str const&, std::integral_constant<int, 0>) {}
template <class T, class P, int c> void wrap_from(Str const& n, P const& v, T const& x, Str const& val, std::integral_constant<int, c>) {
  using W = typename wrapper_of<P, c>::type; namespace cv = dart::convert;
  auto one = [&] (char const* how, auto&& f) { put1(g_from, "f", n + how, val + "," + guarded([&] { return nok<T>(f()); })); };
  one(" wrapper static_cast", [&] { W w(v); return static_cast<T>(w); });
  one(" wrapper cast", [&] { W w(v); return T(cv::cast<T>(w)); });
  one(" wrapper cast moved", [&] { W w(v); return T(cv::cast<T>(std::move(w))); });
  one(" cast to a wrapper", [&] { return static_cast<T>(cv::cast<W>(v)); });
  one(" as a wrapper", [&] { return static_cast<T>(v.template as<W>()); });
  (void) x;
}
template <class T, class P, int c> void wrap_cmp(Str const& n, P const& v, T const& x, Str const& val, std::integral_constant<int, c>, std::true_type) {
  using W = typename wrapper_of<P, c>::type;
  if (c == 1 ? !v.is_object() : !v.is_array()) return;
  W w(v); auto one = [&] (char const* how, bool inv, auto&& f) { put1(g_cmp, "c", n + how, val + "," + guarded([&] { return okb(f() != inv); })); };
  one(" w==x", false, [&] { return w == x; });
  one(" x==w", false, [&] { return x == w; });
  one(" w!=x", true, [&] { return w != x; });
  one(" x!=w", true, [&] { return x != w; });
  one(" compare(w,x)", false, [&] { return dart::convert::compare(w, x); });
  one(" compare(x,w)", false, [&] { return dart::convert::compare(x, w); });
}
template <class T, class P, class C, class B> void wrap_cmp(Str const&, P const&, T const&, Str const&, C, B) {}
template <class T, class V>
void cmp_all(Str const& n, V const& v, T const& x, Str const& val) {
  auto one = [&] (char const* how, bool inv, auto&& f) { put1(g_cmp, "c", n + how, val + "," + guarded([&] { return okb(f() != inv); })); };
  one(" p==x", false, [&] { return v == x; });
  one(" x==p", false, [&] { return x == v; });
  one(" p!=x", true, [&] { return v != x; });
  one(" x!=p", true, [&] { return x != v; });
  one(" compare(p,x)", false, [&] { return dart::convert::compare(v, x); });
  one(" compare(x,p)", false, [&] { return dart::convert::compare(x, v); });
}
template <class V> void extra_cmp(Str const& n, V const& v, Str const& x, Str const& val) {
  put1(g_cmp, "c", n + " string_view", val + "," + guarded([&] { return okb(v == sv(x)); }));
  if (x.find('\0') == Str::npos) put1(g_cmp, "c", n + " char const*", val + "," + guarded([&] { return okb(v == x.c_str()); }));
}
template <class V, class T> void extra_cmp(Str const& n, V const& v, std::vector<T> const& x, Str const& val) {
  put1(g_cmp, "c", n + " span", val + "," + guarded([&] { return okb(v == gsl::make_span(x)); }));
}
template <class V, class T> void extra_cmp(Str const&, V const&, T const&, Str const&) {}

template <class T, class V> void cmp_if(Str const& n, V const& v, T const& x, Str const& val, std::true_type) { cmp_all(n, v, x, val); extra_cmp(n, v, x, val); }
template <class T, class V> void cmp_if(Str const&, V const&, T const&, Str const&, std::false_type) {}
// Comparing with a native map or an integral constant is defined for packet types that can be built from one: not for
// buffers and views, and so not inside other containers, which compare element by element through a view.
template <class T> struct needs_cast : std::false_type {};
template <class... Ts> struct any_cast : std::false_type {};
template <class T, class... Ts> struct any_cast<T, Ts...> : std::integral_constant<bool, needs_cast<T>::value || any_cast<Ts...>::value> {};
template <class T, T n> struct needs_cast<std::integral_constant<T, n>> : std::true_type {};
template <class K, class T> struct needs_cast<std::map<K, T>> : std::true_type {};
template <class K, class T> struct needs_cast<std::multimap<K, T>> : std::true_type {};
template <class K, class T> struct needs_cast<std::unordered_map<K, T>> : std::true_type {};
template <class K, class T> struct needs_cast<std::unordered_multimap<K, T>> : std::true_type {};
template <template <class...> class C, class... Ts> struct needs_cast<C<Ts...>> : any_cast<Ts...> {};
template <class T, size_t n> struct needs_cast<std::array<T, n>> : needs_cast<T> {};
template <class T> struct inner_cast : std::false_type {};
template <template <class...> class C, class... Ts> struct inner_cast<C<Ts...>> : any_cast<Ts...> {};
template <class T, size_t n> struct inner_cast<std::array<T, n>> : needs_cast<T> {};
template <class P, class T> struct can_compare : std::integral_constant<bool, !inner_cast<T>::value && (std::is_same<P, dart::heap>::value || std::is_same<P, dart::packet>::value || !needs_cast<T>::value)> {};

template <class T, class P>
void both(Str const& n, P const& p, T const& x, Str const& val) {
  from_all<T, P>(n, p, val); wrap_from<T, P>(n, p, x, val, cat<T> {});
  wrap_cmp<T, P>(n, p, x, val, std::integral_constant<int, cat<T>::value> {}, std::integral_constant<bool, cat<T>::value != 0 && can_compare<P, T>::value> {});
  cmp_if(n, p, x, val, std::integral_constant<bool, can_compare<P, T>::value> {});
}
// Every representation of the value h.
template <class T>
void reps(dart::heap const& h, T const& x, int how, Str const& val) {
  using H = dart::heap; using B = dart::buffer; using P = dart::packet;
  both(" heap", h, x, val);
  P p(h); both(" packet", p, x, val);
  B f = H::make_object("k", h, "pad", Str(size_t(how % 7), 'p')).finalize(); B b = f["k"];
  both(" buffer", b, x, val);
  P q(b); both(" packet of buffer", q, x, val);
  if (how & 1) { H::view hv(h); both(" heap view", hv, x, val); P::view pv(q); both(" packet view", pv, x, val); }
  else { B::view bv(b); both(" buffer view", bv, x, val); P::view pv(p); both(" packet view", pv, x, val); }
}

template <class T>
void run_case(rapidjson::Document const& op) {
  using H = dart::heap; using P = dart::packet;
  rapidjson::Document d; d.Parse(::desc<T>().c_str());
  if (d != op["t"]) { put(g_bad, "descriptor", "[\"" "mismatch" "\"]"); return; }
  int how = op["h"].GetInt();
  T x = ndec<T>(op["x"]);
  put(g_to, "native", nok<T>(x));
  to_all<T, H>("heap", x); to_all<T, P>("packet", x); extra_to<H>("heap", x); extra_to<P>("packet", x);
  Str val; { H h = dec<H>(op["v"]); enc(val, h); reps(h, x, how, val); }
  Str r = guarded([&] { H h = dart::convert::cast<H>(x); Str v2; enc(v2, h); if (v2 != val) reps(h, x, how + 1, v2); return Str("ok"); });
}

template <class... A> using Var = dart::shim::variant<A...>;
template <class A> using Opt = dart::shim::optional<A>;
using Map = std::map<Str, int>;
using i8 = signed char; using u8 = unsigned char; using i64 = int64_t;
using secs = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
using nsecs = std::chrono::system_clock::time_point;

int main(int, char** argv) {
  setenv("TZ", "XST5XDT,M3.2.0,M11.1.0", 1); tzset();      // timestamps do not depend on where the process runs
  std::map<Str, void (*)(rapidjson::Document const&)> reg;
#define X(name, ...) reg[name] = run_case<__VA_ARGS__>;
#include "conv_types.inc"
#undef X
  std::ifstream in(argv[1]); Tracer tr(argv[2]); Str line;
  while (std::getline(in, line)) {
    rapidjson::Document op; op.Parse(line.data(), line.size());
    if (op.HasParseError()) return 3;
    g_to = g_from = g_cmp = g_bad = "["; g_seen.clear();
    auto it = reg.find(op["T"].GetString());
    if (it == reg.end()) return 3;
    Str r = guarded([&] { it->second(op); return Str("ok"); });
    if (r != "ok") put(g_bad, "driver", r);
    tr.line("{\"op\":" + line + ",\"bad\":" + g_bad + "],\"to\":" + g_to + "],\"from\":" + g_from + "],\"cmp\":" + g_cmp + "]}");
  }
}
