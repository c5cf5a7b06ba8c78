// Every query of the public API, evaluated on any representation, with every spelling.
#pragma once
#include "common.hpp"

template <class X> struct is_dart_buffer : std::false_type {};
template <template <class> class RC> struct is_dart_buffer<dart::basic_buffer<RC>> : std::true_type {};

// The owning mutable/switching type used to build argument values (keys, defaults) for X.
template <class X> struct arg_type { using type = X; };
template <template <class> class RC> struct arg_type<dart::basic_buffer<RC>> { using type = dart::basic_heap<std::shared_ptr>; };

inline size_t idx_of(JV const& k) { auto n = k[1].GetInt64(); return n < 0 ? size_t(n) : size_t(n); }

// Calls f with a string key spelled in the how-th way.
template <class P, class F>
Str with_skey(JV const& K, int how, F&& f) {
  Str key = dec_rle(K[1]);
  bool clean = key.find('\0') == Str::npos;
  switch (how % 4) {
    case 0: return f(sv(key));
    case 1: if (clean) return f(key.c_str()); return f(sv(key));
    case 2: { auto p = P::make_string(key); return f(p); }
    default: { typename P::string w(P::make_string(key)); return f(w); }
  }
}

// Calls f with the key spelled in the how-th way.
template <class P, class F>
Str with_key(JV const& K, int how, std::vector<P> const* slots, F&& f) {
  Str kind = K[0].GetString();
  if (kind == "k") {
    return with_skey<P>(K, how, f);
  } else if (kind == "x") {
    auto n = K[1].GetInt64();
    switch (how % 3) {
      case 0: return f(size_t(n));
      case 1: { auto p = P::make_integer(n); return f(p); }
      default: { typename P::number w(P::make_integer(n)); return f(w); }
    }
  } else if (kind == "V") {
    auto p = dec<P>(K[1]); return f(p);
  } else {
    return f((*slots)[K[1].GetInt() - 1]);
  }
}

template <class It, class End>
void enc_range(Str& o, It it, End end) {
  o += '['; bool first = true; size_t guard = 0;
  for (; it != end; ++it) {
    if (!first) o += ','; first = false; enc(o, *it);
    if (++guard > 100000) { o += ",[\"runaway\"]"; break; }
  }
  o += ']';
}
template <class Vec>
void enc_vec(Str& o, Vec const& v) {
  o += '['; bool first = true;
  for (auto const& e : v) { if (!first) o += ','; first = false; enc(o, e); }
  o += ']';
}

template <class X>
Str found_at(X const& x, typename X::iterator const& it, bool key) {
  auto b = key ? x.key_begin() : x.begin(); auto e = key ? x.key_end() : x.end();
  long n = 0;
  if (it == e) return "[\"ok\",[-1,[\"n\"]]]";
  while (b != e && b != it) { ++b; if (++n > 100000) break; }
  if (b == e) n = -7;
  Str o = "[\"ok\",["; num(o, n); o += ','; enc(o, *it); return o + "]]";
}

// Queries that only exist on owning types that can be mutated.
template <class X, class P>
struct owner_queries {
  static Str get_or(X const&, JV const&, int, std::vector<P> const*) { return "[\"skip\"]"; }
  static Str front_or(X const&, JV const&, int) { return "[\"skip\"]"; }
  static Str back_or(X const&, JV const&, int) { return "[\"skip\"]"; }
};
template <class P>
struct owner_queries<P, P> {
  static Str get_or(P const& x, JV const& q, int how, std::vector<P> const* slots) {
    auto d = dec<P>(q[2]);
    return with_key<P>(q[1], how, slots, [&] (auto const& k) { return okv(x.get_or(k, d)); });
  }
  static Str front_or(P const& x, JV const& q, int how) {
    if (how % 3 == 1 && x.is_array()) return okv(typename P::array(x).front_or(dec<P>(q[1])));
    return okv(x.front_or(dec<P>(q[1])));
  }
  static Str back_or(P const& x, JV const& q, int how) {
    if (how % 3 == 1 && x.is_array()) return okv(typename P::array(x).back_or(dec<P>(q[1])));
    return okv(x.back_or(dec<P>(q[1])));
  }
};

// Drives three iterators over x: [op, a, b] with a, b registers.
template <class X, class It>
Str walk(X const&, It const& b0, It const& b1, It const& e0, JV const& steps) {
  It r[3] = {b0, b1, e0};
  Str o = "["; bool first = true;
  auto val = [&] (auto const& x) { if (!first) o += ','; first = false; o += "[\"v\","; enc(o, x); o += ']'; };
  auto flag = [&] (bool f) { if (!first) o += ','; first = false; o += f ? "[\"e\",1]" : "[\"e\",0]"; };
  for (auto& s : steps.GetArray()) {
    Str op = s[0].GetString(); auto& a = r[s[1].GetInt()]; auto& b = r[s[2].GetInt()];
    if (op == "++") { auto& q = ++a; flag(&q == &a); }
    else if (op == "--") { auto& q = --a; flag(&q == &a); }
    else if (op == "p+") { It old = a++; val(*old); }
    else if (op == "p-") { It old = a--; flag(old == a); }
    else if (op == "=") { a = b; flag(a == b); }
    else if (op == "m") { It t(b); a = std::move(t); flag(a == b); }
    else if (op == "c") { It t(b); It u(std::move(t)); std::swap(a, u); flag(a == b); }
    else if (op == "eq") { flag(a == b); }
    else if (op == "ne") { flag(a != b); }
    else if (op == "*") { val(*a); }
    else if (op == "nx") { It t = std::next(a, s[3].GetInt()); val(*t); }
    else if (op == "d") { flag(std::distance(a, b) == s[3].GetInt()); }
  }
  return o + "]";
}

template <class P, class X>
Str query(X const& x, JV const& q, int how, std::vector<P> const* slots = nullptr) {
  Str op = q[0].GetString();
  return guarded([&] () -> Str {
    if (op == "val") return okv(x);
    if (op == "type") {
      using T = typename X::type;
      switch (x.get_type()) {
        case T::object: return "[\"ok\",\"object\"]"; case T::array: return "[\"ok\",\"array\"]";
        case T::string: return "[\"ok\",\"string\"]"; case T::integer: return "[\"ok\",\"integer\"]";
        case T::decimal: return "[\"ok\",\"decimal\"]"; case T::boolean: return "[\"ok\",\"boolean\"]";
        case T::null: return "[\"ok\",\"null\"]";
      }
      return "[\"ok\",\"?\"]";
    }
    if (op == "is") {
      Str o = "[\"ok\",["; bool bs[] = {x.is_object(), x.is_array(), x.is_aggregate(), x.is_str(), x.is_integer(),
        x.is_decimal(), x.is_numeric(), x.is_boolean(), x.is_null(), x.is_primitive()};
      for (int i = 0; i < 10; ++i) { if (i) o += ','; o += bs[i] ? '1' : '0'; }
      return o + "]]";
    }
    if (op == "size") return okn((long long)x.size());
    if (op == "empty") return okb(x.empty());
    if (op == "fin") return okb(x.is_finalized());
    if (op == "get") return with_key<P>(q[1], how, slots, [&] (auto const& k) {
      if (how / 12 % 2) { X y(x); std::decay_t<decltype(x.get(k))> r(std::move(y).get(k)); return okv(r); }
      return okv(x.get(k)); });
    if (op == "br") return with_key<P>(q[1], how, slots, [&] (auto const& k) {
      if (how / 12 % 2) { X y(x); std::decay_t<decltype(x[k])> r(std::move(y)[k]); return okv(r); }
      return okv(x[k]); });
    if (op == "at") return with_key<P>(q[1], how, slots, [&] (auto const& k) {
      if (how / 12 % 2) { X y(x); std::decay_t<decltype(x.at(k))> r(std::move(y).at(k)); return okv(r); }
      return okv(x.at(k)); });
    if (op == "or") return owner_queries<X, P>::get_or(x, q, how, slots);
    if (op == "hask") {
      if (Str(q[1][0].GetString()) == "k") {
        Str key = dec_rle(q[1][1]);
        switch (how % 4) {
          case 1: if (key.find('\0') == Str::npos) return okb(x.has_key(key.c_str())); return okb(x.has_key(sv(key)));
          case 2: return okb(x.has_key(P::make_string(key)));
          case 3: return okb(x.has_key(typename P::string(P::make_string(key))));
          default: return okb(x.has_key(sv(key)));
        }
      }
      return okb(x.has_key(Str(q[1][0].GetString()) == "V" ? dec<P>(q[1][1]) : (*slots)[q[1][1].GetInt() - 1]));
    }
    if (op == "find" || op == "findkey") {
      Str key = dec_rle(q[1][1]); bool kk = op == "findkey";
      auto go = [&] (auto const& k) { return kk ? found_at(x, x.find_key(k), true) : found_at(x, x.find(k), false); };
      switch (how % 3) {
        case 1: if (key.find('\0') == Str::npos) return go(key.c_str()); return go(sv(key));
        case 2: return go(typename P::string(P::make_string(key)));
        default: return go(sv(key));
      }
    }
    if (op == "nest") {
      Str path = dec_rle(q[1]); char sep = char(q[2].GetInt());
      return okv(sep == '.' && how % 2 ? x.get_nested(path) : x.get_nested(path, sep));
    }
    if (op == "keys") { Str o; enc_vec(o, x.keys()); return okx(o); }
    if (op == "vals") { Str o; enc_vec(o, x.values()); return okx(o); }
    if (op == "fwd") { Str o; if (how % 2) enc_range(o, x.cbegin(), x.cend()); else enc_range(o, x.begin(), x.end()); return okx(o); }
    if (op == "rev") { Str o; enc_range(o, x.rbegin(), x.rend()); return okx(o); }
    if (op == "kfwd") { Str o; enc_range(o, x.key_begin(), x.key_end()); return okx(o); }
    if (op == "krev") { Str o; enc_range(o, x.rkey_begin(), x.rkey_end()); return okx(o); }
    if (op == "kv" || op == "rkv") {
      Str o = "["; bool first = true; size_t guard = 0;
      auto run = [&] (auto b, auto e) {
        auto k = std::get<0>(b); auto v = std::get<1>(b);
        while (v != std::get<1>(e) && k != std::get<0>(e)) {
          if (!first) o += ','; first = false;
          o += '['; enc(o, *k); o += ','; enc(o, *v); o += ']'; ++k; ++v;
          if (++guard > 100000) { o += ",[\"runaway\"]"; break; }
        }
        if ((v != std::get<1>(e)) || (k != std::get<0>(e))) o += ",[\"uneven\"]";
      };
      if (op == "kv") run(x.kvbegin(), x.kvend()); else run(x.rkvbegin(), x.rkvend());
      return okx(o + "]");
    }
    if (op == "walk") {
      switch (q[1].GetInt()) {
        case 0: return okx(how % 2 ? walk(x, x.begin(), x.begin(), x.end(), q[2]) : walk(x, x.cbegin(), x.begin(), x.cend(), q[2]));
        case 1: return okx(walk(x, x.key_begin(), std::get<0>(x.kvbegin()), x.key_end(), q[2]));
        case 2: return okx(walk(x, x.rbegin(), x.rbegin(), x.rend(), q[2]));
        default: return okx(walk(x, x.rkey_begin(), std::get<0>(x.rkvbegin()), x.rkey_end(), q[2]));
      }
    }
    if (op == "front") { if (how % 2) { X y(x); std::decay_t<decltype(x.front())> r(std::move(y).front()); return okv(r); } return okv(x.front()); }
    if (op == "back") { if (how % 2) { X y(x); std::decay_t<decltype(x.back())> r(std::move(y).back()); return okv(r); } return okv(x.back()); }
    if (op == "atfront") { if (how % 2) { X y(x); std::decay_t<decltype(x.at_front())> r(std::move(y).at_front()); return okv(r); } return okv(x.at_front()); }
    if (op == "atback") { if (how % 2) { X y(x); std::decay_t<decltype(x.at_back())> r(std::move(y).at_back()); return okv(r); } return okv(x.at_back()); }
    if (op == "frontor") return owner_queries<X, P>::front_or(x, q, how);
    if (op == "backor") return owner_queries<X, P>::back_or(x, q, how);
    if (op == "str") { if (how % 2) return okr(x.strv()); auto v = x.strv(); auto* s = x.str();
      if (s[v.size()] != '\0' || std::memcmp(s, v.data(), v.size())) return "[\"err\",\"str/strv differ\"]"; return okr(sv(s, v.size())); }
    if (op == "stror") { Str d = dec_rle(q[1]); if (how % 2 == 0) return okr(x.strv_or(d));
      auto* s = x.str_or(d.c_str()); return s == d.c_str() ? okr(d) : okr(sv(s, x.strv_or("").size())); }
    if (op == "int") return okl(uint64_t(x.integer()));
    if (op == "intor") return okl(uint64_t(x.integer_or(int64_t(dec_limbs(q[1], 0)))));
    if (op == "dec") return okl(dbits(x.decimal()));
    if (op == "decor") return okl(dbits(x.decimal_or(bitsd(dec_limbs(q[1], 0)))));
    if (op == "num") return okl(dbits(x.numeric()));
    if (op == "numor") return okl(dbits(x.numeric_or(bitsd(dec_limbs(q[1], 0)))));
    if (op == "flag") return okb(x.boolean());
    if (op == "flagor") return okb(x.boolean_or(q[1].GetInt() != 0));
    return "[\"err\",\"badquery\"]";
  });
}
