// Executes programs of handle operations against libdart and records the trace.
//   usage: vm PROGRAM.ndjson TRACE.ndjson
// -DVM_P=type of the handle, -DVM_PACKET=0/1, -DVM_COUNTED=0/1
#define COMMON_IMPL
#include "query.hpp"

using P = VM_P;
using SrcOut = Str;

struct ItReg { bool on = false, keys = false; typename P::iterator it; size_t pos = 0, len = 0; };

#ifndef VM_TLS
#define VM_TLS
#endif
static VM_TLS std::vector<P> sl;
static VM_TLS std::vector<ItReg> its;
static VM_TLS std::vector<P> const* common = nullptr;      // slots shared by all threads, only read (thr.cc)
static P const& slot_at(size_t i) { return i < sl.size() ? sl[i] : (*common)[i - sl.size()]; }
static size_t slot_count() { return sl.size() + (common ? common->size() : 0); }

static bool same_slot(JV const& v, int d) { return v.IsArray() && Str(v[0].GetString()) != "lit" && v[1].GetInt() - 1 == d; }
static bool key_slot(JV const& k, int d) { return Str(k[0].GetString()) == "v" && k[1].GetInt() - 1 == d; }

// Calls f with the value argument spelled in the how-th way.
template <class F>
Str with_val(JV const& src, int how, F&& f) {
  Str kind = src[0].GetString();
  if (kind == "slot") return f(const_cast<P const&>(sl[src[1].GetInt() - 1]));
  if (kind == "mslot") return f(std::move(sl[src[1].GetInt() - 1]));
  JV const& v = src[1]; char t = v[0].GetString()[0];
  switch (how % 4) {
    case 1: { P const p = dec<P>(v); return f(p); }
    case 2:   // native value
      if (t == 'i') { int64_t n = int64_t(dec_limbs(v, 1)); return f(n); }
      if (t == 'd') { double d = bitsd(dec_limbs(v, 1)); return f(d); }
      if (t == 'b') { bool b = v[1].GetInt(); return f(b); }
      if (t == 's') { Str s = dec_rle(v[1]); return f(sv(s)); }
      if (t == 'n') return f(nullptr);
      return f(dec<P>(v));
    case 3:   // typed wrapper
      if (t == 's') return f(typename P::string(dec<P>(v)));
      if (t == 'i' || t == 'd') return f(typename P::number(dec<P>(v)));
      if (t == 'o') return f(typename P::object(dec<P>(v)));
      if (t == 'a') return f(typename P::array(dec<P>(v)));
      return f(dec<P>(v));
    default: return f(dec<P>(v));
  }
}

// Key and value spelled; the two are varied one at a time to bound the instantiations.
template <class F>
Str with_kv(JV const& K, JV const& V, int how, F&& f) {
  Str kk = K[0].GetString();
  if (kk == "k" && how % 5 == 4) {
    Str key = dec_rle(K[1]);
    return with_val(V, how / 5, [&] (auto&& v) { return f(sv(key), std::forward<decltype(v)>(v)); });
  }
  auto with = [&] (auto&& v) -> Str {
    if (kk == "k") {
      Str key = dec_rle(K[1]);
      switch (how % 4) {
        case 0: return f(sv(key), std::forward<decltype(v)>(v));
        case 1: return f(Str(key), std::forward<decltype(v)>(v));
        case 2: return f(P::make_string(key), std::forward<decltype(v)>(v));
        default: return f(typename P::string(P::make_string(key)), std::forward<decltype(v)>(v));
      }
    } else if (kk == "x") {
      auto n = K[1].GetInt64();
      switch (how % 4) {
        case 0: return f(size_t(n), std::forward<decltype(v)>(v));
        case 1: return f(int(n), std::forward<decltype(v)>(v));
        case 2: return f(P::make_integer(n), std::forward<decltype(v)>(v));
        default: return f(typename P::number(P::make_integer(n)), std::forward<decltype(v)>(v));
      }
    } else {
      return f(const_cast<P const&>(sl[K[1].GetInt() - 1]), std::forward<decltype(v)>(v));
    }
  };
  Str vk = V[0].GetString();
  if (vk == "slot") return with(const_cast<P const&>(sl[V[1].GetInt() - 1]));
  if (vk == "mslot") return with(std::move(sl[V[1].GetInt() - 1]));
  return with(dec<P>(V[1]));
}

template <class X>
Str pos_of(X const& x, typename P::iterator it) {
  auto b = x.begin(), e = x.end(); long n = 0;
  while (b != it) { if (b == e || n > 100000) return okn(-9); ++b; ++n; }
  return okn(n);
}

// Run f on a typed wrapper holding the slot's value; whatever happens the value comes back.
template <class W, class F>
Str via(P& slot, F&& f) {
  { W probe(const_cast<P const&>(slot)); }     // throws if the type is wrong
  W w(std::move(slot));
  try { Str r = f(w); slot = std::move(w).dynamic(); return r; }
  catch (...) { slot = std::move(w).dynamic(); throw; }
}

static typename P::iterator nth(P const& p, long n) { auto it = p.begin(); while (n--) ++it; return it; }

static Str do_ins(JV const& op, int d, int how, bool set) {
  P& t = sl[d]; JV const& K = op["k"]; JV const& V = op["v"]; Str kk = K[0].GetString();
  bool self = same_slot(V, d) || key_slot(K, d);
  if (kk == "it") {
    long n = K[1].GetInt();
    return with_val(V, how, [&] (auto&& v) -> Str {
      using VV = decltype(v);
      if (how % 3 == 2 && !self && t.is_array())
        return via<typename P::array>(t, [&] (auto& w) { auto it = w.begin(); for (long i = 0; i < n; ++i) ++it;
          auto r = set ? w.set(it, std::forward<VV>(v)) : w.insert(it, std::forward<VV>(v)); return pos_of(w, r); });
      if (how % 3 == 2 && !self && t.is_object())
        return via<typename P::object>(t, [&] (auto& w) { auto it = w.begin(); for (long i = 0; i < n; ++i) ++it;
          auto r = set ? w.set(it, std::forward<VV>(v)) : w.insert(it, std::forward<VV>(v)); return pos_of(w, r); });
      auto it = nth(t, n);
      auto r = set ? t.set(it, std::forward<VV>(v)) : t.insert(it, std::forward<VV>(v));
      return pos_of(t, r);
    });
  }
  int sub = (how / 20) % 4;
  if (set) {
    if (sub == 3 && !self && kk == "k")
      return with_kv(K, V, how, [&] (auto&& k, auto&& v) { return via<typename P::object>(t, [&] (auto& w) {
        return pos_of(w, w.set(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v))); }); });
    if (sub == 3 && !self && kk == "x")
      return with_kv(K, V, how, [&] (auto&& k, auto&& v) { return via<typename P::array>(t, [&] (auto& w) {
        return pos_of(w, w.set(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v))); }); });
    return with_kv(K, V, how, [&] (auto&& k, auto&& v) { return pos_of(t, t.set(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v))); });
  }
  if (kk == "k" && !self && sub == 3)
    return with_kv(K, V, how, [&] (auto&& k, auto&& v) { return via<typename P::object>(t, [&] (auto& w) {
      return pos_of(w, w.insert(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v))); }); });
  if (kk == "k" && !self && sub == 2)
    return with_kv(K, V, how, [&] (auto&& k, auto&& v) { return via<typename P::object>(t, [&] (auto& w) {
      w.add_field(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v)); return okn(-2); }); });
  if (kk == "x" && !self && sub == 3)
    return with_kv(K, V, how, [&] (auto&& k, auto&& v) { return via<typename P::array>(t, [&] (auto& w) {
      return pos_of(w, w.insert(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v))); }); });
  if (kk == "k" && sub == 1)
    return with_kv(K, V, how, [&] (auto&& k, auto&& v) {
      if (how % 2) t.add_field(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v));
      else (void) std::move(t).add_field(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v));
      return okn(-2); });
  return with_kv(K, V, how, [&] (auto&& k, auto&& v) { return pos_of(t, t.insert(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v))); });
}

static Str do_del(JV const& op, int d, int how) {
  P& t = sl[d]; JV const& K = op["k"]; Str kk = K[0].GetString();
  bool self = key_slot(K, d); int sub = (how / 12) % 3;
  if (kk == "it") {
    long n = K[1].GetInt();
    if (how % 3 == 1 && t.is_array()) return via<typename P::array>(t, [&] (auto& w) { auto it = w.begin(); for (long i = 0; i < n; ++i) ++it; return pos_of(w, w.erase(it)); });
    if (how % 3 == 1 && t.is_object()) return via<typename P::object>(t, [&] (auto& w) { auto it = w.begin(); for (long i = 0; i < n; ++i) ++it; return pos_of(w, w.erase(it)); });
    return pos_of(t, t.erase(nth(t, n)));
  }
  if (kk == "k") {
    if (sub == 1) return with_skey<P>(K, how, [&] (auto const& k) {
      if (how % 2) t.remove_field(k); else (void) std::move(t).remove_field(k);
      return okn(-2); });
    if (sub == 2 && how % 2) return with_skey<P>(K, how, [&] (auto const& k) { return via<typename P::object>(t, [&] (auto& w) { w.remove_field(k); return okn(-2); }); });
    if (sub == 2) return with_skey<P>(K, how, [&] (auto const& k) { return via<typename P::object>(t, [&] (auto& w) { return pos_of(w, w.erase(k)); }); });
    return with_skey<P>(K, how, [&] (auto const& k) { return pos_of(t, t.erase(k)); });
  }
  if (kk == "x") {
    if (sub == 2) { switch (how % 3) {
      case 0: return via<typename P::array>(t, [&] (auto& w) { return pos_of(w, w.erase(size_t(K[1].GetInt64()))); });
      case 1: return via<typename P::array>(t, [&] (auto& w) { return pos_of(w, w.erase(P::make_integer(K[1].GetInt64()))); });
      default: return via<typename P::array>(t, [&] (auto& w) { return pos_of(w, w.erase(typename P::number(P::make_integer(K[1].GetInt64())))); });
    } }
    switch (how % 3) {
      case 0: return pos_of(t, t.erase(size_t(K[1].GetInt64())));
      case 1: return pos_of(t, t.erase(P::make_integer(K[1].GetInt64())));
      default: return pos_of(t, t.erase(typename P::number(P::make_integer(K[1].GetInt64()))));
    }
  }
  (void) self;
  return pos_of(t, t.erase(const_cast<P const&>(sl[K[1].GetInt() - 1])));
}

static Str do_push(JV const& op, int d, int how, bool back) {
  P& t = sl[d]; bool self = same_slot(op["v"], d); int sub = (how / 4) % 3;
  return with_val(op["v"], how, [&] (auto&& v) -> Str {
    using VV = decltype(v);
    if (sub == 2 && !self) return via<typename P::array>(t, [&] (auto& w) -> Str {
      if (back) w.push_back(std::forward<VV>(v)); else w.push_front(std::forward<VV>(v)); return "[\"ok\"]"; });
    if (sub == 1) { if (back) (void) std::move(t).push_back(std::forward<VV>(v)); else (void) std::move(t).push_front(std::forward<VV>(v)); }
    else { if (back) t.push_back(std::forward<VV>(v)); else t.push_front(std::forward<VV>(v)); }
    return "[\"ok\"]";
  });
}

static Str do_pop(int d, int how, bool back) {
  P& t = sl[d];
  if (how % 3 == 2) return via<typename P::array>(t, [&] (auto& w) -> Str { if (back) w.pop_back(); else w.pop_front(); return "[\"ok\"]"; });
  if (how % 3 == 1) { if (back) (void) std::move(t).pop_back(); else (void) std::move(t).pop_front(); }
  else { if (back) t.pop_back(); else t.pop_front(); }
  return "[\"ok\"]";
}

static Str do_fetch(JV const& op, int d, int s, int how, bool rv) {
  JV const& H = op["k"]; Str h = H[0].GetString(); P& x = sl[s]; P const& cx = x;
  Str const ok = "[\"ok\"]";
  auto put = [&] (P v) -> Str { sl[d] = std::move(v); return "[\"ok\"]"; };
  if (h == "self") { switch (how % 4) {
    case 1: { typename P::view v = cx; return put(v.as_owner()); }
    case 2: { P tmp(cx); P tmp2; tmp2 = tmp; return put(std::move(tmp2)); }
    case 3: { std::vector<P> vec(3, cx); vec.erase(vec.begin()); return put(vec[1]); }
    default: return put(cx);
  } }
  if (h == "get" && rv) return with_key<P>(H[1], how, &sl, [&] (auto const& k) { P tmp((how / 4) % 2 ? std::move(x)[k] : std::move(x).get(k)); return put(std::move(tmp)); });
  if (h == "at" && rv) return with_key<P>(H[1], how, &sl, [&] (auto const& k) { P tmp(std::move(x).at(k)); return put(std::move(tmp)); });
  if (h == "get") return with_key<P>(H[1], how, &sl, [&] (auto const& k) { return put((how / 4) % 2 ? cx[k] : cx.get(k)); });
  if (h == "at") return with_key<P>(H[1], how, &sl, [&] (auto const& k) { return put(cx.at(k)); });
  if (h == "or") {
    JV const& D = H[2];
    if (Str(D[0].GetString()) == "lit" && how % 2) return with_key<P>(H[1], how / 2, &sl, [&] (auto const& k) { return put(cx.get_or(k, dec<P>(D[1]))); });
    P dflt = Str(D[0].GetString()) == "lit" ? dec<P>(D[1]) : sl[D[1].GetInt() - 1];
    return with_key<P>(H[1], how / 2, &sl, [&] (auto const& k) { return put(cx.get_or(k, dflt)); });
  }
  if (h == "front") { if (rv) { P tmp(std::move(x).front()); return put(std::move(tmp)); } return put(cx.front()); }
  if (h == "back") { if (rv) { P tmp(std::move(x).back()); return put(std::move(tmp)); } return put(cx.back()); }
  if (h == "atfront") { if (rv) { P tmp(std::move(x).at_front()); return put(std::move(tmp)); } return put(cx.at_front()); }
  if (h == "atback") { if (rv) { P tmp(std::move(x).at_back()); return put(std::move(tmp)); } return put(cx.at_back()); }
  if (h == "nest") { Str path = dec_rle(H[1]); char sep = char(H[2].GetInt()); return put(cx.get_nested(path, sep)); }
  if (h == "nth") {
    long n = H[1].GetInt(), sz = long(cx.is_aggregate() ? cx.size() : 0);
    if (!cx.is_aggregate()) { if (how % 2) return put(cx.values().at(0)); return put(*cx.begin()); }
    if (n >= sz) return "[\"skip\"]";
    switch (how % 4) {
      case 0: return put(*nth(cx, n));
      case 1: return put(cx.values()[size_t(n)]);
      case 2: { auto it = cx.rbegin(); for (long i = 0; i < sz - 1 - n; ++i) ++it; return put(*it); }
      default: { if (cx.is_object()) { auto kv = cx.kvbegin(); for (long i = 0; i < n; ++i) { ++std::get<1>(kv); } return put(*std::get<1>(kv)); }
        auto it = cx.end(); for (long i = 0; i < sz - n; ++i) --it; auto cp = it; return put(*cp); }
    }
  }
  if (h == "nthkey") {
    long n = H[1].GetInt(), sz = long(cx.is_object() ? cx.size() : 0);
    if (!cx.is_object()) { if (how % 2) return put(cx.keys().at(0)); return put(*cx.key_begin()); }
    if (n >= sz) return "[\"skip\"]";
    switch (how % 3) {
      case 0: { auto it = cx.key_begin(); for (long i = 0; i < n; ++i) it++; return put(*it); }
      case 1: return put(cx.keys()[size_t(n)]);
      default: { auto kv = cx.kvbegin(); for (long i = 0; i < n; ++i) ++std::get<0>(kv); return put(*std::get<0>(kv)); }
    }
  }
  return "[\"err\",\"badfetch\"]";
}

#if VM_PACKET
template <template <class> class RC>
dart::basic_packet<RC> deep_of(dart::basic_packet<RC> const& p, int how) {
  using Q = dart::basic_packet<RC>;
  if (how % 3 == 1 && !p.is_finalized()) return Q(dart::basic_heap<dart::unsafe_ptr>::template transmogrify<RC>(
        dart::basic_heap<RC>::template transmogrify<dart::unsafe_ptr>(dart::basic_heap<RC>(p))));
  if (how % 3 == 2 && p.is_object()) { Q c(p); bool f = p.is_finalized();
    if (f) { c.lift(); c.finalize(); } else { c.finalize(); c.lift(); } return c; }
  if (p.is_finalized() && !p.is_object()) { Q c(p); return c; }
  return dart::basic_packet<dart::unsafe_ptr>::template transmogrify<RC>(Q::template transmogrify<dart::unsafe_ptr>(p));
}
#else
template <template <class> class RC>
dart::basic_heap<RC> deep_of(dart::basic_heap<RC> const& p, int how) {
  using Q = dart::basic_heap<RC>;
  if (how % 2 && p.is_object()) return Q(how % 4 == 1 ? p.finalize() : p.lower());
  return dart::basic_heap<dart::unsafe_ptr>::template transmogrify<RC>(Q::template transmogrify<dart::unsafe_ptr>(p));
}
#endif

static Str do_inj(JV const& op, int d, int s, int how) {
  P const& x = sl[s]; JV const& ps = op["p"];
  auto keyp = [&] (size_t i) -> P { JV const& K = ps[i][0]; return Str(K[0].GetString()) == "k" ? P::make_string(dec_rle(K[1])) : sl[K[1].GetInt() - 1]; };
  auto valp = [&] (size_t i) -> P { JV const& V = ps[i][1]; return Str(V[0].GetString()) == "lit" ? dec<P>(V[1]) : sl[V[1].GetInt() - 1]; };
  if (how % 3 == 0 && ps.Size() == 1) {
    auto r = x.inject(keyp(0), valp(0)); sl[d] = std::move(r);
  } else if (how % 3 == 0 && ps.Size() == 2) {
    auto r = x.inject(keyp(0), valp(0), keyp(1), valp(1)); sl[d] = std::move(r);
  } else if (how % 3 == 1 && x.is_object()) {
    std::vector<P> v; for (size_t i = 0; i < ps.Size(); ++i) { v.push_back(keyp(i)); v.push_back(valp(i)); }
    typename P::object w(x);
    P r = w.inject(gsl::span<P const>(v)).dynamic(); sl[d] = std::move(r);
  } else {
    std::vector<P> v; for (size_t i = 0; i < ps.Size(); ++i) { v.push_back(keyp(i)); v.push_back(valp(i)); }
    auto r = x.inject(gsl::span<P const>(v)); v.clear(); sl[d] = std::move(r);
  }
  return "[\"ok\"]";
}

static Str do_proj(JV const& op, int d, int s, int how) {
  P const& x = sl[s]; std::vector<Str> ks; for (auto& k : op["p"].GetArray()) ks.push_back(dec_rle(k));
  if (how % 4 == 0 && ks.size() == 2) { auto r = x.project({sv(ks[0]), sv(ks[1])}); sl[d] = std::move(r); }
  else if (how % 4 == 1) { std::vector<sv> v(ks.begin(), ks.end()); auto r = x.project(gsl::span<sv const>(v)); sl[d] = std::move(r); }
  else if (how % 4 == 2 && x.is_object()) { typename P::object w(x); P r = w.project(ks).dynamic(); sl[d] = std::move(r); }
  else { auto r = x.project(gsl::span<Str const>(ks)); sl[d] = std::move(r); }
  return "[\"ok\"]";
}

static Str exec(JV const& op) {
  Str o = op["o"].GetString();
  auto gi = [&] (char const* f) { return op.HasMember(f) && op[f].IsInt() ? op[f].GetInt() : 0; };
  int d = gi("d") - 1, s = gi("s") - 1, how = gi("h");
  Str const ok = "[\"ok\"]";
  if (o == "new") { P v = dec<P>(op["v"]); sl[d] = std::move(v); return ok; }
  if (o == "copy") {
    switch (how % 3) {
      case 1: { P t(sl[s]); sl[d] = std::move(t); break; }
      case 2: { typename P::view v = sl[s]; P t = v.as_owner(); sl[d] = std::move(t); break; }
      default: { P const& r = sl[s]; sl[d] = r; }
    }
    return ok;
  }
  if (o == "move") { if (how % 2) { P t(std::move(sl[s])); sl[d] = std::move(t); } else sl[d] = std::move(sl[s]); return ok; }
  if (o == "swap") { std::swap(sl[d], sl[s]); return ok; }
  if (o == "drop") {
    if (how % 3 == 0) sl[d] = P(); else if (how % 3 == 1) sl[d] = P::make_null(); else { sl[d].~P(); new(&sl[d]) P(); }
    return ok;
  }
  if (o == "fetch") return do_fetch(op, d, s, how, false);
  if (o == "rfetch") return do_fetch(op, d, s, how, true);
  if (o == "ins") return do_ins(op, d, how, false);
  if (o == "set") return do_ins(op, d, how, true);
  if (o == "del") return do_del(op, d, how);
  if (o == "pushb") return do_push(op, d, how, true);
  if (o == "pushf") return do_push(op, d, how, false);
  if (o == "popb") return do_pop(d, how, true);
  if (o == "popf") return do_pop(d, how, false);
  if (o == "clear") {
    P& t = sl[d];
    if (how % 3 == 1 && t.is_array()) return via<typename P::array>(t, [&] (auto& w) { w.clear(); return ok; });
    if (how % 3 == 1 && t.is_object()) return via<typename P::object>(t, [&] (auto& w) { w.clear(); return ok; });
    t.clear(); return ok;
  }
  if (o == "resize") {
    size_t n = size_t(op["n"].GetInt());
    JV const& V = op["v"]; bool self = same_slot(V, d); P& t = sl[d];
    if (Str(V[0].GetString()) == "lit" && Str(V[1][0].GetString()) == "n" && how % 2) {
      if (how % 4 == 1) t.resize(n); else return via<typename P::array>(t, [&] (auto& w) { w.resize(n); return ok; });
      return ok;
    }
    return with_val(V, how, [&] (auto&& v) -> Str {
      if (how % 3 == 1 && !self) return via<typename P::array>(t, [&] (auto& w) { w.resize(n, v); return ok; });
      t.resize(n, v); return ok; });
  }
  if (o == "reserve") {
    size_t n = size_t(op["n"].GetInt());
    auto check = [&] (auto& w) -> Str { w.reserve(n); return w.capacity() >= n ? "[\"ok\"]" : "[\"ok\",\"capacity\"]"; };
    if (how % 2) return via<typename P::array>(sl[d], check);
    return check(sl[d]);
  }
  if (o == "deep") { P t = deep_of(const_cast<P const&>(sl[s]), how); sl[d] = std::move(t); return ok; }
  if (o == "inj") return do_inj(op, d, s, how);
  if (o == "proj") return do_proj(op, d, s, how);
#if VM_PACKET
  if (o == "fin") {
    P& t = sl[d];
    if (how % 4 == 1) t.lower();
    else if (how % 4 == 2) (void) std::move(t).finalize();
    else if (how % 4 == 3 && t.is_object()) { typename P::object w(std::move(t)); w.finalize(); t = std::move(w).dynamic(); }
    else t.finalize();
    return t.is_finalized() ? ok : "[\"ok\",\"not finalized\"]";
  }
  if (o == "lift") {
    P& t = sl[d];
    if (how % 4 == 1) t.definalize();
    else if (how % 4 == 2) (void) std::move(t).lift();
    else if (how % 4 == 3 && t.is_object()) { typename P::object w(std::move(t)); w.lift(); t = std::move(w).dynamic(); }
    else t.lift();
    return t.is_finalized() ? "[\"ok\",\"still finalized\"]" : ok;
  }
  if (o == "itnew") {
    P const& x = sl[s]; bool keys = gi("n") == 1; auto& r = its[gi("i") - 1];
    if (!x.is_finalized() || !x.is_aggregate() || (keys && !x.is_object())) return "[\"skip\"]";
    r.it = keys ? x.key_begin() : x.begin(); r.keys = keys; r.on = true; r.pos = 0; r.len = x.size();
    return ok;
  }
#else
  if (o == "fin" || o == "lift" || o == "itnew") return "[\"skip\"]";
#endif
  if (o == "itadv") { auto& r = its[gi("i") - 1]; if (!r.on || r.pos >= r.len) return "[\"skip\"]";
    if (how % 2) ++r.it; else r.it++; ++r.pos; return ok; }
  if (o == "itback") { auto& r = its[gi("i") - 1]; if (!r.on || r.pos == 0) return "[\"skip\"]";
    if (how % 2) --r.it; else r.it--; --r.pos; return ok; }
  if (o == "itget") { auto& r = its[gi("i") - 1]; if (!r.on || r.pos >= r.len) return "[\"skip\"]"; sl[d] = *r.it; return ok; }
  if (o == "itcopy") { auto& a = its[gi("i") - 1]; auto& b = its[gi("n") - 1]; if (&a != &b) b = a; return ok; }
  if (o == "itdrop") { auto& r = its[gi("i") - 1]; r.it = typename P::iterator(); r.on = false; r.pos = r.len = 0; return ok; }
  return "[\"err\",\"badop\"]";
}

static int sso_limit() {
  for (int n = 0; n <= 64; ++n) { P a = P::make_string(Str(size_t(n), 'q')); P b(a); if (a.refcount() > 1) return n - 1; }
  return 64;
}

#ifndef VM_RC
#define VM_RC(p) ((long long)(p).refcount())
#endif
static void project(Str& o) {
  o += ",\"p\":[";
  for (size_t i = 0; i < slot_count(); ++i) {
    if (i) o += ',';
    o += '[';
    enc(o, slot_at(i)); o += ','; num(o, VM_RC(slot_at(i))); o += ',';
    o += (!slot_at(i).is_null() && slot_at(i).is_finalized()) ? '1' : '0';
    o += ']';
  }
  o += "],\"live\":"; num(o, VM_COUNTED ? g_live.load() : -1);
}

// The value as it is read back from its JSON text or from its bytes (a value without an exact text answers for itself:
// which decimals survive the text is C05's business, only short ones are used here).
static bool has_text(P const& x) {
  if (x.is_decimal()) return std::fabs(x.decimal()) < 1e6 && x.decimal() * 8 == std::floor(x.decimal() * 8);
  if (x.is_aggregate()) for (auto const& e : x.values()) if (!has_text(e)) return false;
  return true;
}
static Str round_trip(P const& x, bool text, int how) {
  return guarded([&] () -> Str {
    if (text) {
      if (!has_text(x)) return okv(x);
      Str t = x.to_json();
      if (how % 3 == 0) return okv(P::from_json("[" + t + "]")[0]);
#if VM_PACKET
      if (how % 3 == 1) return okv(P::from_json("{\"v\":" + t + "}", true)["v"]);
#endif
      return okv(P::from_json("{\"v\":" + t + "}")["v"]);
    }
    P o = P::make_object("w", x); auto&& b = o.finalize();
    if (!dart::is_valid(b.get_bytes())) return "[\"ok\",\"invalid\"]";
    return okv(b["w"]);
  });
}

static Str step_line(Str const& line) {
  rapidjson::Document op; op.Parse(line.data(), line.size());
  if (op.HasParseError()) { std::fprintf(stderr, "bad program line\n"); _exit(3); }
  Str out = "{\"op\":" + line + ",\"out\":" + guarded([&] { return exec(op); });
  if (op.HasMember("q")) {
    out += ",\"qr\":["; bool f1 = true;
    int how = op.HasMember("h") ? op["h"].GetInt() : 0;
    for (auto& e : op["q"].GetArray()) {
      if (!f1) out += ','; f1 = false;
      P const& x = slot_at(size_t(e[0].GetInt() - 1)); Str kind = e[1][0].GetString();
      out += kind == "json" || kind == "wire" ? round_trip(x, kind == "json", how++) : query<P>(x, e[1], how++, &sl);
    }
    out += ']';
  }
  if (!op.HasMember("np")) project(out);
  return out + "}";
}

#ifndef VM_NO_MAIN
// One program: everything it allocates must be gone when it returns.
static long run_program(std::vector<Str> const& lines, size_t from, size_t to, Tracer& tr) {
  size_t before = __sanitizer_get_current_allocated_bytes();
  {
    rapidjson::Document r; r.Parse(lines[from].data(), lines[from].size());
    sl.resize(size_t(r["slots"].GetInt())); its.resize(size_t(r["its"].GetInt()));
  }
  for (size_t i = from + 1; i < to; ++i) tr.line(step_line(lines[i]));
  { std::vector<P> a; a.swap(sl); std::vector<ItReg> b; b.swap(its); }
  return long(__sanitizer_get_current_allocated_bytes()) - long(before);
}

int main(int argc, char** argv) {
  if (argc == 2 && Str(argv[1]) == "--sso") { std::printf("%d\n", sso_limit()); return 0; }
  std::ifstream in(argv[1]); Str line; std::vector<Str> lines;
  while (std::getline(in, line)) lines.push_back(line);
  Tracer tr(argv[2]);
  int sso = sso_limit(); bool first = true; long leak = 0;
  for (size_t i = 0; i < lines.size();) {
    size_t j = i + 1;
    while (j < lines.size() && lines[j].compare(0, 12, "{\"o\":\"reset\"") != 0) ++j;
    tr.line("{\"op\":" + lines[i] + ",\"out\":[\"ok\"],\"sso\":" + std::to_string(sso) + ",\"sw\":" + std::to_string(int(VM_PACKET))
        + ",\"live\":" + std::to_string(VM_COUNTED ? g_live.load() : 0) + ",\"leak\":" + std::to_string(leak) + "}");
    leak = run_program(lines, i, j, tr);
    if (first) { leak = 0; first = false; }    // lazily allocated statics
    i = j;
  }
  tr.line(Str("{\"op\":{\"o\":\"end\"},\"out\":[\"ok\"],\"live\":") + std::to_string(VM_COUNTED ? g_live.load() : 0)
      + ",\"leak\":" + std::to_string(leak) + "}");
  return 0;
}
#endif
