// Shared pieces of the conformance drivers: the JSON encoding of abstract values, outcomes,
// exception classes, a counting reference counter and the trace writer.
#pragma once
#include <dart.h>
#include <rapidjson/document.h>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <fstream>
#include <iostream>
#include <atomic>
#include <csignal>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
inline size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif

using JV = rapidjson::Value;
using sv = dart::shim::string_view;
using Str = std::string;

// ---------------------------------------------------------------- counting reference counter
extern std::atomic<long> g_live;

template <class T>
struct counted_block {
  T* ptr; void (*del)(counted_block*); void* ctx; std::atomic<long> use;
};

// Deliberately not a smart pointer: everything goes through dart::refcount, the extension point.
template <class T>
struct counted_ptr {
  counted_ptr() = delete;
  counted_ptr(counted_ptr const&) = delete;
  counted_ptr(counted_ptr&&) = delete;
  explicit counted_ptr(counted_block<T>* blk) noexcept : b(blk) {}
  ~counted_ptr() { drop(); }
  void drop() noexcept {
    if (b && b->use.fetch_sub(1, std::memory_order_acq_rel) == 1) { g_live.fetch_sub(1); b->del(b); }
    b = nullptr;
  }
  counted_block<T>* b;
};

namespace dart { namespace refcount {
  template <class T>
  struct element_type<counted_ptr<T>> { using type = T; };
  template <class T>
  struct construct<counted_ptr<T>> {
    template <class... Args>
    static void perform(counted_ptr<T>* that, Args&&... args) {
      auto* h = new counted_block<T>;
      h->ptr = new T(std::forward<Args>(args)...); h->use = 1; h->ctx = nullptr;
      h->del = [] (counted_block<T>* b) { delete b->ptr; delete b; };
      g_live.fetch_add(1);
      new(that) counted_ptr<T>(h);
    }
  };
  template <class T>
  struct take<counted_ptr<T>> {
    template <class D>
    struct holder : counted_block<T> { D d; explicit holder(D dd) : d(std::move(dd)) {} };
    template <class D>
    static void perform(counted_ptr<T>* that, std::nullptr_t, D&&) {
      new(that) counted_ptr<T>(static_cast<counted_block<T>*>(nullptr));
    }
    template <class D>
    static void perform(counted_ptr<T>* that, T* owner, D&& del) {
      if (!owner) { new(that) counted_ptr<T>(static_cast<counted_block<T>*>(nullptr)); return; }
      using H = holder<std::decay_t<D>>;
      auto* h = new H(std::forward<D>(del));
      h->ptr = owner; h->use = 1; h->ctx = nullptr;
      h->del = [] (counted_block<T>* b) { auto* hh = static_cast<H*>(b); hh->d(hh->ptr); delete hh; };
      g_live.fetch_add(1);
      new(that) counted_ptr<T>(static_cast<counted_block<T>*>(h));
    }
  };
  template <class T>
  struct copy<counted_ptr<T>> {
    static void perform(counted_ptr<T>* that, counted_ptr<T> const& rc) {
      if (rc.b) rc.b->use.fetch_add(1, std::memory_order_relaxed);
      new(that) counted_ptr<T>(rc.b);
    }
  };
  template <class T>
  struct move<counted_ptr<T>> {
    static void perform(counted_ptr<T>* that, counted_ptr<T>&& rc) {
      auto* b = rc.b; rc.b = nullptr; new(that) counted_ptr<T>(b);
    }
  };
  template <class T>
  struct unwrap<counted_ptr<T>> {
    static T* perform(counted_ptr<T> const& rc) { return rc.b ? rc.b->ptr : nullptr; }
  };
  template <class T>
  struct use_count<counted_ptr<T>> {
    static size_t perform(counted_ptr<T> const& rc) { return rc.b ? size_t(rc.b->use.load()) : 0; }
  };
  template <class T>
  struct reset<counted_ptr<T>> { static void perform(counted_ptr<T>& rc) { rc.drop(); } };
}}

// ---------------------------------------------------------------------------- JSON output
inline void num(Str& o, long long n) { o += std::to_string(n); }
inline void enc_rle(Str& o, sv s) {
  o += '['; bool first = true;
  for (size_t i = 0; i < s.size();) {
    size_t j = i; while (j < s.size() && s[j] == s[i] && j - i < 8000000) ++j;
    if (!first) o += ','; first = false;
    num(o, static_cast<unsigned char>(s[i]) + 256ll * static_cast<long long>(j - i));
    i = j;
  }
  o += ']';
}
inline void enc_limbs(Str& o, uint64_t u) {
  for (int i = 0; i < 4; ++i) { if (i) o += ','; num(o, (u >> (16 * i)) & 0xffff); }
}
inline uint64_t dbits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
inline double bitsd(uint64_t u) { double d; std::memcpy(&d, &u, 8); return d; }

inline Str dec_rle(JV const& v) {
  Str s;
  for (auto& r : v.GetArray()) { int64_t n = r.GetInt64(); s.append(size_t(n / 256), char(n % 256)); }
  return s;
}
inline uint64_t dec_limbs(JV const& v, int from) {
  uint64_t u = 0;
  for (int i = 3; i >= 0; --i) u = (u << 16) | uint64_t(v[from + i].GetInt());
  return u;
}

template <class X>
void enc(Str& o, X const& x, int depth = 0) {
  using T = typename X::type;
  if (depth > 200) { o += "[\"deep\"]"; return; }
  switch (x.get_type()) {
    case T::object: {
      o += "[\"o\",["; bool first = true;
      auto it = x.kvbegin(); auto end = x.kvend();
      auto k = std::get<0>(it); auto v = std::get<1>(it);
      size_t guard = 0;
      while (v != std::get<1>(end)) {
        if (!first) o += ','; first = false;
        o += '['; enc_rle(o, (*k).strv()); o += ','; enc(o, *v, depth + 1); o += ']';
        ++k; ++v;
        if (++guard > 100000) { o += ",[\"runaway\"]"; break; }
      }
      o += "]]"; break;
    }
    case T::array: {
      o += "[\"a\",["; bool first = true; size_t guard = 0;
      for (auto it = x.begin(); it != x.end(); ++it) {
        if (!first) o += ','; first = false; enc(o, *it, depth + 1);
        if (++guard > 100000) { o += ",[\"runaway\"]"; break; }
      }
      o += "]]"; break;
    }
    case T::string: o += "[\"s\","; enc_rle(o, x.strv()); o += ']'; break;
    case T::integer: o += "[\"i\","; enc_limbs(o, uint64_t(x.integer())); o += ']'; break;
    case T::decimal: o += "[\"d\","; enc_limbs(o, dbits(x.decimal())); o += ']'; break;
    case T::boolean: o += x.boolean() ? "[\"b\",1]" : "[\"b\",0]"; break;
    default: o += "[\"n\"]";
  }
}

// Build a mutable value of type P (basic_heap or basic_packet over an owning counter).
template <class P>
P dec(JV const& v) {
  char t = v[0].GetString()[0];
  switch (t) {
    case 'o': {
      auto x = P::make_object();
      for (auto& e : v[1].GetArray()) x.add_field(sv(dec_rle(e[0])), dec<P>(e[1]));
      return x;
    }
    case 'a': { auto x = P::make_array(); for (auto& e : v[1].GetArray()) x.push_back(dec<P>(e)); return x; }
    case 's': {     // in one part or in two
      Str t = dec_rle(v[1]); size_t n = t.size(), h = n + (n ? (unsigned char) t[n / 2] : 0), c = h % 4 == 1 ? 0 : h % 4 == 2 ? n / 2 : h % 4 == 3 ? n - n / 8 : n;
      return h % 4 ? P::make_string(sv(t).substr(0, c), sv(t).substr(c)) : P::make_string(t);
    }
    case 'i': return P::make_integer(int64_t(dec_limbs(v, 1)));
    case 'd': return P::make_decimal(bitsd(dec_limbs(v, 1)));
    case 'b': return P::make_boolean(v[1].GetInt() != 0);
    default: return P::make_null();
  }
}

// -------------------------------------------------------------------------------- outcomes
template <class F>
Str guarded(F&& f) {
  try { return f(); }
  catch (dart::type_error const&) { return "[\"err\",\"type\"]"; }
  catch (dart::state_error const&) { return "[\"err\",\"state\"]"; }
  catch (dart::parse_error const&) { return "[\"err\",\"parse\"]"; }
  catch (dart::validation_error const&) { return "[\"err\",\"valid\"]"; }
  catch (std::out_of_range const&) { return "[\"err\",\"range\"]"; }
  catch (std::invalid_argument const&) { return "[\"err\",\"arg\"]"; }
  catch (std::length_error const&) { return "[\"err\",\"length\"]"; }
  catch (std::logic_error const&) { return "[\"err\",\"logic\"]"; }
  catch (std::runtime_error const&) { return "[\"err\",\"runtime\"]"; }
  catch (std::bad_alloc const&) { return "[\"err\",\"alloc\"]"; }
  catch (std::exception const&) { return "[\"err\",\"other\"]"; }
  catch (...) { return "[\"err\",\"unknown\"]"; }
}
inline Str okn(long long n) { Str o = "[\"ok\","; num(o, n); return o + "]"; }
inline Str okb(bool b) { return okn(b ? 1 : 0); }
template <class X> Str okv(X const& x) { Str o = "[\"ok\","; enc(o, x); return o + "]"; }
inline Str okr(sv s) { Str o = "[\"ok\","; enc_rle(o, s); return o + "]"; }
inline Str okl(uint64_t u) { Str o = "[\"ok\",["; enc_limbs(o, u); return o + "]]"; }
inline Str okx(Str const& s) { return "[\"ok\"," + s + "]"; }

// ------------------------------------------------------------- trace output and crash handling
struct Tracer {
  FILE* f = nullptr;
  explicit Tracer(char const* path) { f = path ? std::fopen(path, "w") : stdout; if (!f) { perror(path); _exit(3); } }
  ~Tracer() { if (f) std::fclose(f); }
  void line(Str const& s) { std::fwrite(s.data(), 1, s.size(), f); std::fputc('\n', f); std::fflush(f); }
};
Str json_of(JV const& v);
#ifdef COMMON_IMPL
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
std::atomic<long> g_live{0};
Str json_of(JV const& v) {
  rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); v.Accept(w);
  return Str(b.GetString(), b.GetSize());
}
#endif
