// Compares two abstract values in every pair of representations, and representations with native values.
//   usage: eq CASES TRACE     -DEQ_GROUP=0..8 left operand type, 9 typed wrappers, 10 native values
#define COMMON_IMPL
#include "query.hpp"
#include <map>

struct Out {
  std::map<Str, std::vector<Str>> by; std::vector<Str> order;
  void add(Str const& names, bool e, bool n) {
    Str k = Str(e ? "1," : "0,") + (n ? "1" : "0");
    auto& v = by[k]; if (v.empty()) order.push_back(k);
    if (v.size() < 400) v.push_back(names);
  }
};
static Out* g_out; static Str g_bad; static bool g_same;

template <class F> void safely(char const* what, F&& f) {
  Str r = guarded([&] () -> Str { f(); return "ok"; });
  if (r != "ok") { if (g_bad.size() > 1) g_bad += ','; g_bad += "[\"" + Str(what) + "\"," + r + "]"; }
}

// All representations of one value; every type keeps its owners alive.
template <class H, class B, class P>
struct Reps {
  std::vector<std::pair<Str, H>> h; std::vector<std::pair<Str, B>> b; std::vector<std::pair<Str, P>> p;
  std::vector<std::pair<Str, typename H::view>> hv; std::vector<std::pair<Str, typename B::view>> bv; std::vector<std::pair<Str, typename P::view>> pv;
  explicit Reps(JV const& v, int salt) {
    H x = dec<H>(v);
    h.emplace_back("heap", x); h.emplace_back("heap copy", x);
    h.emplace_back("heap element", H::make_array(x)[0]);
    { auto c = H::make_array(x); c.push_back(1); h.emplace_back("heap unshared", c.get(0)); }
    auto o = H::make_object("k", x, "pad", std::string(size_t(salt % 7), 'p'));
    B f = o.finalize();
    b.emplace_back("buffer element", f["k"]);
    b.emplace_back("buffer array element", H::make_object("k", H::make_array(salt, x)).finalize()["k"][1]);
    h.emplace_back("heap lifted", H(f["k"]));
    p.emplace_back("packet", dec<P>(v)); p.emplace_back("packet of heap", P(x)); p.emplace_back("packet of buffer", P(f["k"]));
    { P q = P::make_object("q", dec<P>(v)); q.finalize(); p.emplace_back("packet finalized element", q["q"]); }
    if (x.is_object()) {
      b.emplace_back("buffer", x.finalize()); b.emplace_back("buffer of bytes", B(x.finalize().get_bytes()));
      P q = dec<P>(v); q.finalize(); p.emplace_back("packet finalized", q); P l(q); l.lift(); p.emplace_back("packet lifted", l);
    }
    for (auto& e : h) hv.emplace_back(e.first + " view", typename H::view(e.second));
    for (auto& e : b) bv.emplace_back(e.first + " view", typename B::view(e.second));
    for (auto& e : p) pv.emplace_back(e.first + " view", typename P::view(e.second));
  }
};
using Safe = Reps<dart::heap, dart::buffer, dart::packet>;
using Unsafe = Reps<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet>;

template <class L, class R>
void cmp(Str const& nl, L const& l, Str const& nr, R const& r) {
  g_out->add(nl + " / " + nr, l == r, l != r);
}
template <class Ls, class Rs>
void cross(Ls const& ls, Rs const& rs) { for (auto& l : ls) for (auto& r : rs) cmp(l.first, l.second, r.first, r.second); }
template <class Ls>
void all_right(Ls const& ls, Safe const& s, Unsafe const& u) {
  cross(ls, s.h); cross(ls, s.b); cross(ls, s.p); cross(ls, s.hv); cross(ls, s.bv); cross(ls, s.pv); cross(ls, u.h); cross(ls, u.b); cross(ls, u.p);
}

template <class W, class Rs>
void wrapped(Str const& n, W const& w, Rs const& rs) {
  for (auto& r : rs) { cmp(n, w, r.first, r.second); cmp(r.first, r.second, n, w); }
}
template <class T, class F>
void wrap_each(JV const& v, T const& t, F&& f) {
  switch (v[0].GetString()[0]) {
    case 'o': f(typename T::object(t)); break;
    case 'a': f(typename T::array(t)); break;
    case 's': f(typename T::string(t)); break;
    case 'i': case 'd': f(typename T::number(t)); break;
    case 'b': f(typename T::flag(t)); break;
    default: f(typename T::null(t));
  }
}
template <class T>
void wrappers(JV const& v, Str const& n, T const& t, JV const& v2, T const& t2, Safe const& s) {
  wrap_each(v, t, [&] (auto const& w) {
    wrapped(n, w, s.h); wrapped(n, w, s.b); wrapped(n, w, s.p); wrapped(n, w, s.pv);
    wrap_each(v2, t2, [&] (auto const& w2) { cmp(n, w, "wrapped", w2); });
  });
}

template <class R, class N>
void nat(R const& r, N const& n, char const* what) {
  g_out->add(r.first + " / " + what, r.second == n, r.second != n);
  g_out->add(Str(what) + " / " + r.first, n == r.second, n != r.second);
}
template <class Rs>
void natives(Rs const& rs, JV const& v) {
  for (auto& r : rs) switch (v[0].GetString()[0]) {
    case 's': { Str s = dec_rle(v[1]); nat(r, s, "std::string"); nat(r, sv(s), "string_view");
      if (s.find('\0') == Str::npos) nat(r, s.c_str(), "char const*"); break; }
    case 'i': { int64_t n = int64_t(dec_limbs(v, 1)); nat(r, n, "int64_t"); if (n == int(n)) nat(r, int(n), "int"); if (n == short(n)) nat(r, short(n), "short");
      if (n >= 0) nat(r, size_t(n), "size_t"); break; }
    case 'd': { double d = bitsd(dec_limbs(v, 1)); nat(r, d, "double"); if (double(float(d)) == d) nat(r, float(d), "float"); break; }
    case 'b': nat(r, v[1].GetInt() != 0, "bool"); break;
    case 'n': nat(r, nullptr, "nullptr"); break;
    default: break;
  }
}

int main(int, char** argv) {
  std::ifstream in(argv[1]); Tracer tr(argv[2]); Str line;
  while (std::getline(in, line)) {
    rapidjson::Document op; op.Parse(line.data(), line.size());
    if (op.HasParseError()) return 3;
    Out out; g_out = &out; g_bad = "["; auto& a = op["a"]; auto& b = op["b"]; int h = op["h"].GetInt();
    safely("driver", [&] {
#if EQ_GROUP == 10
      Safe s(a, h); Unsafe u(a, h);
      natives(s.h, b); natives(s.b, b); natives(s.p, b); natives(s.hv, b); natives(s.bv, b); natives(s.pv, b); natives(u.p, b);
#elif EQ_GROUP == 9
      Safe s(b, h); Safe t(a, h + 1);
      wrappers(a, "wrapped heap", t.h[0].second, b, s.h[0].second, s);
      wrappers(a, "wrapped buffer", t.b[0].second, b, s.b[0].second, s);
      for (auto& p : t.p) wrappers(a, "wrapped " + p.first, p.second, b, s.p[0].second, s);
#else
      Safe s(b, h); Unsafe u(b, h);
#if EQ_GROUP < 6
      Safe t(a, h + 1);
#define L(X) all_right(t.X, s, u)
#else
      Unsafe t(a, h + 1);
#define L(X) all_right(t.X, s, u)
#endif
#if EQ_GROUP % 6 == 0
      L(h);
#elif EQ_GROUP % 6 == 1
      L(b);
#elif EQ_GROUP % 6 == 2
      L(p);
#elif EQ_GROUP == 3
      L(hv);
#elif EQ_GROUP == 4
      L(bv);
#else
      L(pv);
#endif
#endif
    });
    Str o = "{\"op\":" + line + ",\"bad\":" + g_bad + "],\"eq\":[";
    for (size_t i = 0; i < out.order.size(); ++i) {
      if (i) o += ',';
      auto& names = out.by[out.order[i]];
      o += "[" + out.order[i] + "," + std::to_string(names.size()) + ",\"" + names[0] + "; " + names[names.size() / 2] + "; " + names.back() + "\"]";
    }
    tr.line(o + "]}");
  }
  return 0;
}
