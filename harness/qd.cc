// Asks every query of many representations of the same abstract value.
//   usage: qd CASES.ndjson TRACE.ndjson      -DQD_GROUP=0 heaps, 1 buffers, 2 packets, 3 unsafe counters
#define COMMON_IMPL
#include "query.hpp"
#include <map>

static JV const* g_qs; static int g_case; static Str g_bad;
struct Collector {
  std::map<Str, std::vector<Str>> by; std::vector<Str> order; int rep = 0;
  void add(Str const& name, Str const& out) {
    auto it = by.find(out);
    if (it == by.end()) { order.push_back(out); by[out] = {name}; } else it->second.push_back(name);
  }
};

template <class P, class X>
void ask(Collector& c, char const* name, X const& x) {
  Str o = "["; int i = 0; ++c.rep;
  for (auto& q : g_qs->GetArray()) {
    if (i) o += ',';
    o += query<P>(x, q, g_case + c.rep * 5 + i++);
  }
  c.add(name, o + "]");
}
// Building a representation may itself fail; that is an answer, too.
template <class F>
void rep(Collector& c, char const* name, F&& f) {
  Str r = guarded([&] () -> Str { f(); return "ok"; });
  if (r != "ok") { if (g_bad.size() > 1) g_bad += ','; g_bad += "[\"" + Str(name) + "\"," + r + "]"; }
}

static void expect(char const* name, bool f) {
  if (f) return;
  if (g_bad.size() > 1) g_bad += ','; g_bad += "[\"" + Str(name) + "\"]";
}
// The typed wrapper of x says the same about the handle as x itself.
template <class X, class W>
void handle(X const& x, W const& w) {
  expect("wrapper is_view", w.is_view() == x.is_view()); expect("wrapper finalized", w.is_finalized() == x.is_finalized());
  expect("wrapper refcount", (x.is_view() || x.is_null() || (w.refcount() == x.refcount() && x.refcount() >= 1)));
  expect("wrapper dynamic", &w.dynamic() == &w.dynamic());
}
template <class X> void handles(X const& x) {
  if (x.is_object()) handle(x, typename X::object(x));
  if (x.is_array()) handle(x, typename X::array(x));
  if (x.is_str()) handle(x, typename X::string(x));
  if (x.is_numeric()) handle(x, typename X::number(x));
  if (x.is_boolean()) handle(x, typename X::flag(x));
  if (x.is_null()) handle(x, typename X::null(x));
}
template <class T, class X> T const& through(X const& x) { T const& r = *x.operator ->(); return r; }

template <class H>
typename std::decay<decltype(std::declval<H const&>().finalize())>::type wrap_buf(H const& h, bool arr) {
  auto o = H::make_object();
  if (arr) { auto a = H::make_array(); a.push_back(h); o.add_field("kk", a); } else o.add_field("kk", h);
  o.add_field("zzz", H::make_string("tail")); o.add_field("a", H::make_boolean(true));
  return o.finalize();
}

template <template <template <class> class> class B, template <class> class RC>
B<RC> via_shared(B<RC> const& b) { RC<gsl::byte const> p; b.share_bytes(p); return B<RC>(std::move(p)); }

// There and back: the value moves to the other reference counter and returns.
#if QD_GROUP < 3
template <class T> struct other;
template <> struct other<dart::heap> { using type = dart::unsafe_heap; };
template <> struct other<dart::buffer> { using type = dart::unsafe_buffer; };
template <> struct other<dart::packet> { using type = dart::unsafe_packet; };
#define QD_BACK(T, x) (other<T>::type::template transmogrify<std::shared_ptr>(T::template transmogrify<dart::unsafe_ptr>(x)))
#else
template <class T> struct other;
template <> struct other<dart::unsafe_heap> { using type = dart::heap; };
template <> struct other<dart::unsafe_buffer> { using type = dart::buffer; };
template <> struct other<dart::unsafe_packet> { using type = dart::packet; };
#define QD_BACK(T, x) (other<T>::type::template transmogrify<dart::unsafe_ptr>(T::template transmogrify<std::shared_ptr>(x)))
#endif

template <class H>
void heaps(Collector& c, JV const& v) {
  H h = dec<H>(v);
  ask<H>(c, "heap", h);
  rep(c, "heap copy", [&] { H d(h); ask<H>(c, "heap copy", d); });
  rep(c, "heap view", [&] { typename H::view w = h; ask<H>(c, "heap view", w); ask<H>(c, "heap view owner", w.as_owner()); });
  rep(c, "heap element", [&] { auto o = H::make_object("kk", h, "a", 1); ask<H>(c, "heap element", o.get("kk")); ask<H>(c, "heap view element", typename H::view(o)["kk"]);
    ask<H>(c, "heap nested", o.get_nested("kk")); });
  rep(c, "heap transmogrified", [&] { H d = QD_BACK(H, h); ask<H>(c, "heap transmogrified", d); });
  rep(c, "heap handle", [&] { typename H::view w = h; expect("heap is no view", !h.is_view()); expect("heap view is a view", w.is_view()); handles(h); handles(w); ask<H>(c, "heap through arrow", through<H>(h)); });
  rep(c, "heap lifted in place", [&] { H d(h); H const e(h); d.lift().definalize(); H g(e.lift().definalize()); H f(H(h).lift().definalize()); ask<H>(c, "heap lifted in place", d); ask<H>(c, "heap lifted const", g); ask<H>(c, "heap lifted moved", f); });
  rep(c, "heap span", [&] { std::vector<H> hs {h, h}; ask<H>(c, "heap of heap span", H::make_array(gsl::span<H const>(hs)).get(1));
    using B = std::decay_t<decltype(h.finalize())>; std::vector<B> bs {wrap_buf(h, false)["kk"]}; ask<H>(c, "heap of buffer span", H::make_array(gsl::span<B const>(bs)).get(0)); });
  rep(c, "heap array element", [&] { auto a = H::make_array(1, h); ask<H>(c, "heap array element", a.get(1)); });
  rep(c, "heap lifted element", [&] { H l(wrap_buf(h, false)["kk"]); ask<H>(c, "heap lifted element", l); });
  if (h.is_object()) {
    rep(c, "heap lifted", [&] { H l(h.finalize()); ask<H>(c, "heap lifted", l); });
    rep(c, "heap wrapper lift", [&] { typename H::object o(h); ask<H>(c, "heap wrapper lift", H(o.lift())); ask<H>(c, "heap wrapper moved lift", H(typename H::object(h).definalize()));
      H l(o.finalize()); ask<H>(c, "heap wrapper finalize", l); H m(typename H::object(h).lower()); ask<H>(c, "heap wrapper moved lower", m); });
    rep(c, "heap lift()", [&] { H l = h.lower().lift(); ask<H>(c, "heap lift()", l); });
    rep(c, "heap definalize()", [&] { auto b = h.finalize(); H l = b.definalize(); ask<H>(c, "heap definalize()", l); });
  }
}

template <class H, class B> H b_as(B const& b) { return b.template as<H>(); }
template <class B, class H>
void buffers(Collector& c, JV const& v) {
  H h = dec<H>(v);
  rep(c, "buffer element", [&] { B b = wrap_buf(h, false); ask<H>(c, "buffer element", b.get("kk")); ask<H>(c, "buffer moved element", std::move(b)["kk"]); });
  rep(c, "buffer handle", [&] { B b = wrap_buf(h, false)["kk"]; typename B::view w = b; expect("buffer is no view", !b.is_view()); expect("buffer view is a view", w.is_view()); handles(b); handles(w); ask<H>(c, "buffer through arrow", through<B>(b)); });
  rep(c, "buffer of packet", [&] { using P = std::conditional_t<std::is_same<B, dart::buffer>::value, dart::packet, dart::unsafe_packet>;
    P p(wrap_buf(h, false)["kk"]); B d(static_cast<B>(p)); ask<H>(c, "buffer of packet", d); P q(p); ask<H>(c, "buffer of moved packet", B(static_cast<B>(std::move(q))));
    ask<H>(c, "buffer cast of packet", dart::convert::cast<B>(p)); ask<H>(c, "heap of finalized packet", static_cast<H>(p)); P r(p); ask<H>(c, "heap of moved finalized packet", H(static_cast<H>(std::move(r)))); ask<H>(c, "buffer read as heap", b_as<H>(d)); });
  rep(c, "buffer array element", [&] { B b = wrap_buf(h, true); ask<H>(c, "buffer array element", b["kk"][0]);
    typename B::view w = b; ask<H>(c, "buffer view element", w["kk"][0]); ask<H>(c, "buffer iterated element", *b["kk"].begin()); });
  if (h.is_object()) {
    B b = h.finalize();
    ask<H>(c, "buffer", b);
    rep(c, "buffer view", [&] { typename B::view w = b; ask<H>(c, "buffer view", w); ask<H>(c, "buffer view owner", w.as_owner()); });
    rep(c, "buffer finalized again", [&] { B d(b); B const e(b); d.finalize().lower(); ask<H>(c, "buffer finalized again", d); B g(e.lower().finalize()); ask<H>(c, "buffer lowered const", g);
      B f(B(b).lower().finalize()); ask<H>(c, "buffer lowered moved", f); B k(std::move(e).lower()); ask<H>(c, "buffer lowered const moved", k); });
    rep(c, "buffer wrapper", [&] { typename B::object o(b); ask<H>(c, "buffer wrapper lift", H(o.lift())); ask<H>(c, "buffer wrapper moved lift", H(typename B::object(b).definalize()));
      B d(o.finalize()); ask<H>(c, "buffer wrapper finalize", d); B e(typename B::object(b).lower()); ask<H>(c, "buffer wrapper moved lower", e);
      auto bytes = o.get_bytes(); B f(bytes); ask<H>(c, "buffer of wrapper bytes", f); B g(o.dup_bytes()); ask<H>(c, "buffer of wrapper dup", g);
      typename B::object::size_type len = 0; B k(o.dup_bytes(len)); ask<H>(c, "buffer of wrapper dup sized", k); expect("wrapper bytes", len == size_t(bytes.size())); });
    rep(c, "buffer from bytes", [&] { auto bytes = b.get_bytes(); B d(bytes); ask<H>(c, "buffer from bytes", d); });
    rep(c, "buffer from unique bytes", [&] { B d(b.dup_bytes()); ask<H>(c, "buffer from unique bytes", d); });
    rep(c, "buffer from shared bytes", [&] { B d = via_shared(b); ask<H>(c, "buffer from shared bytes", d); });
    rep(c, "buffer transmogrified", [&] { B d = QD_BACK(B, b); ask<H>(c, "buffer transmogrified", d); });
    rep(c, "buffer via heap", [&] { H l(b); B d(l.lower()); ask<H>(c, "buffer via heap", d); });
  }
}

template <class P, class H>
void packets(Collector& c, JV const& v) {
  P p = dec<P>(v);
  ask<P>(c, "packet", p);
  rep(c, "packet view", [&] { typename P::view w = p; ask<P>(c, "packet view", w); ask<P>(c, "packet view owner", w.as_owner()); });
  rep(c, "packet transmogrified", [&] { P d = QD_BACK(P, p); ask<P>(c, "packet transmogrified", d); });
  rep(c, "packet handle", [&] { typename P::view w = p; expect("packet is no view", !p.is_view()); expect("packet view is a view", w.is_view()); handles(p); handles(w); ask<P>(c, "packet through arrow", through<P>(p)); });
  rep(c, "packet spans", [&] { using B = std::decay_t<decltype(dec<H>(v).finalize())>; std::vector<P> ps {p, p}; ask<P>(c, "packet of packet span", P::make_array(gsl::span<P const>(ps)).get(1));
    std::vector<H> hs {dec<H>(v)}; ask<P>(c, "packet of heap span", P::make_array(gsl::span<H const>(hs)).get(0)); std::vector<B> bs {wrap_buf(hs[0], false)["kk"]}; ask<P>(c, "packet of buffer span", P::make_array(gsl::span<B const>(bs)).get(0)); });
  rep(c, "packet as heap", [&] { P d(static_cast<H>(p)); ask<P>(c, "packet as heap", d); P q(p); P e(static_cast<H>(std::move(q))); ask<P>(c, "packet as heap moved", e); ask<P>(c, "packet cast", P(dart::convert::cast<H>(p))); });
  rep(c, "packet from heap", [&] { P d(dec<H>(v)); ask<P>(c, "packet from heap", d); });
  rep(c, "packet finalized element", [&] { P o = P::make_object("kk", p, "a", 1); o.finalize(); P e = o.get("kk"); ask<P>(c, "packet finalized element", e);
    typename P::view w = e; ask<P>(c, "packet finalized element view", w); P l(e); l.lift(); ask<P>(c, "packet lifted element", l); });
  rep(c, "packet finalized array element", [&] { P o = P::make_object("kk", P::make_array(p, p)); o.lower(); ask<P>(c, "packet finalized array element", o["kk"][1]); });
  if (p.is_object()) {
    P f(p); f.finalize();
    ask<P>(c, "packet finalized", f);
    rep(c, "packet finalized transmogrified", [&] { P d = QD_BACK(P, f); ask<P>(c, "packet finalized transmogrified", d); });
    rep(c, "packet finalized view", [&] { typename P::view w = f; ask<P>(c, "packet finalized view", w); });
    rep(c, "packet of bytes", [&] { auto bytes = f.get_bytes(); P d(bytes); ask<P>(c, "packet of bytes", d); P e(f.dup_bytes()); ask<P>(c, "packet of unique bytes", e);
      P s = via_shared(f); ask<P>(c, "packet of shared bytes", s); });
    rep(c, "packet from buffer", [&] { auto b = dec<H>(v).finalize(); P d(b); ask<P>(c, "packet from buffer", d); d.definalize(); ask<P>(c, "packet definalized", d); });
    rep(c, "packet wrapper", [&] { typename P::object o(p); ask<P>(c, "packet wrapper finalize", P(o.finalize())); ask<P>(c, "packet wrapper lift", P(o.lift())); ask<P>(c, "packet wrapper moved lower", P(typename P::object(p).lower())); ask<P>(c, "packet wrapper moved lift", P(typename P::object(f).definalize()));
      typename P::object g(f); auto bytes = g.get_bytes(); ask<P>(c, "packet of wrapper bytes", P(bytes)); ask<P>(c, "packet of wrapper dup", P(g.dup_bytes())); });
    rep(c, "packet as buffer", [&] { using B = std::decay_t<decltype(dec<H>(v).finalize())>; P d(static_cast<B>(p)); ask<P>(c, "packet as buffer", d); P q(p); P e(static_cast<B>(std::move(q))); ask<P>(c, "packet as buffer moved", e); });
    rep(c, "packet lifted", [&] { P l(f); l.lift(); ask<P>(c, "packet lifted", l); });
  }
}

int main(int, char** argv) {
  std::ifstream in(argv[1]); Tracer tr(argv[2]); Str line;
  while (std::getline(in, line)) {
    rapidjson::Document op; op.Parse(line.data(), line.size());
    if (op.HasParseError()) return 3;
    g_qs = &op["q"]; g_case = op["h"].GetInt();
    Collector c; g_bad = "[";
    Str fail = guarded([&] () -> Str {
#if QD_GROUP == 0
      heaps<dart::heap>(c, op["v"]);
#elif QD_GROUP == 1
      buffers<dart::buffer, dart::heap>(c, op["v"]);
#elif QD_GROUP == 2
      packets<dart::packet, dart::heap>(c, op["v"]);
#elif QD_GROUP == 3
      heaps<dart::unsafe_heap>(c, op["v"]);
#elif QD_GROUP == 4
      buffers<dart::unsafe_buffer, dart::unsafe_heap>(c, op["v"]);
#else
      packets<dart::unsafe_packet, dart::unsafe_heap>(c, op["v"]);
#endif
      return "ok"; });
    if (fail != "ok") { if (g_bad.size() > 1) g_bad += ','; g_bad += "[\"driver\"," + fail + "]"; }
    Str o = "{\"op\":" + line + ",\"bad\":" + g_bad + "],\"n\":" + std::to_string(c.rep) + ",\"outs\":[";
    for (size_t i = 0; i < c.order.size(); ++i) {
      if (i) o += ',';
      o += "[["; auto& names = c.by[c.order[i]];
      for (size_t j = 0; j < names.size(); ++j) { if (j) o += ','; o += '"' + names[j] + '"'; }
      o += "]," + c.order[i] + "]";
    }
    tr.line(o + "]}");
  }
  return 0;
}
