// Flat images produced in every way the library offers, and finalized merges.
//   usage: bytes CASES TRACE     -DBY_GROUP=0 thread-safe counters, 1 unsafe counters
#define COMMON_IMPL
#include "common.hpp"
#include <map>
#if BY_GROUP == 0
using H = dart::heap; using B = dart::buffer; using P = dart::packet; using OH = dart::unsafe_heap; using OB = dart::unsafe_buffer;
#define SAME std::shared_ptr
#define OTHER dart::unsafe_ptr
#else
using H = dart::unsafe_heap; using B = dart::unsafe_buffer; using P = dart::unsafe_packet; using OH = dart::heap; using OB = dart::buffer;
#define SAME dart::unsafe_ptr
#define OTHER std::shared_ptr
#endif

static Str std_str(sv x) { return Str(x.data(), x.size()); }
struct Out {
  std::map<Str, std::vector<Str>> by; std::vector<Str> order;
  void add(Str const& name, Str const& k) { auto& v = by[k]; if (v.empty()) order.push_back(k); v.push_back(name); }
};
static Out* g_out; static Str g_bad;

template <class X> Str bytes_of(X const& x) { auto s = x.get_bytes(); return Str(reinterpret_cast<char const*>(s.data()), size_t(s.size())); }
template <class F>
void img(char const* name, char const* what, F&& f) {
  Str r = guarded([&] () -> Str { auto x = f(); return okr(bytes_of(x)); });
  g_out->add(name, "\"" + Str(what) + "\",1," + r);
}
template <class F>
void raw(char const* name, char const* what, F&& f) {
  Str r = guarded([&] () -> Str { return okr(f()); });
  g_out->add(name, "\"" + Str(what) + "\",1," + r);
}
template <class F>
void val(char const* name, char const* what, F&& f) {
  Str r = guarded([&] () -> Str { return okv(f()); });
  g_out->add(name, "\"" + Str(what) + "\",0," + r);
}

static void images(JV const& op) {
  JV const& v = op["v"]; int how = op["h"].GetInt();
  H h = dec<H>(v); B b = h.finalize();
  img("heap.finalize", "self", [&] { return h.finalize(); });
  img("heap.lower", "self", [&] { return h.lower(); });
  img("buffer(heap)", "self", [&] { return B(h); });
  img("packet.finalize", "self", [&] { P p = dec<P>(v); p.finalize(); return p; });
  img("packet.lower", "self", [&] { P p = dec<P>(v); p.lower(); return p; });
  img("packet moved finalize", "self", [&] { return dec<P>(v).finalize(); });
  img("packet(heap).finalize", "self", [&] { P p(h); return p.finalize(); });
  img("object wrapper.finalize", "self", [&] { typename P::object o(dec<P>(v)); o.finalize(); return o.dynamic(); });
  img("heap view.finalize", "self", [&] { typename H::view w = h; return w.as_owner().finalize(); });
  img("finalize twice", "self", [&] { P p = dec<P>(v); p.finalize(); p.finalize(); return p; });
  img("lift and lower", "self", [&] { H l(b); return l.lower(); });
  img("definalize and finalize", "self", [&] { P p(b); p.definalize(); p.finalize(); return p; });
  img("as nested element", "self", [&] { return B(H::make_object("x", std::string(size_t(how % 9), 'y'), "key", h, "z", 1).finalize()["key"]); });
  img("as array element", "self", [&] { return B(H::make_object("x", H::make_array(how, h, true)).finalize()["x"][1]); });
  img("nested lowered again", "self", [&] { P o = P::make_object("k", dec<P>(v)); o.finalize(); P e = o["k"]; e.lift(); e.lower(); return e; });
  img("element inserted and lowered", "self", [&] { // heap objects holding finalized children
    P o = P::make_object("k", P(b)); o.finalize(); return P(o["k"]); });
  img("cast heap", "self", [&] { return dart::convert::cast<B>(h); });
  img("cast packet", "self", [&] { P p(h); return dart::convert::cast<B>(p); });
  img("cast moved packet", "self", [&] { P p(h); return dart::convert::cast<B>(std::move(p)); });
  img("static_cast packet", "self", [&] { P p = dec<P>(v); return static_cast<B>(p); });
  img("as buffer", "self", [&] { return h.template as<B>(); });
  img("wrapper cast", "self", [&] { return dart::convert::cast<typename B::object>(h).dynamic(); });
  img("view", "self", [&] { typename B::view w = b; return w; });
  img("other counter", "self", [&] { return OB::transmogrify<SAME>(B::transmogrify<OTHER>(b)); });
  img("other counter heap", "self", [&] { return H::transmogrify<OTHER>(h).finalize(); });
  img("copy of bytes", "self", [&] { return B(b.get_bytes()); });
  img("copy of misaligned bytes", "self", [&] {
    Str s = bytes_of(b); std::vector<gsl::byte> m(s.size() + 8); size_t k = size_t(how % 8);
    std::memcpy(m.data() + k, s.data(), s.size());
    return B(gsl::span<gsl::byte const>(m.data() + k, gsl::index(s.size()))); });
  img("dup_bytes", "self", [&] { return B(b.dup_bytes()); });
  raw("dup_bytes length", "self", [&] { size_t n = 0; auto p = b.dup_bytes(n); return Str(reinterpret_cast<char const*>(p.get()), n); });
  raw("packet dup_bytes length", "self", [&] { size_t n = 0; P p(b); auto q = p.dup_bytes(n); return Str(reinterpret_cast<char const*>(q.get()), n); });
#if BY_GROUP == 0
  raw("share_bytes", "self", [&] { std::shared_ptr<gsl::byte const> p; size_t n = b.share_bytes(p); return Str(reinterpret_cast<char const*>(p.get()), n); });
#endif
  val("image and back", "self", [&] { return H(B(b.get_bytes())); });
  val("image and back in a packet", "self", [&] { P p(b.dup_bytes()); p.lift(); return p; });
  // building it finalized in the first place
  for (int k = 0; k < 3; ++k) {
    std::vector<H> hs; std::vector<B> bs; std::vector<P> ps;
    std::vector<std::pair<H, H>> kv;
    auto it = h.kvbegin(); auto e = h.kvend(); auto ki = std::get<0>(it); auto vi = std::get<1>(it);
    for (; vi != std::get<1>(e); ++vi, ++ki) kv.emplace_back(*ki, *vi);
    if (how % 3 == 0) std::reverse(kv.begin(), kv.end());
    if (how % 3 == 1) std::rotate(kv.begin(), kv.begin() + long(kv.size() / 2), kv.end());
    for (auto& x : kv) {
      if (k == 0) { hs.push_back(x.first); hs.push_back(x.second); }
      else if (k == 1) { auto y = H::make_object("k", x.first, "v", x.second).finalize(); bs.push_back(y["k"]); bs.push_back(y["v"]); }
      else { ps.push_back(P(x.first)); auto y = H::make_object("v", x.second).finalize(); ps.push_back(how % 2 ? P(y["v"]) : P(x.second)); }
    }
    if (k == 0) { img("make_object(heaps)", "self", [&] { return B::make_object(gsl::span<H const>(hs)); }); img("heap::make_object(heaps)", "self", [&] { return H::make_object(gsl::span<H const>(hs)).finalize(); }); }
    if (k == 1) { img("make_object(buffers)", "self", [&] { return B::make_object(gsl::span<B const>(bs)); }); img("heap::make_object(buffers)", "self", [&] { return H::make_object(gsl::span<B const>(bs)).finalize(); }); }
    if (k == 2) { img("make_object(packets)", "self", [&] { return B::make_object(gsl::span<P const>(ps)); }); img("packet::make_object(packets)", "self", [&] { return P::make_object(gsl::span<P const>(ps)).finalize(); }); }
  }
  img("make_object() inject", "self", [&] { std::vector<H> hs; auto it = h.kvbegin(); auto ki = std::get<0>(it); auto vi = std::get<1>(it);
    for (; vi != h.end(); ++vi, ++ki) { hs.push_back(*ki); hs.push_back(*vi); } return B::make_object().inject(gsl::span<H const>(hs)); });
  img("inject nothing", "self", [&] { return b.inject(); });
  img("project everything", "self", [&] { std::vector<Str> ks; for (auto& k : h.keys()) ks.push_back(std_str(k.strv())); return b.project(ks); });
  if (op.HasMember("j")) {
    Str text = h.to_json();
    img("buffer::from_json", "self", [&] { return B::from_json(text); });
    img("packet::from_json finalized", "self", [&] { return P::from_json(text, true); });
    img("heap::from_json finalize", "self", [&] { return H::from_json(text).finalize(); });
    img("from_json of buffer text", "self", [&] { return B::from_json(b.to_json()); });
  }
}

static void merges(JV const& op) {
  JV const& v = op["v"]; int how = op["h"].GetInt();
  H h = dec<H>(v); B b = h.finalize(); P pm = dec<P>(v), pf = dec<P>(v); pf.finalize();
  std::vector<H> hs; std::vector<B> bs; std::vector<P> ps;
  for (auto& e : op["p"].GetArray()) {
    H k = H::make_string(dec_rle(e[0])), x = dec<H>(e[1]);
    hs.push_back(k); hs.push_back(x);
    auto y = H::make_object("k", k, "v", x).finalize(); bs.push_back(y["k"]); bs.push_back(y["v"]);
    ps.push_back(how % 3 == 0 ? P(y["k"]) : P(k)); ps.push_back(how % 2 ? P(y["v"]) : P(x));
  }
  gsl::span<H const> hp(hs); gsl::span<B const> bp(bs); gsl::span<P const> pp(ps);
  img("buffer.inject(heaps)", "union", [&] { return b.inject(hp); });
  img("buffer.inject(buffers)", "union", [&] { return b.inject(bp); });
  img("buffer.inject(packets)", "union", [&] { return b.inject(pp); });
  img("finalized packet.inject(heaps)", "union", [&] { return pf.inject(hp); });
  img("finalized packet.inject(buffers)", "union", [&] { return pf.inject(bp); });
  img("finalized packet.inject(packets)", "union", [&] { return pf.inject(pp); });
  val("heap.inject(heaps)", "union", [&] { return h.inject(hp); });
  val("heap.inject(buffers)", "union", [&] { return h.inject(bp); });
  val("heap.inject(packets)", "union", [&] { return h.inject(pp); });
  val("packet.inject(packets)", "union", [&] { return pm.inject(pp); });
  val("packet.inject(buffers)", "union", [&] { return pm.inject(bp); });
  val("heap::make_object(packets)", "build", [&] { return H::make_object(pp); });
  img("buffer::make_object(heaps)", "build", [&] { return B::make_object(hp); });
  img("buffer::make_object(buffers)", "build", [&] { return B::make_object(bp); });
  img("buffer::make_object(packets)", "build", [&] { return B::make_object(pp); });
  if (hs.size() == 2) {
    auto& k = hs[0]; auto& x = hs[1]; Str ks = std_str(k.strv());
    img("buffer.inject(k, v)", "union", [&] { return b.inject(sv(ks), x); });
    img("packet.inject(k, v)", "union", [&] { return pf.inject(ks, ps[1]); });
    img("object.inject(k, v)", "union", [&] { return typename B::object(b).inject(sv(ks), bs[1]).dynamic(); });
    val("heap.inject(k, v)", "union", [&] { return h.inject(sv(ks), x); });
    val("heap object.inject(k, v)", "union", [&] { return typename H::object(h).inject(sv(ks), x).dynamic(); });
  } else if (hs.size() == 4) {
    Str k0 = std_str(hs[0].strv()), k1 = std_str(hs[2].strv());
    img("buffer.inject(k, v, k, v)", "union", [&] { return b.inject(sv(k0), hs[1], k1, bs[3]); });
    val("packet.inject(k, v, k, v)", "union", [&] { return pm.inject(k0, ps[1], sv(k1), ps[3]); });
    img("packet object.inject(k, v, k, v)", "union", [&] { return typename P::object(pf).inject(hs[0], ps[1], ps[2], hs[3]).dynamic(); });
  }
  std::vector<Str> ks; for (auto& k : op["k"].GetArray()) ks.push_back(dec_rle(k));
  std::vector<sv> vs; for (auto& k : ks) vs.push_back(k);
  gsl::span<Str const> kp(ks); gsl::span<sv const> vp(vs);
  img("buffer.project(strings)", "part", [&] { return b.project(kp); });
  img("buffer.project(views)", "part", [&] { return b.project(vp); });
  img("finalized packet.project(strings)", "part", [&] { return pf.project(kp); });
  img("finalized packet.project(views)", "part", [&] { return pf.project(vp); });
  val("heap.project(strings)", "part", [&] { return h.project(kp); });
  val("heap.project(views)", "part", [&] { return h.project(vp); });
  val("packet.project(strings)", "part", [&] { return pm.project(kp); });
  img("object.project", "part", [&] { return typename B::object(b).project(kp).dynamic(); });
  val("heap object.project", "part", [&] { return typename H::object(h).project(vp).dynamic(); });
  if (ks.size() == 2) {
    img("buffer.project{}", "part", [&] { return b.project({sv(ks[0]), sv(ks[1])}); });
    val("heap.project{}", "part", [&] { return h.project({sv(ks[0]), sv(ks[1])}); });
    img("packet.project{}", "part", [&] { return pf.project({sv(ks[0]), sv(ks[1])}); });
  }
  img("receiver afterwards", "self", [&] { return b; });
  img("packet receiver afterwards", "self", [&] { return pf; });
  val("heap receiver afterwards", "self", [&] { return h; });
  val("mutable packet receiver afterwards", "self", [&] { return pm; });
}

int main(int, char** argv) {
  std::ifstream in(argv[1]); Tracer tr(argv[2]); Str line;
  while (std::getline(in, line)) {
    rapidjson::Document op; op.Parse(line.data(), line.size());
    if (op.HasParseError()) return 3;
    Out out; g_out = &out; g_bad = "[";
    Str r = guarded([&] () -> Str { if (Str(op["o"].GetString()) == "img") images(op); else merges(op); return "ok"; });
    if (r != "ok") g_bad += "[\"driver\"," + r + "]";
    Str o = "{\"op\":" + line + ",\"bad\":" + g_bad + "],\"outs\":[";
    for (size_t i = 0; i < out.order.size(); ++i) {
      if (i) o += ',';
      auto& names = out.by[out.order[i]]; o += "[[";
      for (size_t j = 0; j < names.size() && j < 8; ++j) { if (j) o += ','; o += '"' + names[j] + '"'; }
      o += "]," + out.order[i] + "]";
    }
    tr.line(o + "]}");
  }
  return 0;
}
