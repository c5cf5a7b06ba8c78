// JSON in and out, through every overload.   usage: text CASES TRACE
#define COMMON_IMPL
#include "common.hpp"
#include <map>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using H = dart::heap; using B = dart::buffer; using P = dart::packet; using UH = dart::unsafe_heap; using UB = dart::unsafe_buffer; using UP = dart::unsafe_packet;

struct Out {
  std::map<Str, std::vector<Str>> by; std::vector<Str> order;
  void add(Str const& name, Str const& k) { auto& v = by[k]; if (v.empty()) order.push_back(k); v.push_back(name); }
  Str dump() const {
    Str o = "[";
    for (size_t i = 0; i < order.size(); ++i) {
      if (i) o += ',';
      auto& names = by.at(order[i]); o += "[[";
      for (size_t j = 0; j < names.size() && j < 8; ++j) { if (j) o += ','; o += '"' + names[j] + '"'; }
      o += "]," + order[i] + "]";
    }
    return o + "]";
  }
};

constexpr unsigned rj(unsigned f) { return (f & 1 ? unsigned(dart::parse_comments) : 0u) | (f & 2 ? unsigned(dart::parse_nan) : 0u) | (f & 4 ? unsigned(dart::parse_trailing_commas) : 0u); }

template <class F>
void val(Out& out, char const* name, int flags, int kind, F&& f) {
  Str r = guarded([&] () -> Str { return okv(f()); });
  out.add(name, std::to_string(flags) + "," + std::to_string(kind) + "," + r);
}

template <unsigned F>
void parse_flags(Out& o, Str const& t) {
  val(o, "heap", F, 0, [&] { return H::from_json<rj(F)>(t); });
  val(o, "buffer", F, 1, [&] { return B::from_json<rj(F)>(t); });
}
template <unsigned F>
void parse_more(Out& o, Str const& t) {
  val(o, "heap::parse", F, 0, [&] { return H::parse<rj(F)>(t); });
  val(o, "buffer::parse", F, 1, [&] { return B::parse<rj(F)>(t); });
  val(o, "packet", F, 0, [&] { return P::from_json<rj(F)>(t); });
  val(o, "packet finalized", F, 1, [&] { return P::from_json<rj(F)>(t, true); });
  val(o, "packet::parse", F, 0, [&] { return P::parse<rj(F)>(t, false); });
  val(o, "packet::parse finalized", F, 1, [&] { return P::parse<rj(F)>(t, true); });
  val(o, "dart::from_json", F, 0, [&] { return dart::from_json<rj(F)>(t); });
  val(o, "dart::from_json finalized", F, 1, [&] { return dart::from_json<rj(F)>(t, true); });
  val(o, "dart::parse", F, 0, [&] { return dart::parse<rj(F)>(t); });
  val(o, "dart::parse finalized", F, 1, [&] { return dart::parse<rj(F)>(t, true); });
  val(o, "unsafe heap", F, 0, [&] { return UH::from_json<rj(F)>(t); });
  val(o, "unsafe buffer", F, 1, [&] { return UB::from_json<rj(F)>(t); });
  val(o, "unsafe packet", F, 0, [&] { return UP::from_json<rj(F)>(t); });
}

static Str parse(JV const& op) {
  Str t = dec_rle(op["t"]); Out o;
  // exactly sized, so that reading past the end shows
  std::unique_ptr<char[]> exact(new char[t.size()]); std::memcpy(exact.get(), t.data(), t.size()); sv e(exact.get(), t.size());
  parse_flags<0>(o, t); parse_flags<1>(o, t); parse_flags<2>(o, t); parse_flags<3>(o, t); parse_flags<4>(o, t); parse_flags<5>(o, t); parse_flags<6>(o, t); parse_flags<7>(o, t);
  val(o, "heap exact", 0, 0, [&] { return H::from_json(e); });
  val(o, "buffer exact", 0, 1, [&] { return B::from_json(e); });
  val(o, "packet exact", 0, 0, [&] { return P::parse(e); });
  val(o, "permissive exact", 7, 0, [&] { return H::from_json<dart::parse_permissive>(e); });
  val(o, "buffer permissive exact", 7, 1, [&] { return B::from_json<dart::parse_permissive>(e); });
  switch (op["h"].GetInt() % 3) { case 0: parse_more<0>(o, t); break; case 1: parse_more<7>(o, t); break; default: parse_more<4>(o, t); }
  size_t before = __sanitizer_get_current_allocated_bytes();     // nothing is kept, whatever happened
  for (int i = 0; i < 2; ++i) { try { H::from_json(t); } catch (std::exception const&) {} try { B::from_json<dart::parse_permissive>(t); } catch (std::exception const&) {} }
  long kept = long(__sanitizer_get_current_allocated_bytes() - before);
  return "\"outs\":" + o.dump() + ",\"bad\":[" + (kept ? "[\"memory kept\"," + std::to_string(kept) + "]" : "") + "]";
}

template <class F>
void text(Out& out, Str& bad, char const* name, int flags, F&& f) {
  Str r; 
  Str x = guarded([&] () -> Str { Str s = f(); Str t; enc_rle(t, sv(s)); r = t; return "ok"; });
  if (x == "ok") out.add(name, std::to_string(flags) + "," + r); else { if (bad.size() > 1) bad += ','; bad += "[\"" + Str(name) + "\"," + x + "]"; }
}

static bool finite(JV const& v) {
  Str t = v[0].GetString();
  if (t == "d") return std::isfinite(bitsd(dec_limbs(v, 1)));
  if (t == "a") for (auto& e : v[1].GetArray()) if (!finite(e)) return false;
  if (t == "o") for (auto& e : v[1].GetArray()) if (!finite(e[1])) return false;
  return true;
}

static Str write(JV const& op) {
  JV const& v = op["v"]; Out o; Str bad = "["; bool fin = finite(v);
  H h = dec<H>(v); UH uh = dec<UH>(v); P pm(h);
  H holder = H::make_object("x", h); B bh = holder.finalize(); B b = bh["x"]; P pf(b); UB ub = UH::make_object("x", uh).finalize()["x"]; P pfin = P::make_object("x", pm); pfin.finalize(); P pe = pfin["x"];
  auto both = [&] (char const* name, auto& x) {
    if (fin) text(o, bad, name, 0, [&] { return x.to_json(); });
    if (fin) text(o, bad, name, 0, [&] { return x.template to_json<dart::write_default>(); });
    text(o, bad, name, 2, [&] { return x.template to_json<dart::write_nan>(); });
    text(o, bad, name, 2, [&] { return x.template to_json<dart::write_permissive>(); });
  };
  both("heap", h); both("buffer", b); both("mutable packet", pm); both("finalized packet", pf); both("unsafe heap", uh); both("unsafe buffer", ub); both("packet element", pe);
  if (fin) {
    typename H::view hv = h; typename B::view bv = b; typename P::view pv = pf;
    text(o, bad, "heap view", 0, [&] { return hv.to_json(); });
    text(o, bad, "buffer view", 0, [&] { return bv.to_json(); });
    text(o, bad, "packet view", 0, [&] { return pv.to_json(); });
    auto typed = [&] (char const* name, auto const& x) {
      using X = std::decay_t<decltype(x)>;
      text(o, bad, name, 0, [&] () -> Str {
        switch (x.get_type()) {
          case X::type::object: return typename X::object(x).to_json();
          case X::type::array: return typename X::array(x).to_json();
          case X::type::string: return typename X::string(x).to_json();
          case X::type::integer: case X::type::decimal: return typename X::number(x).to_json();
          case X::type::boolean: return typename X::flag(x).to_json();
          default: return typename X::null(x).to_json();
        }
      });
    };
    typed("typed heap", h); typed("typed buffer", b); typed("typed packet", pf); typed("typed mutable packet", pm);
    if (h.is_object()) text(o, bad, "finalized object", 0, [&] { return h.finalize().to_json(); });
  }
  Out back;
  for (auto& x : std::vector<Str>{h.to_json<dart::write_nan>(), b.to_json<dart::write_nan>()}) {
    auto val = [&] (char const* name, int kind, auto&& f) { back.add(name, std::to_string(kind) + "," + guarded([&] () -> Str { return okv(f()); })); };
    val("heap", 0, [&] { return H::from_json<dart::parse_nan>(x); });
    val("buffer", 1, [&] { return B::from_json<dart::parse_nan>(x); });
    val("packet", 0, [&] { return P::from_json<dart::parse_nan>(x); });
    val("finalized packet", 1, [&] { return P::from_json<dart::parse_permissive>(x, true); });
    if (fin) val("plain", 0, [&] { return H::from_json(h.to_json()); });
    if (fin) val("plain buffer", 1, [&] { return B::from_json(b.to_json()); });
  }
  return "\"outs\":" + o.dump() + ",\"backs\":" + back.dump() + ",\"bad\":" + bad + "]";
}

int main(int, char** argv) {
  std::ifstream in(argv[1]); Tracer tr(argv[2]); Str line;
  while (std::getline(in, line)) {
    rapidjson::Document op; op.Parse(line.data(), line.size());
    if (op.HasParseError()) return 3;
    Str r; Str x = guarded([&] () -> Str { r = Str(op["o"].GetString()) == "parse" ? parse(op) : write(op); return "ok"; });
    if (x != "ok") r = "\"outs\":[],\"backs\":[],\"bad\":[[\"driver\"," + x + "]]";
    tr.line("{\"op\":" + line + "," + r + "}");
  }
  return 0;
}
