// YAML in, through every overload; the events libyaml reports for the same text are recorded beside the results.
// usage: yaml CASES TRACE
#define COMMON_IMPL
#include "common.hpp"
#include <map>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <yaml.h>
using H = dart::heap; using B = dart::buffer; using P = dart::packet; using UH = dart::unsafe_heap; using UB = dart::unsafe_buffer; using UP = dart::unsafe_packet;

// <<"M">> mapping, <<"m">> its end, <<"S">>, <<"s">> sequence, <<"A">> alias, <<"v", plain?, text>> scalar, <<"X">> malformed.
static Str events(Str const& t) {
  yaml_parser_t p; yaml_event_t e; Str o = "["; bool done = false;
  if (!yaml_parser_initialize(&p)) throw std::bad_alloc();
  yaml_parser_set_input_string(&p, reinterpret_cast<unsigned char const*>(t.data()), t.size());
  auto put = [&] (Str const& s) { if (o.size() > 1) o += ','; o += s; };
  while (!done) {
    if (!yaml_parser_parse(&p, &e)) { put("[\"X\"]"); break; }
    switch (e.type) {
      case YAML_MAPPING_START_EVENT: put("[\"M\"]"); break;
      case YAML_MAPPING_END_EVENT: put("[\"m\"]"); break;
      case YAML_SEQUENCE_START_EVENT: put("[\"S\"]"); break;
      case YAML_SEQUENCE_END_EVENT: put("[\"s\"]"); break;
      case YAML_ALIAS_EVENT: put("[\"A\"]"); break;
      case YAML_SCALAR_EVENT: {
        Str s; enc_rle(s, sv(reinterpret_cast<char const*>(e.data.scalar.value), e.data.scalar.length));
        put(Str("[\"v\",") + (e.data.scalar.style == YAML_PLAIN_SCALAR_STYLE ? "1," : "0,") + s + "]");
        break;
      }
      case YAML_STREAM_END_EVENT: case YAML_DOCUMENT_END_EVENT: done = true; break;
      default: break;
    }
    yaml_event_delete(&e);
  }
  yaml_parser_delete(&p);
  return o + "]";
}

struct Out {
  std::map<Str, std::vector<Str>> by; std::vector<Str> order;
  void add(Str const& name, Str const& k) { auto& v = by[k]; if (v.empty()) order.push_back(k); v.push_back(name); }
  Str dump() const {
    Str o = "[";
    for (size_t i = 0; i < order.size(); ++i) {
      if (i) o += ',';
      auto& names = by.at(order[i]); o += "[[";
      for (size_t j = 0; j < names.size() && j < 8; ++j) { if (j) o += ','; o += '"' + names[j] + '"'; }
      o += "]," + order[i] + "]";
    }
    return o + "]";
  }
};
template <class F>
void val(Out& out, char const* name, int kind, F&& f) {
  out.add(name, std::to_string(kind) + "," + guarded([&] () -> Str { return okv(f()); }));
}

static Str parse(JV const& op) {
  Str t = dec_rle(op["t"]); Out o;
  std::unique_ptr<char[]> exact(new char[t.size()]); std::memcpy(exact.get(), t.data(), t.size()); sv e(exact.get(), t.size());
  val(o, "heap", 0, [&] { return H::from_yaml(t); });
  val(o, "heap exact", 0, [&] { return H::from_yaml(e); });
  val(o, "buffer", 1, [&] { return B::from_yaml(e); });
  val(o, "packet", 1, [&] { return P::from_yaml(e); });
  val(o, "packet mutable", 0, [&] { return P::from_yaml(t, false); });
  val(o, "packet finalized", 1, [&] { return P::from_yaml(t, true); });
  val(o, "unsafe heap", 0, [&] { return UH::from_yaml(t); });
  val(o, "unsafe buffer", 1, [&] { return UB::from_yaml(t); });
  val(o, "unsafe packet", 0, [&] { return UP::from_yaml(t, false); });
  val(o, "finalized later", 1, [&] { return H::from_yaml(t).finalize(); });
  if (t.empty()) val(o, "no view", 0, [&] { return H::from_yaml(sv{}); });
  Str same = "true";     // what comes back from a finalized result parsed again is the same bytes
  guarded([&] () -> Str { auto a = B::from_yaml(t), b = B::from_yaml(e); auto x = a.get_bytes(), y = b.get_bytes(); if (x.size() != y.size() || std::memcmp(x.data(), y.data(), x.size())) same = "false"; if (!dart::is_valid(x)) same = "false"; return "ok"; });
  size_t before = __sanitizer_get_current_allocated_bytes();     // nothing is kept, whatever happened
  for (int i = 0; i < 2; ++i) { try { H::from_yaml(t); } catch (std::exception const&) {} try { B::from_yaml(t); } catch (std::exception const&) {} }
  if (__sanitizer_get_current_allocated_bytes() != before) same = "false";
  return "\"events\":" + events(t) + ",\"outs\":" + o.dump() + ",\"same\":" + same;
}

int main(int, char** argv) {
  std::ifstream in(argv[1]); Tracer tr(argv[2]); Str line;
  while (std::getline(in, line)) {
    rapidjson::Document op; op.Parse(line.data(), line.size());
    if (op.HasParseError()) return 3;
    Str r; Str x = guarded([&] () -> Str { r = parse(op); return "ok"; });
    if (x != "ok") r = "\"events\":[],\"outs\":[],\"same\":false";
    tr.line("{\"op\":" + line + "," + r + "}");
  }
  return 0;
}
