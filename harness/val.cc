// Validation of untrusted bytes: every mutation of a library-produced image is offered to every
// overload of is_valid / validate; whatever is accepted is then used in every way there is.
//   usage: val CASES TRACE      case: {"o":"val","v":object,"m":[[length, misalignment, [[offset, byte]..]]..],"h":n}
#define COMMON_IMPL
#include "common.hpp"
#include <memory>
using B = dart::buffer; using H = dart::heap; using P = dart::packet;
using byte = gsl::byte;
struct Nop { template <class T> void operator ()(T*) const {} };

static int accepted(byte const* p, size_t n) {
  int yes = 0, no = 0;
  auto q = [&] (bool ok) { ++(ok ? yes : no); };
  auto t = [&] (auto&& f) { try { f(); ++yes; } catch (dart::validation_error const&) { ++no; } };
  gsl::span<byte const> sp(p, gsl::index(n));
  q(dart::is_valid(sp)); q(dart::is_valid(p, n)); t([&] { dart::validate(sp); }); t([&] { dart::validate(p, n); });
  { std::unique_ptr<byte, Nop> u(const_cast<byte*>(p)); q(dart::is_valid(u, n)); t([&] { dart::validate(u, n); }); }
  { std::unique_ptr<byte const, Nop> u(p); q(dart::is_valid(u, n)); t([&] { dart::validate(u, n); }); }
  { std::unique_ptr<byte[], Nop> u(const_cast<byte*>(p)); q(dart::is_valid(u, n)); t([&] { dart::validate(u, n); }); }
  { std::unique_ptr<byte const[], Nop> u(p); q(dart::is_valid(u, n)); t([&] { dart::validate(u, n); }); }
  { std::shared_ptr<byte const> u(p, Nop{}); q(dart::is_valid(u, n)); t([&] { dart::validate(u, n); }); }
  return yes && no ? 2 : yes ? 1 : 0;
}

static size_t g_sink = 0;
template <class X> void touch(X const& x, int depth);
template <class F> void tryit(F&& f) { try { f(); } catch (std::exception const&) {} }

template <class X>
void touch(X const& x, int depth) {
  g_sink += size_t(x.get_type()) + x.is_null() + x.is_str();
  if (x.is_str()) { g_sink += std::strlen(x.str()) + x.size() + x.strv().size(); for (char c : x.strv()) g_sink += size_t(c); }
  else if (x.is_integer()) g_sink += size_t(x.integer());
  else if (x.is_decimal()) g_sink += x.decimal() > 0;
  else if (x.is_boolean()) g_sink += x.boolean();
  else if (x.is_object()) {
    for (auto k : x.keys()) {
      auto key = k.strv();
      tryit([&] { touch(x[key], depth + 1000); }); tryit([&] { touch(x.at(key), depth + 1000); });
      g_sink += x.has_key(key); if (x.find(key) != x.end()) ++g_sink; tryit([&] { touch(x.get(k), depth + 1000); });
      tryit([&] { x.get_nested(key); });
    }
    for (auto k : {"", "a", "zz", "key", "\xff\xff", "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"}) { g_sink += x.has_key(k); touch(x[k], depth + 1000); x.get_nested(k); }
  } else if (x.is_array()) { for (size_t i = 0; i < x.size() && i < 64; ++i) tryit([&] { touch(x[i], depth + 1000); }); }
  if (depth < 1000 && x.is_aggregate()) {
    auto it = x.end(); auto b = x.begin(); while (it != b) { --it; ++g_sink; }
    for (auto c : x) touch(c, depth + 1); for (auto c : x.values()) touch(c, 2000);
  }
}

static Str use(byte const* p, size_t n) {
  std::shared_ptr<byte const> own(p, Nop{});
  return guarded([&] () -> Str {
    B b(own); Str out; enc(out, b); B const copy(gsl::span<byte const>(p, gsl::index(n)));
    touch(b, 0); touch(typename B::view(b), 0); touch(copy, 0);
    P pk(b); tryit([&] { touch(pk, 0); });
    tryit([&] { g_sink += b.to_json().size(); }); tryit([&] { g_sink += b.dup_bytes() ? 1 : 0; }); g_sink += b.get_bytes().size() + (b == b) + (b == copy);
    Str lifted = "[]";
    try { H h(b); lifted.clear(); enc(lifted, h); touch(h, 0); tryit([&] { H l = h; l.add_field("another", 1); B r = l.lower(); touch(r, 0); });
          tryit([&] { g_sink += h.to_json().size(); }); tryit([&] { g_sink += h == b; }); } catch (std::exception const&) { lifted = "[]"; }
    tryit([&] { P l(b); l.lift(); l.add_field("z", 1); l.lower(); touch(l, 0); });
    tryit([&] { auto r = b.inject("key", "value", "b", 1); touch(r, 0); g_sink += dart::is_valid(r.get_bytes()); });
    tryit([&] { auto r = b.inject("", b, "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", 1.5); touch(r, 0); });
    tryit([&] { auto r = B::make_object("x", b, "y", 2); touch(r, 0); });
    tryit([&] { std::vector<Str> ks; for (auto k : b.keys()) { auto s = k.strv(); ks.emplace_back(s.data(), s.size()); } touch(b.project(ks), 0); if (ks.size()) { ks.pop_back(); ks.push_back("nope"); touch(b.project(ks), 0); } });
    return "[\"ok\"," + out + "," + lifted + "]";
  });
}

int main(int, char** argv) {
  std::ifstream in(argv[1]); Tracer tr(argv[2]); Str line;
  while (std::getline(in, line)) {
    rapidjson::Document op; op.Parse(line.data(), line.size());
    if (op.HasParseError()) return 3;
    B b = dec<H>(op["v"]).finalize(); auto s = b.get_bytes();
    Str img(reinterpret_cast<char const*>(s.data()), size_t(s.size()));
    Str o = "{\"op\":" + line + ",\"img\":"; enc_rle(o, sv(img)); o += ",\"outs\":[";
    bool first = true;
    for (auto& m : op["m"].GetArray()) {
      Str x = img; size_t n = size_t(m[0].GetInt()), k = size_t(m[1].GetInt()); x.resize(n, '\0');
      for (auto& e : m[2].GetArray()) if (size_t(e[0].GetInt()) < n) x[size_t(e[0].GetInt())] = char(e[1].GetInt());
      void* mem = nullptr; if (posix_memalign(&mem, 64, n + k ? n + k : 1)) return 3;
      byte* p = static_cast<byte*>(mem) + k; std::memcpy(p, x.data(), n);
      int a = accepted(p, n);
      if (!first) o += ','; first = false;
      o += '['; num(o, a); o += ','; o += a == 1 && k == 0 ? use(p, n) : Str("[\"none\"]"); o += ']';
      free(mem);
    }
    tr.line(o + "]}");
  }
  std::fprintf(stderr, "%zu\n", g_sink);
  return 0;
}
