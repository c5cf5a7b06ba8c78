// Executes programs of calls of the C interface and records the trace (TrAbi).
//   usage: abi PROGRAM.ndjson TRACE.ndjson
// Every packet lives in raw storage handed to the C functions; h picks among the spellings of an operation.
#define COMMON_IMPL
#include "common.hpp"
#include <dart/abi.h>
#include <dart/api_swap.h>
#include <cstdlib>
#include <sanitizer/asan_interface.h>
#include <thread>

enum { H = DART_HEAP, B = DART_BUFFER, K = DART_PACKET };
struct Cell { dart_packet_t p; };
static std::vector<Cell> sl;
struct It { dart_iterator_t it; bool on = false; };
static std::vector<It> its;

static void* S(int i) { return &sl[size_t(i)].p; }
static int kind_of(void const* p) { return reinterpret_cast<dart_type_id_t const*>(p)->p_id; }
static int rc_of(void const* p) { return reinterpret_cast<dart_type_id_t const*>(p)->rc_id; }
static dart_heap_t* HP(void* p) { return static_cast<dart_heap_t*>(p); }
static dart_buffer_t* BP(void* p) { return static_cast<dart_buffer_t*>(p); }

// An error message from before the call: a failing call has to replace it.
static Str g_stale;
static void provoke(bool parse) {
  static int n = 0;
  dart_packet_t x, y; dart_init_err(&y);
  if (parse ? dart_from_json_err(&x, "{\"fresh\"") == DART_NO_ERROR : dart_obj_get_err(&x, &y, "k") == DART_NO_ERROR) dart_destroy(&x);
  dart_destroy(&y); g_stale = dart_get_error();
  // The message belongs to this thread: what fails elsewhere does not replace it.
  if (n++ % 16 == 0) {
    std::thread([parse] { dart_packet_t x, y; dart_init_err(&y);
      if (!parse ? dart_from_json_err(&x, "[\"elsewhere\"") == DART_NO_ERROR : dart_arr_get_err(&x, &y, 1) == DART_NO_ERROR) dart_destroy(&x);
      dart_destroy(&y); }).join();
    if (g_stale != dart_get_error()) { std::fprintf(stderr, "Assertion: another thread's failure replaced this thread's error message\n"); std::_Exit(1); }
  }
}

static Str code(dart_err_t e) {
  switch (e) {
    case DART_NO_ERROR: return "[\"ok\"]";
    default: break;
  }
  if (!dart_get_error() || !*dart_get_error() || g_stale == dart_get_error()) return "[\"err\",\"no message\"]";
  switch (e) {
    case DART_TYPE_ERROR: return "[\"err\",\"type\"]";
    case DART_LOGIC_ERROR: return "[\"err\",\"logic\"]";
    case DART_STATE_ERROR: return "[\"err\",\"state\"]";
    case DART_PARSE_ERROR: return "[\"err\",\"parse\"]";
    case DART_RUNTIME_ERROR: return "[\"err\",\"runtime\"]";
    case DART_CLIENT_ERROR: return "[\"err\",\"client\"]";
    case DART_UNKNOWN_ERROR: return "[\"err\",\"unknown\"]";
    default: return "[\"err\",\"code\"]";
  }
}

// ------------------------------------------------------------------ results that make a packet
// A result is made in fresh storage, then takes the place of the destroyed old one.
struct Fresh { dart_packet_t p; Fresh() { std::memset(&p, 1, sizeof p); } void* v() { return &p; } };
static void put(int d, Fresh const& f, int size_kind) {
  switch (kind_of(S(d)) * 2 + (rc_of(S(d)) + sl.size()) % 2) {    // any destroy function that fits
    case H * 2: dart_heap_destroy(HP(S(d))); break;
    case B * 2: dart_buffer_destroy(BP(S(d))); break;
    default: dart_destroy(S(d));
  }
  (void) size_kind;
  std::memcpy(S(d), &f.p, sizeof f.p);
}
template <class T> static void keep(Fresh& f, T const& r) { std::memcpy(&f.p, &r, sizeof r); }

// The four spellings of a function that makes a packet; e: must the outcome be visible?
#define MAKE(f, T, rc, how, F, ...) \
  ((how) % 2 ? ((rc) == DART_RC_SAFE && (how) % 4 == 1 ? F##_err(reinterpret_cast<T*>((f).v()), ##__VA_ARGS__) : F##_rc_err(reinterpret_cast<T*>((f).v()), dart_rc_type_t(rc), ##__VA_ARGS__)) \
    : ((rc) == DART_RC_SAFE && (how) % 4 == 0 ? (keep((f), F(__VA_ARGS__)), DART_NO_ERROR) : (keep((f), F##_rc(dart_rc_type_t(rc), ##__VA_ARGS__)), DART_NO_ERROR)))
#define PAIR(f, T, how, F, ...) ((how) % 2 ? F##_err(reinterpret_cast<T*>((f).v()), ##__VA_ARGS__) : (keep((f), F(__VA_ARGS__)), DART_NO_ERROR))

// Text handed over with a length is followed by more text, or by memory that may not be read.
static char const* cut(Str const& s) {
  alignas(16) static char ring[64][1 << 17]; static unsigned next = 0;
  if (s.size() + 32 > sizeof ring[0]) return s.data();
  char* b = ring[next++ % 64]; __asan_unpoison_memory_region(b, sizeof ring[0]);
  char* p = b + (16 - s.size() % 16) % 16; std::memcpy(p, s.data(), s.size());
  if (next % 2) std::strcpy(p + s.size(), "0x]}\", 1"); else __asan_poison_memory_region(p + s.size(), 16);
  return p;
}
static bool plain(Str const& s) { return s.find('\0') == Str::npos; }

static void make(Fresh& f, int kind, int rc, JV const& v, int how) {
  char t = v[0].GetString()[0]; dart_err_t e = DART_NO_ERROR;
#define EITHER(SUF, ...) (kind == H ? MAKE(f, dart_heap_t, rc, how, dart_heap_##SUF, ##__VA_ARGS__) : MAKE(f, dart_packet_t, rc, how, dart_##SUF, ##__VA_ARGS__))
  if (t == 'o' || t == 'a') {
    e = t == 'o' ? EITHER(obj_init) : EITHER(arr_init);
    size_t n = 0;
    if (!e) for (auto& c : v[1].GetArray()) {
      Fresh g; make(g, (how + n) % 3 ? kind : (kind == H ? K : H), rc, t == 'o' ? c[1] : c, how / 4 + int(n));
      if (t == 'o') { Str k = dec_rle(c[0]); e = how % 3 ? dart_obj_insert_take_dart_len(f.v(), cut(k), k.size(), g.v()) : dart_obj_insert_dart_len(f.v(), cut(k), k.size(), g.v()); }
      else e = how % 3 ? dart_arr_insert_take_dart(f.v(), n, g.v()) : dart_arr_insert_dart(f.v(), n, g.v());
      dart_destroy(g.v()); ++n;
      if (e) break;
    }
  } else if (t == 's') {
    Str s = dec_rle(v[1]);
    if (plain(s) && how / 4 % 2) e = EITHER(str_init, s.c_str());
    else {
#define LENS(F, T) (how % 2 ? (rc == DART_RC_SAFE && how % 4 == 1 ? F##_len_err(reinterpret_cast<T*>(f.v()), cut(s), s.size()) : F##_rc_len_err(reinterpret_cast<T*>(f.v()), dart_rc_type_t(rc), cut(s), s.size())) \
        : (rc == DART_RC_SAFE && how % 4 == 0 ? (keep(f, F##_len(cut(s), s.size())), DART_NO_ERROR) : (keep(f, F##_rc_len(dart_rc_type_t(rc), cut(s), s.size())), DART_NO_ERROR)))
      e = kind == H ? LENS(dart_heap_str_init, dart_heap_t) : LENS(dart_str_init, dart_packet_t);
    }
  }
  else if (t == 'i') { int64_t n = int64_t(dec_limbs(v, 1)); e = EITHER(int_init, n); }
  else if (t == 'd') { double n = bitsd(dec_limbs(v, 1)); e = EITHER(dcm_init, n); }
  else if (t == 'b') { int n = v[1].GetInt() * (how / 4 % 3 ? 1 : 256); e = EITHER(bool_init, n); }
  else e = how / 4 % 2 ? EITHER(null_init) : EITHER(init);
  if (e) { std::fprintf(stderr, "making a value failed: %s\n", dart_get_error()); std::abort(); }
}

static Str fin(int d, Fresh& f, dart_err_t e) { if (!e) put(d, f, 0); return code(e); }

static Str do_mk(JV const& op, int d, int how) {
  int kind = op["t"][0].GetInt(), rc = op["t"][1].GetInt(); Fresh f;
  if (kind == B) return fin(d, f, MAKE(f, dart_buffer_t, rc, how, dart_buffer_init));
  make(f, kind, rc, op["v"], how);
  return fin(d, f, DART_NO_ERROR);
}

// Format strings: on x86-64 the integer and pointer arguments and the doubles travel separately.
static Str do_va(JV const& op, int d, int how) {
  int kind = op["t"][0].GetInt(), rc = op["t"][1].GetInt(); Str fmt = op["f"].GetString(); bool obj = op["n"].GetInt() == 1;
  std::vector<Str> hold; hold.reserve(64); uint64_t g[24] = {0}; double x[8] = {0}; int ng = 0, nx = 0;
  for (auto& a : op["a"].GetArray()) {
    Str t = a[0].GetString();
    if (t == "k" || t == "s") { hold.push_back(dec_rle(a[1])); g[ng++] = uint64_t(hold.back().c_str()); }
    else if (t == "S") { hold.push_back(dec_rle(a[1])); g[ng++] = uint64_t(cut(hold.back())); g[ng++] = hold.back().size(); }
    else if (t == "d") x[nx++] = bitsd(dec_limbs(a, 1));
    else if (t == "b") g[ng++] = a[1].GetInt() ? (how % 3 ? 1 : 1u << 20) : 0;
    else { g[ng++] = dec_limbs(a, 1); }
  }
#define ARGS g[0],g[1],g[2],g[3],g[4],g[5],g[6],g[7],g[8],g[9],g[10],g[11],g[12],g[13],g[14],g[15],g[16],g[17],g[18],g[19],g[20],g[21],g[22],g[23],x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7]
  Fresh f; char const* c = fmt.c_str();
#define VA(F, T) (how % 2 ? (rc == DART_RC_SAFE && how % 4 == 1 ? F##_err(reinterpret_cast<T*>(f.v()), c, ARGS) : F##_rc_err(reinterpret_cast<T*>(f.v()), dart_rc_type_t(rc), c, ARGS)) \
    : (rc == DART_RC_SAFE && how % 4 == 0 ? (keep(f, F(c, ARGS)), DART_NO_ERROR) : (keep(f, F##_rc(dart_rc_type_t(rc), c, ARGS)), DART_NO_ERROR)))
  dart_err_t e = kind == H ? (obj ? VA(dart_heap_obj_init_va, dart_heap_t) : VA(dart_heap_arr_init_va, dart_heap_t))
                           : (obj ? VA(dart_obj_init_va, dart_packet_t) : VA(dart_arr_init_va, dart_packet_t));
  return fin(d, f, e);
}

static Str do_json(JV const& op, int d, int how) {
  int kind = op["t"][0].GetInt(), rc = op["t"][1].GetInt(); Str s = dec_rle(op["x"]); Fresh f; dart_err_t e;
#define TXT(F, T) (how / 4 % 2 && plain(s) ? MAKE(f, T, rc, how, F, s.c_str()) \
  : how % 2 ? (rc == DART_RC_SAFE && how % 4 == 1 ? F##_len_err(reinterpret_cast<T*>(f.v()), cut(s), s.size()) : F##_len_rc_err(reinterpret_cast<T*>(f.v()), dart_rc_type_t(rc), cut(s), s.size())) \
  : (rc == DART_RC_SAFE && how % 4 == 0 ? (keep(f, F##_len(cut(s), s.size())), DART_NO_ERROR) : (keep(f, F##_len_rc(dart_rc_type_t(rc), cut(s), s.size())), DART_NO_ERROR)))
  if (kind == H) e = TXT(dart_heap_from_json, dart_heap_t);
  else if (kind == B) e = TXT(dart_buffer_from_json, dart_buffer_t);
  else e = TXT(dart_from_json, dart_packet_t);
  return fin(d, f, e);
}

// Bytes of s (unless x overrides them) into a new packet of type t, by copying or by giving them away.
static Str do_bytes(JV const& op, int d, int s, int how) {
  int kind = op["t"][0].GetInt(), rc = op["t"][1].GetInt(); bool take = Str(op["f"].GetString()) == "take"; Fresh f; dart_err_t e;
  size_t len = 777, *lp = how / 8 % 3 ? &len : nullptr; void const* p; void* own = nullptr;
  bool typed = kind_of(S(s)) == B && how / 4 % 2;
  if (take) { p = own = typed ? dart_buffer_dup_bytes(BP(S(s)), lp) : dart_dup_bytes(S(s), lp); }
  else { lp = &len; p = typed ? dart_buffer_get_bytes(BP(S(s)), lp) : dart_get_bytes(S(s), lp); }
  if (!p) return "[\"err\",\"null\"]";
  if (take && lp) { size_t want = 0; typed ? dart_buffer_get_bytes(BP(S(s)), &want) : dart_get_bytes(S(s), &want);
    if (want != len || std::memcmp(own, dart_get_bytes(S(s), nullptr), len)) return "[\"err\",\"other bytes\"]"; }
  if (take && how / 24 % 4 == 3) { dart_aligned_free(own); return "[\"skip\"]"; }
#define TAKE(F, T) (how % 2 ? (rc == DART_RC_SAFE && how % 4 == 1 ? F##_err(reinterpret_cast<T*>(f.v()), own) : F##_rc_err(reinterpret_cast<T*>(f.v()), dart_rc_type_t(rc), own)) \
    : (rc == DART_RC_SAFE && how % 4 == 0 ? (keep(f, F(own)), DART_NO_ERROR) : (keep(f, F##_rc(own, dart_rc_type_t(rc))), DART_NO_ERROR)))
#define FROM(F, T) (how % 2 ? (rc == DART_RC_SAFE && how % 4 == 1 ? F##_err(reinterpret_cast<T*>(f.v()), p, len) : F##_rc_err(reinterpret_cast<T*>(f.v()), dart_rc_type_t(rc), p, len)) \
    : (rc == DART_RC_SAFE && how % 4 == 0 ? (keep(f, F(p, len)), DART_NO_ERROR) : (keep(f, F##_rc(p, dart_rc_type_t(rc), len)), DART_NO_ERROR)))
  if (take) e = kind == B ? TAKE(dart_buffer_take_bytes, dart_buffer_t) : TAKE(dart_take_bytes, dart_packet_t);
  else e = kind == B ? FROM(dart_buffer_from_bytes, dart_buffer_t) : FROM(dart_from_bytes, dart_packet_t);
  return fin(d, f, e);
}

// A copy by way of the library: out of the C packet into T, refused by U (the other counter), and back into a C packet.
template <class T, class U, class C>
static dart_err_t through_lib(Fresh& f, C* p, int how, bool& bad) {
  T x; U y;
  try { dart::unsafe_api_swap(y, p); bad = true; } catch (dart::type_error const&) {}
  if (!y.is_null()) bad = true;
  dart::unsafe_api_swap(x, p);
  if (int(x.get_type() == T::type::null) != dart_is_null(p) || x.is_finalized() != bool(dart_is_finalized(p))) bad = true;
  if (how % 2) { dart::unsafe_api_swap(static_cast<C*>(f.v()), x); if (x.is_null() && !dart_is_null(p)) bad = true; }
  else { dart::unsafe_api_swap(static_cast<C*>(f.v()), std::move(x)); if (!x.is_null()) bad = true; }
  return DART_NO_ERROR;
}
static dart_err_t lib_copy(Fresh& f, void* p, int how, bool& bad) {
  bool safe = rc_of(p) == DART_RC_SAFE;
  switch (kind_of(p)) {
    case H: return safe ? through_lib<dart::heap, dart::unsafe_heap>(f, HP(p), how, bad) : through_lib<dart::unsafe_heap, dart::heap>(f, HP(p), how, bad);
    case B: return safe ? through_lib<dart::buffer, dart::unsafe_buffer>(f, BP(p), how, bad) : through_lib<dart::unsafe_buffer, dart::buffer>(f, BP(p), how, bad);
    default: return safe ? through_lib<dart::packet, dart::unsafe_packet>(f, static_cast<dart_packet_t*>(p), how, bad) : through_lib<dart::unsafe_packet, dart::packet>(f, static_cast<dart_packet_t*>(p), how, bad);
  }
}

static Str do_copy(int d, int s, int how, bool move) {
  Fresh f; dart_err_t e; int k = how / 2 % 2 ? kind_of(S(s)) : 0; bool bad = false;
  if (!move && how / 4 % 3 == 1) { e = lib_copy(f, S(s), how, bad); if (bad) e = DART_CLIENT_ERROR; }
  else if (move) e = k == H ? PAIR(f, dart_heap_t, how, dart_heap_move, HP(S(s))) : k == B ? PAIR(f, dart_buffer_t, how, dart_buffer_move, BP(S(s))) : PAIR(f, dart_packet_t, how, dart_move, S(s));
  else e = k == H ? PAIR(f, dart_heap_t, how, dart_heap_copy, HP(S(s))) : k == B ? PAIR(f, dart_buffer_t, how, dart_buffer_copy, BP(S(s))) : PAIR(f, dart_packet_t, how, dart_copy, S(s));
  return fin(d, f, e);
}

static Str do_conv(JV const& op, int d, int s, int how) {
  Str fn = op["f"].GetString(); Fresh f; void* p = S(s); dart_err_t e;
  if (fn == "heap_lower") e = PAIR(f, dart_buffer_t, how, dart_heap_lower, HP(p));
  else if (fn == "heap_finalize") e = PAIR(f, dart_buffer_t, how, dart_heap_finalize, HP(p));
  else if (fn == "buffer_lift") e = PAIR(f, dart_heap_t, how, dart_buffer_lift, BP(p));
  else if (fn == "buffer_definalize") e = PAIR(f, dart_heap_t, how, dart_buffer_definalize, BP(p));
  else if (fn == "lower") e = PAIR(f, dart_packet_t, how, dart_lower, p);
  else if (fn == "finalize") e = PAIR(f, dart_packet_t, how, dart_finalize, p);
  else if (fn == "lift") e = PAIR(f, dart_packet_t, how, dart_lift, p);
  else if (fn == "definalize") e = PAIR(f, dart_packet_t, how, dart_definalize, p);
  else if (fn == "to_heap") e = PAIR(f, dart_heap_t, how, dart_to_heap, p);
  else if (fn == "to_buffer") e = PAIR(f, dart_buffer_t, how, dart_to_buffer, p);
  else return "[\"err\",\"badop\"]";
  return fin(d, f, e);
}

// ---------------------------------------------------------------------------------- mutation
static dart_err_t mutate(JV const& op, int d, int how, bool set) {
  void* t = S(d); JV const& KK = op["k"]; JV const& V = op["v"]; Str vk = V[0].GetString();
  bool obj = Str(KK[0].GetString()) == "k"; Str key; size_t idx = 0;
  if (obj) key = dec_rle(KK[1]); else idx = size_t(KK[1].GetInt64());
  bool nolen = obj && plain(key) && how % 2; char const* k = nolen ? key.c_str() : cut(key); size_t kl = key.size();
  bool typed = kind_of(t) == H && how / 2 % 2;
#define OBJ(SH, SG, ...) (nolen ? (set ? (typed ? dart_heap_obj_set_##SH(HP(t), k, ##__VA_ARGS__) : dart_obj_set_##SG(t, k, ##__VA_ARGS__)) : (typed ? dart_heap_obj_insert_##SH(HP(t), k, ##__VA_ARGS__) : dart_obj_insert_##SG(t, k, ##__VA_ARGS__))) \
    : (set ? (typed ? dart_heap_obj_set_##SH##_len(HP(t), k, kl, ##__VA_ARGS__) : dart_obj_set_##SG##_len(t, k, kl, ##__VA_ARGS__)) : (typed ? dart_heap_obj_insert_##SH##_len(HP(t), k, kl, ##__VA_ARGS__) : dart_obj_insert_##SG##_len(t, k, kl, ##__VA_ARGS__))))
#define ARR(SH, SG, ...) (set ? (typed ? dart_heap_arr_set_##SH(HP(t), idx, ##__VA_ARGS__) : dart_arr_set_##SG(t, idx, ##__VA_ARGS__)) : (typed ? dart_heap_arr_insert_##SH(HP(t), idx, ##__VA_ARGS__) : dart_arr_insert_##SG(t, idx, ##__VA_ARGS__)))
#define BOTH(SUF, ...) (obj ? OBJ(SUF, SUF, ##__VA_ARGS__) : ARR(SUF, SUF, ##__VA_ARGS__))
  auto other = [&] (void* v, bool take) {
    if (typed && kind_of(v) != H) typed = false;
    if (!typed) return take ? (obj ? (nolen ? (set ? dart_obj_set_take_dart(t, k, v) : dart_obj_insert_take_dart(t, k, v)) : (set ? dart_obj_set_take_dart_len(t, k, kl, v) : dart_obj_insert_take_dart_len(t, k, kl, v)))
                                   : (set ? dart_arr_set_take_dart(t, idx, v) : dart_arr_insert_take_dart(t, idx, v)))
                            : (obj ? (nolen ? (set ? dart_obj_set_dart(t, k, v) : dart_obj_insert_dart(t, k, v)) : (set ? dart_obj_set_dart_len(t, k, kl, v) : dart_obj_insert_dart_len(t, k, kl, v)))
                                   : (set ? dart_arr_set_dart(t, idx, v) : dart_arr_insert_dart(t, idx, v)));
    auto* hv = HP(v);
    return take ? (obj ? (nolen ? (set ? dart_heap_obj_set_take_heap(HP(t), k, hv) : dart_heap_obj_insert_take_heap(HP(t), k, hv)) : (set ? dart_heap_obj_set_take_heap_len(HP(t), k, kl, hv) : dart_heap_obj_insert_take_heap_len(HP(t), k, kl, hv)))
                       : (set ? dart_heap_arr_set_take_heap(HP(t), idx, hv) : dart_heap_arr_insert_take_heap(HP(t), idx, hv)))
                : (obj ? (nolen ? (set ? dart_heap_obj_set_heap(HP(t), k, hv) : dart_heap_obj_insert_heap(HP(t), k, hv)) : (set ? dart_heap_obj_set_heap_len(HP(t), k, kl, hv) : dart_heap_obj_insert_heap_len(HP(t), k, kl, hv)))
                       : (set ? dart_heap_arr_set_heap(HP(t), idx, hv) : dart_heap_arr_insert_heap(HP(t), idx, hv)));
  };
  if (vk == "slot") return other(S(V[1].GetInt() - 1), false);
  if (vk == "mslot") return other(S(V[1].GetInt() - 1), true);
  JV const& v = V[1]; char ty = v[0].GetString()[0];
  if (how / 4 % 3) {
    if (ty == 's') {
      Str s = dec_rle(v[1]);
      if (plain(s) && (nolen || (!obj && how % 2))) {
        if (obj) return set ? (typed ? dart_heap_obj_set_str(HP(t), k, s.c_str()) : dart_obj_set_str(t, k, s.c_str())) : (typed ? dart_heap_obj_insert_str(HP(t), k, s.c_str()) : dart_obj_insert_str(t, k, s.c_str()));
        return ARR(str, str, s.c_str());
      }
      if (obj) return set ? (typed ? dart_heap_obj_set_str_len(HP(t), k, kl, cut(s), s.size()) : dart_obj_set_str_len(t, k, kl, cut(s), s.size()))
                          : (typed ? dart_heap_obj_insert_str_len(HP(t), k, kl, cut(s), s.size()) : dart_obj_insert_str_len(t, k, kl, cut(s), s.size()));
      return ARR(str_len, str_len, cut(s), s.size());
    }
    if (ty == 'i') return BOTH(int, int64_t(dec_limbs(v, 1)));
    if (ty == 'd') return BOTH(dcm, bitsd(dec_limbs(v, 1)));
    if (ty == 'b') return BOTH(bool, v[1].GetInt() * (how / 12 % 2 ? 512 : 1));
    if (ty == 'n') return BOTH(null);
  }
  Fresh f; make(f, typed ? H : how / 12 % 2 ? H : K, rc_of(t), v, how / 48);
  dart_err_t e = other(f.v(), how / 24 % 2);
  dart_destroy(f.v());
  return e;
}

static dart_err_t do_del(JV const& op, int d, int how) {
  void* t = S(d); JV const& KK = op["k"]; bool typed = kind_of(t) == H && how / 2 % 2;
  if (Str(KK[0].GetString()) == "x") { size_t i = size_t(KK[1].GetInt64()); return typed ? dart_heap_arr_erase(HP(t), i) : dart_arr_erase(t, i); }
  Str k = dec_rle(KK[1]);
  if (plain(k) && how % 2) return typed ? dart_heap_obj_erase(HP(t), k.c_str()) : dart_obj_erase(t, k.c_str());
  return typed ? dart_heap_obj_erase_len(HP(t), cut(k), k.size()) : dart_obj_erase_len(t, cut(k), k.size());
}

// ---------------------------------------------------------------------------------- reading
static Str do_fetch(JV const& op, int d, int s, int how) {
  JV const& W = op["k"]; Str w = W[0].GetString(); Fresh f; void* p = S(s); int k = op["n"].GetInt() ? kind_of(p) : 0; dart_err_t e;
  if (w == "get") {
    if (Str(W[1][0].GetString()) == "x") { size_t i = size_t(W[1][1].GetInt64());
      e = k == H ? PAIR(f, dart_heap_t, how, dart_heap_arr_get, HP(p), i) : k == B ? PAIR(f, dart_buffer_t, how, dart_buffer_arr_get, BP(p), i) : PAIR(f, dart_packet_t, how, dart_arr_get, p, i);
    } else {
      Str key = dec_rle(W[1][1]); char const* c = key.c_str(); size_t n = key.size();
      if (plain(key) && how / 2 % 2) e = k == H ? PAIR(f, dart_heap_t, how, dart_heap_obj_get, HP(p), c) : k == B ? PAIR(f, dart_buffer_t, how, dart_buffer_obj_get, BP(p), c) : PAIR(f, dart_packet_t, how, dart_obj_get, p, c);
      else { std::vector<char> bare(key.begin(), key.end()); c = bare.data();     // no terminator behind it
        e = k == H ? PAIR(f, dart_heap_t, how, dart_heap_obj_get_len, HP(p), c, n) : k == B ? PAIR(f, dart_buffer_t, how, dart_buffer_obj_get_len, BP(p), c, n) : PAIR(f, dart_packet_t, how, dart_obj_get_len, p, c, n); }
    }
    return fin(d, f, e);
  }
  dart_iterator_t it; std::memset(&it, 0x5a, sizeof it);
  e = w == "nth" ? dart_iterator_init_from_err(&it, p) : dart_iterator_init_key_from_err(&it, p);
  if (e) return code(e);
  for (int i = 0; i < W[1].GetInt(); ++i) dart_iterator_next(&it);
  e = PAIR(f, dart_packet_t, how, dart_iterator_get, &it);
  dart_iterator_destroy(&it);
  return fin(d, f, e);
}

// The value of a packet, read through the C interface alone.
static void enc_c(Str& o, void const* p, int how, int depth = 0) {
  if (depth > 60) { o += "[\"deep\"]"; return; }
  int k = how % 2 ? kind_of(p) : 0; auto* hp = static_cast<dart_heap_t const*>(p); auto* bp = static_cast<dart_buffer_t const*>(p);
#define GET(F, ...) (k == H ? dart_heap_##F(hp, ##__VA_ARGS__) : k == B ? dart_buffer_##F(bp, ##__VA_ARGS__) : dart_##F(p, ##__VA_ARGS__))
  switch (GET(get_type)) {
    case DART_OBJECT: {
      o += "[\"o\",["; dart_iterator_t ki, vi; bool first = true;
      if (dart_iterator_init_key_from_err(&ki, p) || dart_iterator_init_from_err(&vi, p)) { o += "\"noiter\"]]"; return; }
      for (size_t n = 0; !dart_iterator_done(&vi); ++n) {
        dart_packet_t kp, vp;
        if (n > 100000 || dart_iterator_get_err(&kp, &ki) || dart_iterator_get_err(&vp, &vi)) { o += ",\"badstep\""; break; }
        if (!first) o += ','; first = false; size_t len = 0; char const* c = dart_str_get_len(&kp, &len);
        o += '['; enc_rle(o, c ? sv(c, len) : sv("<null>")); o += ','; enc_c(o, &vp, how / 2, depth + 1); o += ']';
        dart_destroy(&kp); dart_destroy(&vp); dart_iterator_next(&ki); dart_iterator_next(&vi);
      }
      if (!dart_iterator_done(&ki)) o += ",\"morekeys\"";
      dart_iterator_destroy(&ki); dart_iterator_destroy(&vi); o += "]]"; return;
    }
    case DART_ARRAY: {
      o += "[\"a\",[";
      size_t n = GET(size);
      for (size_t i = 0; i < n; ++i) { dart_packet_t e; if (dart_arr_get_err(&e, p, i)) { o += ",\"badget\""; break; } if (i) o += ','; enc_c(o, &e, how / 2, depth + 1); dart_destroy(&e); }
      o += "]]"; return;
    }
    case DART_STRING: {
      size_t len = 0; char const* c = GET(str_get_len, &len); char const* c2 = GET(str_get);
      if (!c || !c2 || c[len] != 0 || std::strlen(c2) > len || std::memcmp(c, c2, len)) { o += "[\"badstr\"]"; return; }
      o += "[\"s\","; enc_rle(o, sv(c, len)); o += ']'; return;
    }
    case DART_INTEGER: { int64_t n = 0; if (how / 2 % 2) n = GET(int_get); else if (GET(int_get_err, &n)) { o += "[\"badint\"]"; return; } o += "[\"i\","; enc_limbs(o, uint64_t(n)); o += ']'; return; }
    case DART_DECIMAL: { double n = 0; if (how / 2 % 2) n = GET(dcm_get); else if (GET(dcm_get_err, &n)) { o += "[\"baddcm\"]"; return; } o += "[\"d\","; enc_limbs(o, dbits(n)); o += ']'; return; }
    case DART_BOOLEAN: { int n = 0; if (how / 2 % 2) n = GET(bool_get); else if (GET(bool_get_err, &n)) { o += "[\"badbool\"]"; return; } o += "[\"b\","; num(o, n); o += ']'; return; }
    case DART_NULL: o += "[\"n\"]"; return;
    default: o += "[\"invalid\"]";
  }
}

static Str query_c(JV const& e, int how) {
  void const* p = S(e[0].GetInt() - 1); JV const& q = e[1]; Str n = q[0].GetString();
  int k = how % 2 ? kind_of(p) : 0; auto* hp = static_cast<dart_heap_t const*>(p); auto* bp = static_cast<dart_buffer_t const*>(p);
  if (n == "type") return okn(GET(get_type));
  if (n == "is") { Str o = "["; int b[7] = {GET(is_obj), GET(is_arr), GET(is_str), GET(is_int), GET(is_dcm), GET(is_bool), GET(is_null)}; for (int i = 0; i < 7; ++i) { if (i) o += ','; num(o, b[i]); } return okx(o + "]"); }
  if (n == "size") return okn((long long)(ssize_t) GET(size));
  if (n == "has") { Str key = dec_rle(q[1]); if (plain(key) && how / 2 % 2) return okn(GET(obj_has_key, key.c_str())); return okn(GET(obj_has_key_len, cut(key), key.size())); }
  if (n == "str") { size_t len = 7; char const* c = how / 2 % 2 ? GET(str_get) : GET(str_get_len, &len); if (!c) return "[\"err\",\"null\"]"; if (how / 2 % 2) { char const* c2 = GET(str_get_len, &len); if (c2 != c) return "[\"err\",\"moved\"]"; } return okr(sv(c, len)); }
  if (n == "int") { int64_t v = 4711; dart_err_t x = GET(int_get_err, &v); if (x) { if (v != 4711 || GET(int_get) != 0) return "[\"err\",\"wrote\"]"; return code(x); } if (GET(int_get) != v) return "[\"err\",\"differ\"]"; return okl(uint64_t(v)); }
  if (n == "dec") { double v = 4711; dart_err_t x = GET(dcm_get_err, &v); if (x) { if (v != 4711 || !std::isnan(GET(dcm_get))) return "[\"err\",\"wrote\"]"; return code(x); } double w = GET(dcm_get); if (dbits(w) != dbits(v)) return "[\"err\",\"differ\"]"; return okl(dbits(v)); }
  if (n == "flag") { int v = 4711; dart_err_t x = GET(bool_get_err, &v); if (x) { if (v != 4711 || GET(bool_get) != 0) return "[\"err\",\"wrote\"]"; return code(x); } if (GET(bool_get) != v) return "[\"err\",\"differ\"]"; return okn(v); }
  if (n == "eq") { void const* r = S(q[1].GetInt() - 1);
    if (k == H && kind_of(r) == H) return okn(dart_heap_equal(hp, static_cast<dart_heap_t const*>(r)));
    if (k == B && kind_of(r) == B) return okn(dart_buffer_equal(bp, static_cast<dart_buffer_t const*>(r)));
    return okn(dart_equal(p, r)); }
  if (n == "json") {
    size_t len = 9999, *lp = how / 2 % 3 ? &len : nullptr; char* c = GET(to_json, lp); if (!c) return "[\"err\",\"null\"]";
    size_t m = std::strlen(c); Str o = lp && len != m ? "[\"err\",\"length\"]" : okr(sv(c, m)); dart_aligned_free(c); return o; }
  if (n == "bytes") {
    size_t len = 0; void const* b = k == B ? dart_buffer_get_bytes(bp, &len) : dart_get_bytes(p, &len); if (!b) return "[\"err\",\"null\"]";
    std::vector<char> cp(static_cast<char const*>(b), static_cast<char const*>(b) + len); Str o = "["; num(o, dart_buffer_is_valid(b, len));
    void* al = nullptr; if (posix_memalign(&al, 64, len ? len : 1)) return "[\"err\",\"alloc\"]"; std::memcpy(al, b, len);
    bool any = false; for (size_t n = 0; n < len; n += 1 + len / 16) { void* t = nullptr; if (posix_memalign(&t, 64, n ? n : 1)) break; std::memcpy(t, b, n); any |= dart_buffer_is_valid(t, n) != 0; std::free(t); }
    o += ','; num(o, any); std::memset(static_cast<char*>(al) + 4, 0xff, 4); o += ','; num(o, dart_buffer_is_valid(al, len)); std::free(al); return okx(o + "]"); }
  return "[\"err\",\"badquery\"]";
}

// The loops of the header.
static Str do_each(int s, bool keys) {
  Str o = "["; bool first = true; dart_packet_t v; std::memset(&v, 1, sizeof v); void* p = S(s); int n = 0;
  if (keys) { dart_for_each_key(p, &v) { if (!first) o += ','; first = false; enc_c(o, &v, n++); } }
  else if (s % 3 == 1) {      // the same loop by hand
    dart_iterator_t it; auto e = dart_iterator_init_from_err(&it, p); bool open = false;
    if (!e) for (; n < 100000; ) {
      if (dart_iterator_done_destroy(&it, open ? &v : nullptr)) { n = -1; break; }
      if (open) dart_destroy(&v);
      if (dart_iterator_get_err(&v, &it)) { o += "\"badget\""; break; } open = true;
      if (!first) o += ','; first = false; enc_c(o, &v, n++); dart_iterator_next(&it);
    }
    if (!e && n != -1) o += ",\"runaway\"";
  }
  else { dart_for_each(p, &v) { if (!first) o += ','; first = false; enc_c(o, &v, n++); } }
  return okx(o + "]");
}

static Str exec(JV const& op) {
  Str o = op["o"].GetString();
  auto gi = [&] (char const* f) { return op.HasMember(f) && op[f].IsInt() ? op[f].GetInt() : 0; };
  int d = gi("d") - 1, s = gi("s") - 1, how = gi("h");
  if (o == "mk") return do_mk(op, d, how);
  if (o == "va") return do_va(op, d, how);
  if (o == "json") return do_json(op, d, how);
  if (o == "bytes") return do_bytes(op, d, s, how);
  if (o == "copy") return do_copy(d, s, how, false);
  if (o == "move") return do_copy(d, s, how, true);
  if (o == "conv") return do_conv(op, d, s, how);
  if (o == "drop") { Fresh f; keep(f, dart_init()); put(d, f, 0); return "[\"ok\"]"; }
  if (o == "ins") return code(mutate(op, d, how, false));
  if (o == "set") return code(mutate(op, d, how, true));
  if (o == "del") return code(do_del(op, d, how));
  if (o == "clear") { void* t = S(d); bool typed = kind_of(t) == H && how % 2, obj = dart_is_obj(t) || (!dart_is_arr(t) && how / 2 % 2);
    return code(obj ? (typed ? dart_heap_obj_clear(HP(t)) : dart_obj_clear(t)) : (typed ? dart_heap_arr_clear(HP(t)) : dart_arr_clear(t))); }
  if (o == "resize") return code(kind_of(S(d)) == H && how % 2 ? dart_heap_arr_resize(HP(S(d)), size_t(gi("n"))) : dart_arr_resize(S(d), size_t(gi("n"))));
  if (o == "reserve") return code(kind_of(S(d)) == H && how % 2 ? dart_heap_arr_reserve(HP(S(d)), size_t(gi("n"))) : dart_arr_reserve(S(d), size_t(gi("n"))));
  if (o == "fetch") return do_fetch(op, d, s, how);
  if (o == "each") return do_each(s, gi("n") == 1);
  auto drop_it = [&] (It& r) { if (r.on) dart_iterator_destroy(&r.it); r.on = false; };
  if (o == "itnew") {
    if (!dart_is_finalized(S(s)) || dart_is_null(S(s))) return "[\"skip\"]";
    dart_iterator_t it; std::memset(&it, 0x5a, sizeof it);
    auto e = gi("n") == 1 ? dart_iterator_init_key_from_err(&it, S(s)) : dart_iterator_init_from_err(&it, S(s));
    if (!e) { auto& r = its[size_t(gi("i") - 1)]; drop_it(r); r.it = it; r.on = true; }
    return code(e);
  }
  if (o == "itadv") { auto& r = its[size_t(gi("i") - 1)]; return r.on ? code(dart_iterator_next(&r.it)) : "[\"skip\"]"; }
  if (o == "itget") { auto& r = its[size_t(gi("i") - 1)]; if (!r.on) return "[\"skip\"]"; Fresh f; auto e = PAIR(f, dart_packet_t, how, dart_iterator_get, &r.it); return fin(d, f, e); }
  if (o == "itdone") { auto& r = its[size_t(gi("i") - 1)]; return r.on ? okn(dart_iterator_done(&r.it)) : "[\"skip\"]"; }
  if (o == "itcopy" || o == "itmove") {
    auto& a = its[size_t(gi("i") - 1)]; auto& b = its[size_t(gi("n") - 1)]; if (&a == &b || !a.on) return "[\"skip\"]";
    drop_it(b); auto e = o == "itcopy" ? dart_iterator_copy_err(&b.it, &a.it) : dart_iterator_move_err(&b.it, &a.it);
    if (!e) b.on = true; if (o == "itmove") { dart_iterator_destroy(&a.it); dart_iterator_init_err(&a.it); }
    return code(e);
  }
  if (o == "itdrop") { drop_it(its[size_t(gi("i") - 1)]); return "[\"ok\"]"; }
  return "[\"err\",\"badop\"]";
}

static Str step_line(Str const& line) {
  rapidjson::Document op; op.Parse(line.data(), line.size());
  if (op.HasParseError()) { std::fprintf(stderr, "bad program line\n"); _exit(3); }
  int how = op.HasMember("h") ? op["h"].GetInt() : 0;
  provoke(op["o"] != "json");
  Str out = "{\"op\":" + line + ",\"out\":" + guarded([&] { return exec(op); });
  if (op.HasMember("q")) {
    out += ",\"qr\":["; bool f1 = true; int h = how;
    for (auto& e : op["q"].GetArray()) { if (!f1) out += ','; f1 = false; out += guarded([&] { return query_c(e, h++); }); }
    out += ']';
  }
  out += ",\"p\":[";
  for (size_t i = 0; i < sl.size(); ++i) {
    if (i) out += ',';
    out += '['; enc_c(out, S(int(i)), how + int(i)); out += ','; num(out, (long long)(ssize_t) dart_refcount(S(int(i)))); out += ',';
    num(out, dart_is_finalized(S(int(i)))); out += ','; num(out, kind_of(S(int(i)))); out += ','; num(out, rc_of(S(int(i)))); out += ']';
  }
  return out + "]}";
}

static long run_program(std::vector<Str> const& lines, size_t from, size_t to, Tracer& tr) {
  // what stays behind: the sanitizer counts every byte malloc handed out
  size_t before = __sanitizer_get_current_allocated_bytes();
  {
    rapidjson::Document r; r.Parse(lines[from].data(), lines[from].size());
    sl.resize(size_t(r["slots"].GetInt())); its.resize(size_t(r["its"].GetInt()));
    for (auto& c : sl) dart_init_err(&c.p);
  }
  for (size_t i = from + 1; i < to; ++i) tr.line(step_line(lines[i]));
  for (auto& c : sl) dart_destroy(&c.p);
  for (auto& r : its) if (r.on) dart_iterator_destroy(&r.it);
  { std::vector<Cell> a; a.swap(sl); std::vector<It> b; b.swap(its); }
  return long(__sanitizer_get_current_allocated_bytes()) - long(before);
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]); Str line; std::vector<Str> lines;
  while (std::getline(in, line)) lines.push_back(line);
  Tracer tr(argv[2]); long leak = 0; (void) argc;
  for (size_t i = 0; i < lines.size();) {
    size_t j = i + 1;
    while (j < lines.size() && lines[j].compare(0, 12, "{\"o\":\"reset\"") != 0) ++j;
    tr.line("{\"op\":" + lines[i] + ",\"out\":[\"ok\"],\"leak\":" + std::to_string(leak) + "}");
    leak = run_program(lines, i, j, tr);
    if (leak) { static Tracer quiet("/dev/null"); quiet.line("x"); leak = run_program(lines, i, j, quiet); }    // the buffer of the error message grows once
    i = j;
  }
  tr.line(Str("{\"op\":{\"o\":\"end\"},\"out\":[\"ok\"],\"leak\":") + std::to_string(leak) + "}");
  return 0;
}
