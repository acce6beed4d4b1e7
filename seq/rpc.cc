#include "seq.h"
#include "plain/all.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
#include "plain/net/rpc/utility.h"
#include "plain/net/rpc/dispatcher.h"
#include "plain/net/packet/basic.h"
#include <bit>
#include <cmath>
#include <cfloat>
#include <cstring>
#include <memory>
using namespace plain;
using namespace plain::net;
using rpc::Packer; using rpc::Unpacker;
using S = std::string;
using Bytes = std::vector<uint8_t>;

static S hx(const Bytes &b) { return seq::hex({(const char *)b.data(), std::min<size_t>(b.size(), 40)}); }
// An unpacker over an exactly sized heap copy: any read past it is caught.
struct Exact { std::unique_ptr<uint8_t[]> p; Unpacker u; Exact(const Bytes &b, size_t n) : p(new uint8_t[n ? n : 1]), u(p.get(), n) { if (n) memcpy(p.get(), b.data(), n); } };

template <class T> static bool same(const T &a, const T &b) { if constexpr (std::is_floating_point_v<T>) { if (std::isnan(a)) return std::isnan(b); } return a == b; }
template <class T> static void dirty(T &v) { if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) v = (T)0x5a5a5a5a5a5a5a5aull; else if constexpr (std::is_floating_point_v<T>) v = 77; else if constexpr (std::is_same_v<T, bool>) v = true; }
// One value, followed by a marker: the value comes back and exactly its bytes are consumed.
template <class T> static void rt1(Packer &p, const T &v, const char *ty) {
  p.clear(); const S mark = "~mark"; p.process(v, mark);
  auto &b = p.vector(); Unpacker u(b.data(), b.size());
  T w{}; dirty(w); S m; u.process(w, m); seq::step();
  if (!same(v, w) || m != mark || u.error_)
    seq::fail("%s value %s came back as %s (next value %s, error %d), bytes %s", ty, std::is_floating_point_v<T> ? std::to_string((double)v).c_str() : std::to_string((long long)v).c_str(), std::is_floating_point_v<T> ? std::to_string((double)w).c_str() : std::to_string((long long)w).c_str(), m == mark ? "intact" : "damaged", (int)bool(u.error_), hx(b).c_str());
}
template <class T> static T bound(int i) {            // boundary values of an integer type
  using L = std::numeric_limits<T>; int k = i / 3, d = i % 3 - 1;     // around 2^k and -2^k
  if (k < 64) { T b = k < (int)sizeof(T) * 8 ? (T)((unsigned long long)1 << k) : 0; return (T)((unsigned long long)b + d); }
  T b = k - 64 < (int)sizeof(T) * 8 ? (T)(0 - ((unsigned long long)1 << (k - 64))) : L::min(); return (T)((unsigned long long)b + d);
}
SEQ_SCENARIO(rpc_int, "every 8 and 16 bit integer, and 32/64 bit integers around every power of two, survive packing") {
  Packer p; int kind = seq::choose(8, "type");
  if (kind < 2) { int v = seq::choose(256, "value"); if (kind) rt1<uint8_t>(p, (uint8_t)v, "uint8"); else rt1<int8_t>(p, (int8_t)(v - 128), "int8"); seq::state(kind * 256 + v); }
  else if (kind < 4) { int hi = seq::choose(256, "high byte"); for (int lo = 0; lo < 256; ++lo) { if (kind == 2) rt1<int16_t>(p, (int16_t)(hi << 8 | lo), "int16"); else rt1<uint16_t>(p, (uint16_t)(hi << 8 | lo), "uint16"); seq::state(0x100000ull * kind + (hi << 8 | lo)); } }
  else {
    int i = seq::choose(384, "power");
    // a power of two, times a small factor, plus or minus one
    for (int m : {1, 3, 7, 31}) for (int s : {1, -1}) { unsigned long long x = (unsigned long long)bound<int64_t>(i) * m * s; seq::state(x * 8 + kind);
      if (kind == 4) rt1<int32_t>(p, (int32_t)x, "int32"); if (kind == 5) rt1<uint32_t>(p, (uint32_t)x, "uint32");
      if (kind == 6) rt1<int64_t>(p, (int64_t)x, "int64"); if (kind == 7) rt1<uint64_t>(p, x, "uint64"); }
  }
}
SEQ_SCENARIO(rpc_int32_all, "32 bit integers: every value whose low or high half is a boundary (thorough: every value)") {
  Packer p; int hi = seq::choose(4096, "high 12 bits"); bool uns = seq::flag("unsigned");
  uint32_t stepv = seq::thorough() ? 1 : 509;
  for (uint32_t lo = 0; lo < (1u << 20); lo += stepv) { uint32_t v = (uint32_t)hi << 20 | lo; if (uns) rt1<uint32_t>(p, v, "uint32"); else rt1<int32_t>(p, (int32_t)v, "int32"); }
  seq::state(hi * 2 + uns);
}
SEQ_SCENARIO(rpc_float, "floats: every exponent, sign and a set of mantissas (thorough: every float)") {
  Packer p; int e = seq::choose(512, "sign and exponent");
  if (seq::thorough()) { int m0 = seq::choose(16, "mantissa"); for (uint32_t m = 0; m < (1u << 19); ++m) rt1<float>(p, std::bit_cast<float>((uint32_t)e << 23 | (uint32_t)m0 << 19 | m), "float"); seq::state(e * 16 + m0); }
  else { for (uint32_t k = 0; k < 23; ++k) for (uint32_t x : {0u, 1u, 0x7fffffu, 0x2aaaaau}) { uint32_t m = (x ^ (1u << k)) & 0x7fffff; rt1<float>(p, std::bit_cast<float>((uint32_t)e << 23 | m), "float"); } rt1<float>(p, std::bit_cast<float>((uint32_t)e << 23), "float"); seq::state(e); }
}
SEQ_SCENARIO(rpc_double, "doubles: every exponent and sign, mantissas around every bit; integral values around every power of two") {
  Packer p; int e = seq::choose(4096, "sign and exponent");
  for (int k = 0; k < 52; ++k) for (uint64_t x : {0ull, 1ull, 0xfffffffffffffull, 0xaaaaaaaaaaaaaull}) { uint64_t m = (x ^ (1ull << k)) & 0xfffffffffffffull; rt1<double>(p, std::bit_cast<double>((uint64_t)e << 52 | m), "double"); }
  rt1<double>(p, std::bit_cast<double>((uint64_t)e << 52), "double");
  if (e < 192) { double b = std::ldexp(1.0, e / 2) * (e & 1 ? -1 : 1); for (double d : {-1.0, 0.0, 1.0, 3.0, 0.5}) rt1<double>(p, b + d, "double"); }
  if (e < 2000) rt1<double>(p, e - 1000, "double"), rt1<float>(p, (float)(e - 1000), "float");
  seq::state(e);
}

struct Inner { S s; int n{}; template <class T> void pack(T &p) { p(s, n); } bool operator==(const Inner &) const = default; };
struct Outer { Inner i; std::vector<Inner> v; std::map<S, int64_t> m; uint64_t u{}; template <class T> void pack(T &p) { p(i, v, m, u); } bool operator==(const Outer &) const = default; };
template <class F> static void with_value(int t, F &&f) {
  switch (t) {
    case 0: f(int32_t(-5)); break; case 1: f(uint8_t(2)); break; case 2: f(uint32_t(70000)); break; case 3: f(uint64_t(5000000000ull)); break;
    case 4: f(int64_t(-40000)); break; case 5: f(true); break; case 6: f(false); break; case 7: f(0.1); break; case 8: f(-7.0f); break;
    case 9: f(S("hello")); break; case 10: f(S()); break; case 11: f(S(40, 'q')); break;
    case 12: f(Bytes{1, 2, 3}); break; case 13: f(std::vector<int32_t>{-1, 0, 1, 300, INT32_MIN}); break; case 14: f(std::list<S>{"a", "", "ccc"}); break;
    case 15: f(std::map<S, bool>{{"x", true}, {"y", false}}); break; case 16: f(std::tuple<int32_t, S, double>{7, "t", -2.25}); break;
    case 17: f(std::array<uint16_t, 3>{2, 4, 600}); break; case 18: f(Inner{"in", -9}); break;
    case 19: f(Outer{{"o", 1}, {{"a", 2}, {"b", -300}}, {{"k", -1}, {"z", 1ll << 40}}, 4}); break;
    case 20: f(std::vector<std::vector<uint32_t>>{{}, {6}, {8, 9}}); break; case 21: f(std::chrono::system_clock::time_point{std::chrono::system_clock::duration{-12345678901ll}}); break;
    case 22: f(std::unordered_map<uint8_t, S>{{2, "two"}}); break; case 23: f(uint16_t(4)); break; case 24: f(uint16_t(300)); break;
  }
}
constexpr int NV = 25;
SEQ_SCENARIO(rpc_sequence, "every sequence of values of all supported types comes back in order from one buffer") {
  int n = seq::thorough() ? 4 : 3, ty[4]; Packer p;
  for (int i = 0; i < n; ++i) { ty[i] = seq::choose(NV, "value"); with_value(ty[i], [&](const auto &v) { p.process(v); }); }
  Exact x(p.vector(), p.vector().size());
  for (int i = 0; i < n; ++i) with_value(ty[i], [&](const auto &v) {
    std::decay_t<decltype(v)> w{}; dirty(w); x.u.process(w); seq::step(); seq::note("type %d", ty[i]);
    SEQ_CHECK(w == v && !x.u.error_, "value %d of kinds %d,%d,%d came back different (error %d), bytes %s", i, ty[0], ty[1], ty[2], (int)bool(x.u.error_), hx(p.vector()).c_str());
  });
  uint8_t b; x.u.process(b); SEQ_CHECK(bool(x.u.error_), "reading past the last value reports no error");
  seq::state(seq::hash(p.vector().data(), p.vector().size()));
}
SEQ_SCENARIO(rpc_sizes, "strings, byte arrays, arrays and maps of every size class survive packing") {
  static const int SZ[] = {0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 127, 128, 253, 254, 255, 256, 257, 1000, 65533, 65534, 65535, 65536, 65537, 70000};
  int n = SZ[seq::choose(24, "size")], kind = seq::choose(6, "kind"); Packer p; const S mark = "M"; S m; seq::note("kind %d size %d", kind, n); seq::step();
  auto go = [&](const auto &v) { p.process(v, mark); Exact x(p.vector(), p.vector().size()); std::decay_t<decltype(v)> w{}; x.u.process(w, m); SEQ_CHECK(w == v && m == mark && !x.u.error_, "a container (kind %d) of %d elements came back different", kind, n); };
  if (kind == 0) { S s; for (int i = 0; i < n; ++i) s += (char)(i * 7); go(s); }
  if (kind == 1) { Bytes s; for (int i = 0; i < n; ++i) s.push_back(i * 5); go(s); }
  if (kind == 2) { std::vector<int32_t> s; for (int i = 0; i < n; ++i) s.push_back(i * 31 - 500); go(s); }
  if (kind == 3) { std::map<uint32_t, bool> s; for (int i = 0; i < n; ++i) s[i * 3] = i & 1; go(s); }
  if (kind == 4) { std::list<S> s; for (int i = 0; i < std::min(n, 2000); ++i) s.push_back(S(i % 40, 'x')); go(s); }
  if (kind == 5) { std::vector<uint16_t> s; for (int i = 0; i < n; ++i) s.push_back(i); go(s); }
  seq::state(n * 10 + kind);
}
SEQ_SCENARIO(rpc_truncated, "every proper prefix of every encoded value sequence is reported as an error, without reading outside") {
  int a = seq::choose(NV, "first"), b = seq::choose(NV, "second"); Packer p;
  with_value(a, [&](const auto &v) { p.process(v); }); with_value(b, [&](const auto &v) { p.process(v); });
  size_t n = p.vector().size(); size_t cut = seq::choose((int)n, "cut");
  Exact x(p.vector(), cut); seq::step(); seq::note("kinds %d,%d cut at %zu of %zu", a, b, cut, n);
  with_value(a, [&](const auto &v) { std::decay_t<decltype(v)> w{}; x.u.process(w); }); with_value(b, [&](const auto &v) { std::decay_t<decltype(v)> w{}; x.u.process(w); });
  SEQ_CHECK(bool(x.u.error_), "values of kinds %d,%d cut after %zu of %zu bytes are unpacked without an error", a, b, cut, n);
  seq::state(a * 1000003 + b * 1009 + cut);
}
template <class T> static size_t weight(const T &) { return 1; }
static size_t weight(const S &s) { return s.size(); }
template <class T> static size_t weight(const std::vector<T> &v) { size_t r = v.size(); for (auto &x : v) r += weight(x); return r; }
template <class T> static size_t weight(const std::list<T> &v) { size_t r = v.size(); for (auto &x : v) r += weight(x); return r; }
template <class K, class T> static size_t weight(const std::map<K, T> &v) { return v.size(); }
static size_t weight(const Inner &i) { return weight(i.s); }
static size_t weight(const Outer &i) { return weight(i.i) + weight(i.v) + weight(i.m); }
template <class T> static void hostile(const Bytes &b) { Exact x(b, b.size()); T w{}; x.u.process(w); size_t k = weight(w); SEQ_CHECK(k <= b.size() * 2 + 2, "%zu bytes of input made a value of weight %zu: %s", b.size(), k, hx(b).c_str()); seq::step(); }
SEQ_SCENARIO(rpc_hostile, "arbitrary bytes: every input of up to 2 bytes, and every first byte with boundary size fields, into every type: no crash, no read outside, no blow-up") {
  Bytes b; int mode = seq::choose(2, "mode");
  if (mode == 0) { int len = seq::choose(seq::thorough() ? 4 : 3, "length"); for (int i = 0; i < len; ++i) b.push_back(seq::choose(256, "byte")); }
  else { b.push_back(seq::choose(256, "first byte")); static const uint8_t F[] = {0, 1, 0x7f, 0x80, 0xff}; for (int i = 0; i < 4; ++i) b.push_back(F[seq::choose(5, "size byte")]); int tail = seq::choose(4, "tail"); for (int i = 0; i < (int[]){0, 1, 3, 9}[tail]; ++i) b.push_back((uint8_t)(0x95 + i * 13)); }
  hostile<int8_t>(b); hostile<uint8_t>(b); hostile<int16_t>(b); hostile<uint16_t>(b); hostile<int32_t>(b); hostile<uint32_t>(b); hostile<int64_t>(b); hostile<uint64_t>(b); hostile<bool>(b); hostile<float>(b); hostile<double>(b);
  hostile<S>(b); hostile<Bytes>(b); hostile<std::vector<int32_t>>(b); hostile<std::list<S>>(b); hostile<std::map<S, int32_t>>(b); hostile<Inner>(b); hostile<Outer>(b); hostile<std::vector<std::vector<uint32_t>>>(b); hostile<std::array<uint16_t, 3>>(b); hostile<std::tuple<S, int32_t>>(b);
  seq::state(seq::hash(b.data(), b.size()));
}

// ------------------------------------------------------------------ dispatcher
SEQ_SCENARIO(rpc_dispatch, "calls reach the function bound to their name with the caller's arguments, and return its result; unknown names are errors") {
  rpc::Dispatcher d; std::map<S, bool> bound; std::vector<S> log;
  static const S NAMES[] = {"f0", "f1", "f2", "f3", ""};
  int steps = seq::thorough() ? 6 : 5;
  for (int i = 0; i < steps; ++i) {
    int op = seq::choose(12, "op"); seq::step();
    if (op < 4) {
      bool dup = bound.count(NAMES[op]); bool threw = false;
      try {
        if (op == 0) d.bind(NAMES[0], [&] { log.push_back("f0"); });
        if (op == 1) d.bind(NAMES[1], [&](int32_t a, S s) { log.push_back("f1 " + std::to_string(a) + s); });
        if (op == 2) d.bind(NAMES[2], [&] { log.push_back("f2"); return S("two"); });
        if (op == 3) d.bind(NAMES[3], [&](int32_t a, double b) { log.push_back("f3"); return a * b; });
      } catch (const std::exception &) { threw = true; }
      seq::note("bind f%d", op);
      SEQ_CHECK(threw == dup, "binding %s a %s time %s", NAMES[op].c_str(), dup ? "second" : "first", threw ? "fails" : "succeeds");
      bound[NAMES[op]] = true;
    } else if (op < 6) { d.unbind(NAMES[op - 3]); bound.erase(NAMES[op - 3]); seq::note("unbind f%d", op - 3); }
    else {
      int f = op - 6; S name = f < 4 ? NAMES[f] : f == 4 ? S("nope") : S(); seq::note("call %s", name.c_str());
      Packer p; if (f == 1) p.process(int32_t(-5), S("arg")); if (f == 3) p.process(int32_t(-3), 0.5);
      auto pk = std::make_shared<packet::Basic>(); pk->set_writeable(true); *pk << std::string_view(name); pk->write(as_const_bytes(p.vector())); pk->set_readable(true);
      size_t before = log.size(); auto r = d.dispatch(pk);
      if (!bound.count(name)) { SEQ_CHECK(r.index() == 1 && log.size() == before, "a call to the unbound name '%s' %s", name.c_str(), log.size() != before ? "ran a function" : "succeeded"); }
      else {
        SEQ_CHECK(r.index() == 0 && log.size() == before + 1, "a call to %s ran %zu functions", name.c_str(), log.size() - before);
        S want = f == 0 ? "f0" : f == 1 ? "f1 -5arg" : f == 2 ? "f2" : "f3"; SEQ_CHECK(log.back() == want, "a call to %s ran %s", name.c_str(), log.back().c_str());
        auto q = std::get<0>(r);
        if (f == 2) { SEQ_CHECK(bool(q), "no result"); Unpacker u(q->vector().data(), q->vector().size()); SEQ_CHECK(u.as<S>() == "two", "wrong result of f2"); }
        if (f == 3) { SEQ_CHECK(bool(q), "no result"); Unpacker u(q->vector().data(), q->vector().size()); SEQ_CHECK(u.as<double>() == -1.5, "wrong result of f3"); }
      }
    }
    auto nm = d.names(); SEQ_CHECK(nm.size() == bound.size(), "names() lists %zu of %zu functions", nm.size(), bound.size());
    uint64_t h = 1; for (auto &x : bound) h = seq::hash(x.first, h); seq::state(h + log.size());
  }
}
