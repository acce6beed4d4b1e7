// The memory pool and the stack on it, one thread: every sequence of operations against a ledger.
#include "seq.h"
#include "plain/all.h"
#include "plain/sys/memory/pool.h"
#include "plain/sys/memory/stack_allocator.h"
#include <cstring>
#include <list>
#include <map>
#include <set>
#include <vector>
#include <string>
using namespace plain::memory;
struct Blk { unsigned char *p; size_t n; unsigned char tag; };
static const size_t SZ[] = {0, 1, 16, 17, 70, 300, (size_t)-1, (size_t)1 << 31, ((size_t)1 << 32) + 8, (size_t)-16};
template <class P> static bool throws_range(P &&f) { try { f(); return false; } catch (const std::range_error &) { return true; } }
template <class P> static void intact(const std::list<Blk> &live, P &p) {
  for (auto &b : live) for (size_t i = 0; i < b.n; ++i) SEQ_CHECK(b.p[i] == b.tag, "byte %zu of a block of %zu was changed", i, b.n);
}
template <bool OS, bool RAISE> static void program(int depth, int sizes) {
  typedef Pool<165, 2, 40, OS, RAISE> P; typedef Pool<165, 1, 40, true, true> Q;
  std::vector<int> op, arg; for (int i = 0; i < depth; ++i) { int o = seq::choose(4, "op"); op.push_back(o); arg.push_back(o == 0 ? seq::choose(sizes, "size") : o == 1 ? seq::choose(3, "which") : o == 2 ? seq::choose(3, "whose") : 0); }
  auto pp = std::make_unique<P>(); P &p = *pp; Q other; std::list<Blk> live; unsigned char tag = 1; void *foreign = other.malloc(20); alignas(16) static char fake[64];
  for (int k = 0; k < depth; ++k) {
    if (op[k] == 0) { size_t n = SZ[arg[k]]; void *b = nullptr; bool th = throws_range([&] { b = p.malloc(n); });
      SEQ_CHECK(!(th && b), "thrown and returned"); SEQ_CHECK(!th || (!OS && RAISE), "malloc threw although the system is asked"); SEQ_CHECK(!OS || n > 1000 || b, "no block of %zu bytes", n);
      SEQ_CHECK(!b || n < 1000, "a block of %zu bytes, really?", n);
      SEQ_CHECK(b || !live.empty() || n > 128, "an empty pool has no block of %zu bytes", n);
      if (!b) continue;
      auto *c = (unsigned char *)b; SEQ_CHECK((uintptr_t)c % 16 == 0, "a block of %zu bytes is not aligned", n);
      for (auto &o : live) SEQ_CHECK(c + n <= o.p || o.p + o.n <= c, "a block of %zu bytes overlaps one of %zu bytes", n, o.n);
      memset(c, tag, n); live.push_back({c, n, tag}); ++tag; }
    else if (op[k] == 1) { if (live.empty()) continue; auto it = arg[k] == 0 ? live.begin() : arg[k] == 1 ? std::prev(live.end()) : std::next(live.begin(), live.size() / 2);
      intact(live, p); SEQ_CHECK(!throws_range([&] { p.free(it->p); }), "the pool refuses its own block"); live.erase(it); }
    else if (op[k] == 2) { void *x = arg[k] == 0 ? foreign : arg[k] == 1 ? (void *)(fake + 32) : nullptr; if (!x) { if (live.empty()) continue; x = live.front().p; SEQ_CHECK(throws_range([&] { other.free(x); }) || OS, "another pool took the block"); if (OS) { live.pop_front(); } continue; }
      if (arg[k] == 0 && OS) continue;
      if (arg[k] == 0) { bool th = throws_range([&] { p.free(x); }); SEQ_CHECK(th == RAISE, "a foreign block: threw %d", th); } else { bool th = throws_range([&] { p.free(x); }); SEQ_CHECK(th == RAISE, "no block at all: threw %d", th); } }
    else for (auto &b : live) for (long from : {-17L, -1L, 0L, 1L, (long)b.n}) for (long len : {0L, 1L, (long)b.n, (long)b.n + 1}) {
      bool in = from >= 0 && from + len <= (long)b.n, got = false; bool th = throws_range([&] { got = p.check_access(b.p, b.p + from, len); });
      SEQ_CHECK(got == in && th == (RAISE && !in), "access to %ld bytes at %ld of a block of %zu: %d, threw %d", len, from, b.n, got, th); }
    intact(live, p);
  }
  while (!live.empty()) { p.free(live.front().p); live.pop_front(); }
  // all of it can be had again: two leaves of ten units, a block of 48 bytes takes four (with its header)
  if (!OS) { int n = 0; std::vector<void *> v; for (;;) { void *b = nullptr; bool th = throws_range([&] { b = p.malloc(48); }); if (!b) { SEQ_CHECK(th == RAISE, "exhausted: threw %d", th); break; } v.push_back(b); memset(b, 9, 48); ++n; }
    SEQ_CHECK(n == 4, "%d blocks of 48 bytes fit after everything was returned", n); for (void *b : v) p.free(b); }
  other.free(foreign);
}
SEQ_SCENARIO(mp_program, "all programs of malloc/free/foreign free/access checks on pools with and without the system behind them") {
  int kind = seq::choose(4, "kind"), d = seq::thorough() ? 6 : 5;
  switch (kind) { case 0: program<false, false>(d, 6); break; case 1: program<false, true>(d - 1, 10); break; case 2: program<true, false>(d - 1, 10); break; default: program<true, true>(d - 1, 10); }
}
template <class T> using PA = PoolAllocator<T, Pool<400, 2, 64>>;
static int s_made, s_gone;
struct Obj { int v; std::string s; Obj(int x = 0) : v(x), s(30, (char)('a' + x % 26)) { ++s_made; } Obj(const Obj &o) : v(o.v), s(o.s) { ++s_made; } Obj(Obj &&o) noexcept : v(o.v), s(std::move(o.s)) { ++s_made; } Obj &operator=(const Obj &) = default; Obj &operator=(Obj &&) = default; ~Obj() { ++s_gone; } };
SEQ_SCENARIO(mp_containers, "vectors on pools (default, shared, own instances): filled, copied, moved, swapped, assigned") {
  int n = seq::choose(6, "elements"), m = seq::choose(4, "elements of the other"), what = seq::choose(8, "what"), same = seq::choose(2, "same pool");
  Pool<400, 2, 64> a, b; s_made = s_gone = 0;
  { std::vector<Obj, PA<Obj>> x{PA<Obj>(&a)}, y{PA<Obj>(same ? &a : &b)};
    for (int i = 0; i < n; ++i) x.emplace_back(i); for (int i = 0; i < m; ++i) y.emplace_back(100 + i);
    auto is = [&](const std::vector<Obj, PA<Obj>> &v, int from, int k) { SEQ_CHECK((int)v.size() == k, "size %zu", v.size()); for (int i = 0; i < k; ++i) SEQ_CHECK(v[i].v == from + i && v[i].s == std::string(30, (char)('a' + (from + i) % 26)), "element %d", i); };
    switch (what) {
      case 0: is(x, 0, n); is(y, 100, m); break;
      case 1: { auto z = x; is(z, 0, n); is(x, 0, n); break; }
      case 2: { auto z = std::move(x); is(z, 0, n); break; }
      case 3: y = x; is(y, 0, n); is(x, 0, n); break;
      case 4: y = std::move(x); is(y, 0, n); break;
      case 5: if (same) { std::swap(x, y); is(y, 0, n); is(x, 100, m); } break;
      case 6: { std::vector<Obj, PA<Obj>> z; for (int i = 0; i < n; ++i) z.emplace_back(i); is(z, 0, n); break; }
      case 7: x.erase(x.begin(), x.begin() + n / 2); x.shrink_to_fit(); is(x, n / 2, n - n / 2); break; } }
  SEQ_CHECK(s_made == s_gone, "%d objects made, %d destroyed", s_made, s_gone);
}
SEQ_SCENARIO(mp_stack, "the stack: every program of push, pop, top, clear against a vector; every element destroyed once") {
  int d = seq::thorough() ? 9 : 7, al = seq::choose(2, "allocator"); std::vector<int> op; for (int i = 0; i < d; ++i) op.push_back(seq::choose(4, "op"));
  s_made = s_gone = 0; std::vector<int> ref;
  auto go = [&](auto &st) { for (int i = 0; i < d; ++i) { switch (op[i]) {
      case 0: st.push(Obj(i)); ref.push_back(i); break;
      case 1: if (!ref.empty()) { Obj o = st.pop(); SEQ_CHECK(o.v == ref.back() && o.s == std::string(30, (char)('a' + ref.back())), "popped %d instead of %d", o.v, ref.back()); ref.pop_back(); } break;
      case 2: if (!ref.empty()) SEQ_CHECK(st.top().v == ref.back(), "top"); break;
      case 3: st.clear(); ref.clear(); break; }
    SEQ_CHECK(st.empty() == ref.empty(), "empty"); } };
  if (al) { StackAllocator<Obj, PoolAllocator<Obj>> st; go(st); } else { StackAllocator<Obj> st; go(st); }
  SEQ_CHECK(s_made == s_gone, "%d objects made, %d destroyed", s_made, s_gone);
}
