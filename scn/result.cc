// Result / promise hand-off, shared results, when_all / when_any.
#include "common.h"
namespace cr = plain::concurrency::result;
using Worker = plain::concurrency::executor::WorkerThread;
using Manual = plain::concurrency::executor::Manual;
using InlineEx = plain::concurrency::executor::Inline;

// Payload whose live instances are counted: at the end of a scenario none may be left,
// and no instance may be destroyed twice (heap-backed so that misuse is also a memory error).
struct Val {
  int *p; 
  explicit Val(int x) : p(new int(x)) { mc_cnt_add(C_MISC, 1); }
  Val(Val &&o) noexcept : p(o.p) { o.p = nullptr; }
  Val &operator=(Val &&o) noexcept { std::swap(p, o.p); return *this; }
  Val(const Val &) = delete;
  ~Val() { if (p) { mc_cnt_add(C_MISC, -1); delete p; } }
  int v() const { return p ? *p : -1; }
};
struct Boom { int code; };
static void no_leak() { MC_CHECK(mc_cnt(C_MISC) == 0, "%d payload objects leaked", (int)mc_cnt(C_MISC)); }

// The producer side: kind chosen by the explorer. Expected outcome: 0 value, 1 exception, 2 broken.
static int produce(ResultPromise<Val> &p, int kind) {
  switch (kind) {
    case 0: p.set_result(7); return 0;
    case 1: p.set_exception(std::make_exception_ptr(Boom{7})); return 1;
    case 2: p.set_from_function([] { return Val(7); }); return 0;
    case 3: p.set_from_function([]() -> Val { throw Boom{7}; }); return 1;
    default: { ResultPromise<Val> q(std::move(p)); } return 2;
  }
}
static const int outcome_of[] = {0, 1, 0, 1, 2};
enum { KINDS = 5 };
template <class R> static int outcome(R &&get) {
  try { int v = get(); MC_CHECK(v == 7, "value %d instead of 7", v); return 0; }
  catch (const Boom &b) { MC_CHECK(b.code == 7, "exception code"); return 1; }
  catch (const std::runtime_error &) { return 2; }
}
static void check_outcome(int kind, int got, const char *mode) {
  MC_CHECK(got == outcome_of[kind], "%s: producer kind %d must end as %d, consumer saw %d", mode, kind, outcome_of[kind], got);
}
static const ResultStatus status_of[] = {ResultStatus::Value, ResultStatus::Exception, ResultStatus::Value, ResultStatus::Exception, ResultStatus::Exception};

static cr::null co_consume(Result<Val> r, int kind, int tag) {
  int got = 9;
  try { Val v = co_await r; MC_CHECK(v.v() == 7, "co_await value %d", v.v()); got = 0; }
  catch (const Boom &b) { got = 1; } catch (const std::runtime_error &) { got = 2; }
  check_outcome(kind, got, "co_await");
  if (mc_cnt_add(C_RUN + tag, 1) != 1) mc_fail("coroutine resumed twice");
}
static cr::null co_resolve(Result<Val> r, int kind, int tag) {
  auto q = co_await r.resolve();
  MC_CHECK(!r, "resolve left the source result non-empty");
  MC_CHECK(q.status() == status_of[kind], "resolve: status");
  check_outcome(kind, outcome([&] { return q.get().v(); }), "resolve");
  if (mc_cnt_add(C_RUN + tag, 1) != 1) mc_fail("coroutine resumed twice");
}
static void consumer_modes(int lo, int hi) {
  int kind = mc_choose(KINDS, "producer kind");
  int mode = lo + mc_choose(hi - lo, "consumer mode");
  ResultPromise<Val> p;
  auto r = p.get_result();
  std::thread t([p = std::move(p), kind]() mutable { produce(p, kind); });
  switch (mode) {
    case 0: check_outcome(kind, outcome([&] { return r.get().v(); }), "get"); MC_CHECK(!r, "get left result non-empty"); break;
    case 1: r.wait(); MC_CHECK(r.status() == status_of[kind], "status after wait()"); check_outcome(kind, outcome([&] { return r.get().v(); }), "wait+get"); break;
    case 2: { uint64_t t0 = mc_now_ns(); auto s = r.wait_for(10ms); uint64_t dt = mc_now_ns() - t0;
      MC_CHECK(s == ResultStatus::Idle || s == status_of[kind], "wait_for status");
      MC_CHECK(s != ResultStatus::Idle || dt >= 10000000ull, "wait_for reported idle after %llu ns", (unsigned long long)dt);
      MC_CHECK(s != ResultStatus::Idle || mc_early_timeouts() > 0, "wait_for slept through the completion");
      check_outcome(kind, outcome([&] { return r.get().v(); }), "wait_for+get"); break; }
    case 3: { auto s = r.wait_until(std::chrono::steady_clock::now() + 10ms);
      MC_CHECK(s == ResultStatus::Idle || s == status_of[kind], "wait_until status");
      auto s2 = r.wait_for(0ms); MC_CHECK(s == ResultStatus::Idle || s == s2, "status went backwards");
      r.wait(); MC_CHECK(r.status() == status_of[kind], "status after wait"); check_outcome(kind, outcome([&] { return r.get().v(); }), "wait_until+get"); break; }
    case 4: { auto s = r.status(); MC_CHECK(s == ResultStatus::Idle || s == status_of[kind], "status()"); auto q = std::move(r); MC_CHECK(!r, "moved-from"); check_outcome(kind, outcome([&] { return q.get().v(); }), "move+get"); break; }
    case 5: { Result<Val> q = std::move(r); }  break;                // dropped unconsumed
    case 6: co_consume(std::move(r), kind, 0); t.join(); MC_CHECK(mc_cnt(C_RUN) == 1, "awaiting coroutine not resumed after the producer finished"); no_leak(); return;
    case 7: co_resolve(std::move(r), kind, 0); t.join(); MC_CHECK(mc_cnt(C_RUN) == 1, "resolving coroutine not resumed after the producer finished"); no_leak(); return;
    case 8: { auto s = r.wait_for(3ms); Result<Val> q; q = std::move(r); s = q.wait_for(3ms); co_consume(std::move(q), kind, 0); t.join(); MC_CHECK(mc_cnt(C_RUN) == 1, "not resumed"); no_leak(); return; }
  }
  t.join(); no_leak();
}
MC_SCENARIO(result_block, "blocking consumers (get, wait, wait_for, wait_until, status, drop) against every producer outcome") { consumer_modes(0, 6); }
MC_SCENARIO(result_co, "coroutine consumers (co_await, resolve, timed wait then co_await) against every producer outcome") { consumer_modes(6, 9); }

MC_SCENARIO(result_empty, "operations on empty results / promises throw and the object stays usable") {
  Result<Val> e; ResultPromise<Val> p;
  auto thr = [](auto f) { try { f(); return false; } catch (const std::exception &) { return true; } };
  MC_CHECK(thr([&] { e.get(); }) && thr([&] { e.wait(); }) && thr([&] { e.status(); }) && thr([&] { e.wait_for(1ms); }), "empty result operation did not throw");
  auto r = p.get_result(); MC_CHECK(thr([&] { p.get_result(); }), "second get_result did not throw");
  MC_CHECK(thr([&] { p.set_exception(nullptr); }), "null exception accepted");
  p.set_result(7); MC_CHECK(!p, "promise non-empty after set_result"); MC_CHECK(thr([&] { p.set_result(8); }), "second set_result did not throw");
  MC_CHECK(r.get().v() == 7, "value"); MC_CHECK(thr([&] { r.get(); }), "second get did not throw");
  { ResultPromise<Val> q; auto r1 = q.get_result(); q = ResultPromise<Val>(); MC_CHECK(outcome([&] { return r1.get().v(); }) == 2, "overwritten promise must break its task"); }
  { auto ok = cr::make_ready<Val>(7); MC_CHECK(ok.status() == ResultStatus::Value && ok.get().v() == 7, "make_ready"); auto ex = cr::make_exceptional<Val>(Boom{7}); MC_CHECK(ex.status() == ResultStatus::Exception && outcome([&] { return ex.get().v(); }) == 1, "make_exceptional"); }
  no_leak();
}
// void and reference results through submit
MC_SCENARIO(result_types, "void / reference results and coroutine chains over a worker thread") {
  auto w = std::make_shared<Worker>(); static int target; target = 0;
  auto a = w->submit([] { target = 5; });
  auto b = w->submit([]() -> int & { return target; });
  int k = mc_choose(2, "order");
  if (k) { a.get(); int &x = b.get(); MC_CHECK(&x == &target && x == 5, "reference result"); }
  else { int &x = b.get(); MC_CHECK(&x == &target && x == 5, "reference result"); a.get(); }
  auto chain = [](executor_tag, std::shared_ptr<Worker> w) -> Result<int> {
    int x = co_await w->submit([] { return 20; });
    int y = co_await w->submit([x] { return x + 1; });
    co_return x + y; };
  int v = chain({}, w).get(); MC_CHECK(v == 41, "chain result %d", v);
  w->shutdown();
}
// ---------------------------------------------------------------- shared results
static cr::null co_shared(cr::Shared<Val> s, int kind, int tag) {
  int got = 9;
  try { Val &v = co_await s; MC_CHECK(v.v() == 7, "shared value %d", v.v()); got = 0; }
  catch (const Boom &) { got = 1; } catch (const std::runtime_error &) { got = 2; }
  check_outcome(kind, got, "co_await shared");
  if (mc_cnt_add(C_RUN + tag, 1) != 1) mc_fail("coroutine %d resumed twice", tag);
}
static cr::null co_shared_resolve(cr::Shared<Val> s, int kind, int tag) {
  auto q = co_await s.resolve();
  MC_CHECK(q.status() == status_of[kind], "shared resolve status");
  check_outcome(kind, outcome([&] { return q.get().v(); }), "shared resolve");
  if (mc_cnt_add(C_RUN + tag, 1) != 1) mc_fail("coroutine %d resumed twice", tag);
}
static void shared_use(cr::Shared<Val> s, int mode, int kind, int tag) {
  switch (mode) {
    case 0: check_outcome(kind, outcome([&] { return s.get().v(); }), "shared get"); check_outcome(kind, outcome([&] { return s.get().v(); }), "shared get twice"); mc_cnt_add(C_RUN + tag, 1); break;
    case 1: { uint64_t t0 = mc_now_ns(); auto st = s.wait_for(10ms); MC_CHECK(st == ResultStatus::Idle || st == status_of[kind], "shared wait_for status %d", (int)st);
      MC_CHECK(st != ResultStatus::Idle || mc_now_ns() - t0 >= 10000000ull, "shared wait_for early");
      s.wait(); MC_CHECK(s.status() == status_of[kind], "shared status after wait"); mc_cnt_add(C_RUN + tag, 1); break; }
    case 2: co_shared(s, kind, tag); break;
    case 3: co_shared_resolve(s, kind, tag); break;
    case 4: s = cr::Shared<Val>(); mc_cnt_add(C_RUN + tag, 1); break;   // dropped
  }
}
MC_SCENARIO(shared_fan, "two consumers of one shared result in every pair of modes, against every producer outcome") {
  int kind = mc_choose(KINDS, "producer kind"), m1 = mc_choose(5, "mode 1"), m2 = mc_choose(5, "mode 2");
  if (m1 < m2) return;   // symmetric
  { ResultPromise<Val> p; auto r = p.get_result();
    std::thread t([p = std::move(p), kind]() mutable { produce(p, kind); });
    cr::Shared<Val> s(std::move(r));
    std::thread c([s, m2, kind]() mutable { shared_use(std::move(s), m2, kind, 1); });
    shared_use(std::move(s), m1, kind, 0);
    t.join(); c.join(); }
  MC_CHECK(mc_cnt(C_RUN) == 1 && mc_cnt(C_RUN + 1) == 1, "shared consumers completed %d/%d", (int)mc_cnt(C_RUN), (int)mc_cnt(C_RUN + 1));
  no_leak();
}
MC_SCENARIO(shared_drop, "the only shared result is dropped while the producer completes") {
  int kind = mc_choose(KINDS, "producer kind");
  ResultPromise<Val> p; auto r = p.get_result();
  std::thread t([p = std::move(p), kind]() mutable { produce(p, kind); });
  { cr::Shared<Val> s(std::move(r)); }
  t.join(); no_leak();
}
// ---------------------------------------------------------------- when_all / when_any
static Result<int> one(ResultPromise<int> &p) { return p.get_result(); }
static void check_int(Result<int> &r, int kind, int want) {
  MC_CHECK(static_cast<bool>(r), "result %d came back empty", want);
  try { int v = r.get(); MC_CHECK(kind == 0 && v == want, "result: value %d, expected %d (kind %d)", v, want, kind); }
  catch (const Boom &b) { MC_CHECK(kind == 1 && b.code == want, "wrong exception"); }
}
static void finish(ResultPromise<int> &p, int kind, int v) { if (kind == 0) p.set_result(v); else p.set_exception(std::make_exception_ptr(Boom{v})); }
MC_SCENARIO(when_all2, "when_all of two results completed by two threads (tuple and range form)") {
  auto ex = std::make_shared<InlineEx>();
  int k = mc_choose(4, "kinds"), range = mc_choose(2, "range");
  ResultPromise<int> p[2]; Result<int> r[2] = {p[0].get_result(), p[1].get_result()};
  std::thread a([q = std::move(p[0]), k]() mutable { finish(q, k & 1, 10); mc_cnt_add(C_DONE, 1); });
  std::thread b([q = std::move(p[1]), k]() mutable { finish(q, k >> 1, 11); mc_cnt_add(C_DONE, 1); });
  if (range) { auto v = cr::when_all(ex, r, r + 2).run().get(); MC_CHECK(v.size() == 2, "size");
    for (int i = 0; i < 2; ++i) MC_CHECK(v[i].status() != ResultStatus::Idle, "when_all resumed before result %d completed", i);
    check_int(v[0], k & 1, 10); check_int(v[1], k >> 1, 11); }
  else { auto v = cr::when_all(ex, std::move(r[0]), std::move(r[1])).run().get();
    MC_CHECK(std::get<0>(v).status() != ResultStatus::Idle && std::get<1>(v).status() != ResultStatus::Idle, "when_all resumed before a result completed");
    check_int(std::get<0>(v), k & 1, 10); check_int(std::get<1>(v), k >> 1, 11); }
  a.join(); b.join();
}
MC_SCENARIO(when_all3, "when_all of three results, one completed beforehand, resumed on a worker thread") {
  auto ex = std::make_shared<Worker>();
  ResultPromise<int> p[3]; Result<int> r[3] = {p[0].get_result(), p[1].get_result(), p[2].get_result()};
  int pre = mc_choose(3, "completed beforehand"); p[pre].set_result(10 + pre);
  int x = (pre + 1) % 3, y = (pre + 2) % 3;
  std::thread a([q = std::move(p[x]), x]() mutable { q.set_result(10 + x); });
  std::thread b([q = std::move(p[y]), y]() mutable { q.set_result(10 + y); });
  auto co = [](std::shared_ptr<Worker> ex, Result<int> *r) -> Result<void> {
    auto v = co_await cr::when_all(ex, r, r + 3);
    MC_CHECK(v.size() == 3, "size");
    for (int i = 0; i < 3; ++i) { MC_CHECK(v[i].status() == ResultStatus::Value, "when_all resumed before result %d completed", i); check_int(v[i], 0, 10 + i); }
    co_return; };
  co(ex, r).get();
  a.join(); b.join(); ex->shutdown();
}
template <class V> static void any_rest(V &v, size_t idx, int k) {
  MC_CHECK(idx < 2, "when_any index %zu out of range", idx);
}
MC_SCENARIO(when_any2, "when_any of two results completed by two threads; the rest stays usable") {
  auto ex = std::make_shared<InlineEx>();
  int k = mc_choose(4, "kinds"), mode = mc_choose(4, "form and what happens to the other result");
  ResultPromise<int> p[2]; Result<int> r[2] = {p[0].get_result(), p[1].get_result()};
  std::thread a([q = std::move(p[0]), k]() mutable { finish(q, k & 1, 10); });
  std::thread b([q = std::move(p[1]), k]() mutable { finish(q, k >> 1, 11); });
  int kinds[2] = {k & 1, k >> 1};
  if (mode & 1) { auto w = cr::when_any(ex, r, r + 2).run().get();
    MC_CHECK(w.index < 2 && w.results.size() == 2, "index %zu size %zu", w.index, w.results.size());
    MC_CHECK(w.results[w.index].status() != ResultStatus::Idle, "when_any reported an unfinished result");
    check_int(w.results[w.index], kinds[w.index], 10 + w.index);
    size_t o = 1 - w.index; if (mode & 2) check_int(w.results[o], kinds[o], 10 + o); }
  else { auto w = cr::when_any(ex, std::move(r[0]), std::move(r[1])).run().get();
    MC_CHECK(w.index < 2, "index %zu", w.index);
    auto &x = w.index == 0 ? std::get<0>(w.results) : std::get<1>(w.results); auto &y = w.index == 0 ? std::get<1>(w.results) : std::get<0>(w.results);
    MC_CHECK(x.status() != ResultStatus::Idle, "when_any reported an unfinished result");
    check_int(x, kinds[w.index], 10 + w.index); if (mode & 2) check_int(y, kinds[1 - w.index], 10 + 1 - w.index); }
  a.join(); b.join();
}
MC_SCENARIO(when_any_one, "when_any where only one of three results ever completes; then the others complete and are consumed") {
  auto ex = std::make_shared<InlineEx>();
  ResultPromise<int> p[3]; Result<int> r[3] = {p[0].get_result(), p[1].get_result(), p[2].get_result()};
  int w0 = mc_choose(3, "which completes"), pre = mc_choose(2, "completed beforehand");
  if (pre) p[w0].set_result(10 + w0);
  std::thread a([&] { if (!pre) p[w0].set_result(10 + w0); });
  auto w = cr::when_any(ex, r, r + 3).run().get();
  MC_CHECK((int)w.index == w0, "when_any index %zu but only result %d completed", w.index, w0);
  check_int(w.results[w0], 0, 10 + w0);
  a.join();
  std::thread b([&] { for (int i = 0; i < 3; ++i) if (i != w0) p[i].set_result(10 + i); });
  for (int i = 0; i < 3; ++i) if (i != w0) check_int(w.results[i], 0, 10 + i);
  b.join();
}
MC_SCENARIO(when_any_repeat, "repeated when_any over the remaining results drains all of them exactly once") {
  auto ex = std::make_shared<InlineEx>();
  std::vector<Result<int>> rs; ResultPromise<int> p[3];
  for (auto &x : p) rs.push_back(x.get_result());
  std::thread a([q = std::move(p[0]), s = std::move(p[2])]() mutable { q.set_result(0); s.set_result(2); });
  std::thread b([q = std::move(p[1])]() mutable { q.set_result(1); });
  int seen = 0;
  while (!rs.empty()) {
    auto w = cr::when_any(ex, rs.begin(), rs.end()).run().get();
    MC_CHECK(w.index < w.results.size(), "index");
    int v = w.results[w.index].get(); MC_CHECK(!(seen >> v & 1), "result %d reported twice", v); seen |= 1 << v;
    rs.clear(); for (auto &x : w.results) if (x) rs.push_back(std::move(x));
  }
  MC_CHECK(seen == 7, "seen %x", seen); a.join(); b.join();
}

// Where the combined result resumes, and what happens when that executor is (being) shut down.
static Result<int> when_user(std::shared_ptr<Worker> ex, Result<int> *r, int form, int tw) {
  int n = 0;
  try {
    if (form == 0) { auto v = co_await cr::when_all(ex, r, r + 2); n = 1; mc_cnt_add(C_MISC, mc_tid()); check_int(v[0], 0, 10); check_int(v[1], 0, 11); }
    else if (form == 1) { auto v = co_await cr::when_all(ex, std::move(r[0]), std::move(r[1])); n = 1; mc_cnt_add(C_MISC, mc_tid()); check_int(std::get<0>(v), 0, 10); check_int(std::get<1>(v), 0, 11); }
    else if (form == 2) { auto w = co_await cr::when_any(ex, r, r + 2); n = 1; mc_cnt_add(C_MISC, mc_tid()); check_int(w.results[w.index], 0, 10 + w.index); }
    else { auto w = co_await cr::when_any(ex, std::move(r[0]), std::move(r[1])); n = 1; mc_cnt_add(C_MISC, mc_tid()); if (w.index == 0) check_int(std::get<0>(w.results), 0, 10); else check_int(std::get<1>(w.results), 0, 11); }
  } catch (const std::runtime_error &) { mc_cnt_add(C_MISC + 1, 1); }
  MC_CHECK(!n || mc_cnt(C_MISC) == tw, "the combined result resumed on thread T%d, its executor is T%d", (int)mc_cnt(C_MISC), tw);
  if (mc_cnt_add(C_DONE, 1) != 1) mc_fail("the waiter was resumed twice");
  co_return n;
}
static void when_where(int form, bool down) {
  auto ex = std::make_shared<Worker>(); int tw = ex->submit([] { return mc_tid(); }).get();
  ResultPromise<int> p[2]; Result<int> r[2] = {p[0].get_result(), p[1].get_result()};
  int pre = mc_choose(4, "completed beforehand");
  if (pre & 1) p[0].set_result(10);
  std::thread a([q = std::move(p[1]), &p, pre]() mutable { q.set_result(11); if (!(pre & 1)) p[0].set_result(10); });
  std::thread b; if (down) b = std::thread([&] { ex->shutdown(); });
  if (pre & 2) a.join();
  int n = when_user(ex, r, form, tw).get();
  MC_CHECK(down || n == 1, "interrupted although nothing was shut down");
  if (!(pre & 2)) a.join();
  if (down) b.join(); else ex->shutdown();
}
MC_SCENARIO(when_all_where, "when_all resumes on the executor given") { when_where(mc_choose(2, "form"), false); }
MC_SCENARIO(when_any_where, "when_any resumes on the executor given") { when_where(2 + mc_choose(2, "form"), false); }
MC_SCENARIO(when_all_down, "the executor given to when_all is shut down: value or interruption, once") { when_where(mc_choose(2, "form"), true); }
MC_SCENARIO(when_any_down, "the executor given to when_any is shut down: value or interruption, once") { when_where(2 + mc_choose(2, "form"), true); }
template <class F> static bool refuses(F &&f) { try { f(); } catch (const std::invalid_argument &) { return true; } catch (const std::runtime_error &) { return true; } return false; }
MC_SCENARIO(when_edge, "empty results, empty ranges and missing executors are refused or trivially done; the inputs stay usable") {
  auto ex = std::make_shared<InlineEx>(); std::shared_ptr<InlineEx> none;
  ResultPromise<int> p; Result<int> r[2]; r[0] = p.get_result();
  MC_CHECK(refuses([&] { cr::when_all(ex, r, r + 2).run().get(); }) && refuses([&] { cr::when_any(ex, r, r + 2).run().get(); }), "an empty result in a range was accepted");
  MC_CHECK(refuses([&] { cr::when_all(ex, std::move(r[0]), std::move(r[1])).run().get(); }) && r[0], "an empty result was accepted, or the others were lost");
  MC_CHECK(refuses([&] { cr::when_any(ex, std::move(r[0]), std::move(r[1])).run().get(); }) && r[0], "an empty result was accepted, or the others were lost");
  MC_CHECK(refuses([&] { cr::when_all(none, r, r + 1).run().get(); }) && refuses([&] { cr::when_any(none, r, r + 1).run().get(); }) && refuses([&] { cr::when_all(none).run().get(); }), "a missing executor was accepted");
  MC_CHECK(refuses([&] { cr::when_any(ex, r, r).run().get(); }), "when_any of nothing was accepted");
  MC_CHECK(cr::when_all(ex, r, r).run().get().empty(), "when_all of nothing"); cr::when_all(ex).run().get();
  p.set_result(7); check_int(r[0], 0, 7);
}
