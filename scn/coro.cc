// submit / bulk_submit, resume_on, lazy results, generators.
#include "common.h"
namespace cr = plain::concurrency::result;
using Pool = plain::concurrency::executor::ThreadPool;
using Worker = plain::concurrency::executor::WorkerThread;
using ThreadEx = plain::concurrency::executor::Thread;
using Manual = plain::concurrency::executor::Manual;
using InlineEx = plain::concurrency::executor::Inline;
struct Boom { int code; };
// Callables for bulk_submit: carry a token (exactly-once execution/destruction).
static auto sub_fn(int id, bool thr = false) { return [id, thr, t = Token(id)]() mutable -> int { t.run(); if (thr) throw Boom{id}; return 100 + id; }; }
typedef decltype(sub_fn(0)) SubFn;
static int settle(Result<int> &r, int id, bool thr) {   // 0 value/own exception, 1 interrupted
  try { int v = r.get(); MC_CHECK(v == 100 + id && !thr, "task %d delivered %d", id, v); return 0; }
  catch (const Boom &b) { MC_CHECK(thr && b.code == id, "task %d delivered the exception of task %d", id, b.code); return 0; }
  catch (const std::runtime_error &) { return 1; }
}
template <class E> static void bulk(std::shared_ptr<E> e, int n) {
  { std::vector<SubFn> v; for (int i = 0; i < n; ++i) v.push_back(sub_fn(i, i == 1));
    auto rs = e->bulk_submit(std::span(v));
    MC_CHECK((int)rs.size() == n, "bulk_submit returned %zu results for %d tasks", rs.size(), n);
    v.clear();
    for (int i = 0; i < n; ++i) { int s = settle(rs[i], i, i == 1); MC_CHECK(s == 0, "task %d reported as interrupted although nothing shut down", i); } }
  e->shutdown();
  for (int i = 0; i < n; ++i) MC_CHECK(mc_cnt(C_RUN + i) == 1 && mc_cnt(C_DEAD + i) == 1, "bulk task %d ran %d destroyed %d", i, (int)mc_cnt(C_RUN + i), (int)mc_cnt(C_DEAD + i));
}
MC_SCENARIO(bulk_pool, "bulk_submit of 3 tasks (one throws) to a 2-worker pool") { bulk(std::make_shared<Pool>("p", 2, 10s), 3); }
MC_SCENARIO(bulk_worker, "bulk_submit of 3 tasks to a worker thread") { bulk(std::make_shared<Worker>(), 3); }
MC_SCENARIO(bulk_thread, "bulk_submit of 2 tasks to a thread executor") { bulk(std::make_shared<ThreadEx>(), 2); }
template <class E> static void bulk_down(std::shared_ptr<E> e) {
  std::thread t([&] { e->shutdown(); mc_cnt_add(C_MISC, 1); });
  try { std::vector<SubFn> v; for (int i = 0; i < 2; ++i) v.push_back(sub_fn(i));
    auto rs = e->bulk_submit(std::span(v)); v.clear();
    if (mc_cnt(C_MISC)) for (int i = 2; i < mc_thread_count(); ++i) MC_CHECK(mc_thread_finished(i), "thread T%d still alive after shutdown", i);
    for (int i = 0; i < 2; ++i) { int s = settle(rs[i], i, false); MC_CHECK(s == 1 || mc_cnt(C_RUN + i) == 1, "value without execution"); MC_CHECK(s == 0 || mc_cnt(C_RUN + i) == 0, "task %d ran but its result says interrupted", i); } }
  catch (const std::runtime_error &) { }
  t.join();
  for (int i = 0; i < 2; ++i) MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable %d destroyed %d times", i, (int)mc_cnt(C_DEAD + i));
}
MC_SCENARIO(bulk_pool_down, "bulk_submit races with pool shutdown: value or interruption, no hang, no leak") { bulk_down(std::make_shared<Pool>("p", 2, 10s)); }
MC_SCENARIO(bulk_worker_down, "bulk_submit races with worker thread shutdown") { bulk_down(std::make_shared<Worker>()); }
MC_SCENARIO(bulk_thread_down, "bulk_submit races with thread executor shutdown") { bulk_down(std::make_shared<ThreadEx>()); }
template <class E> static void submit_after(std::shared_ptr<E> e) {
  e->shutdown(); bool intr = false;
  try { auto r = e->submit([t = Token(0)]() mutable { t.run(); return 1; }); r.get(); } catch (const std::runtime_error &) { intr = true; }
  MC_CHECK(intr && mc_cnt(C_RUN) == 0 && mc_cnt(C_DEAD) == 1, "submit to a shut-down executor: error %d ran %d destroyed %d", intr, (int)mc_cnt(C_RUN), (int)mc_cnt(C_DEAD));
}
MC_SCENARIO(submit_down, "submit to an executor that was shut down: the result reports an error, the callable is destroyed") {
  switch (mc_choose(5, "executor")) { case 0: submit_after(std::make_shared<Pool>("p", 1, 1s)); break; case 1: submit_after(std::make_shared<Worker>()); break;
    case 2: submit_after(std::make_shared<ThreadEx>()); break; case 3: submit_after(std::make_shared<Manual>()); break; default: submit_after(std::make_shared<InlineEx>()); } }
MC_SCENARIO(manual_submit, "submit to a manual executor: driven, cleared or shut down") {
  auto e = std::make_shared<Manual>(); int how = mc_choose(3, "how");
  auto r = e->submit([t = Token(0)]() mutable { t.run(); return 5; });
  std::thread t([&] { if (how == 0) e->loop(1); else if (how == 1) e->clear(); else e->shutdown(); });
  bool intr = false; int v = 0; try { v = r.get(); } catch (const std::runtime_error &) { intr = true; }
  t.join(); MC_CHECK(how == 0 ? (!intr && v == 5) : intr, "how=%d interrupted=%d v=%d", how, intr, v);
  MC_CHECK(mc_cnt(C_DEAD) == 1, "callable destroyed %d times", (int)mc_cnt(C_DEAD));
}
// ---------------------------------------------------------------- resume_on
static cr::null hop(std::shared_ptr<Worker> a, std::shared_ptr<Worker> b, int ta, int tb) {
  try {
    co_await cr::resume_on(a); MC_CHECK(mc_tid() == ta, "after resume_on(a) on T%d, a is T%d", mc_tid(), ta); mc_log(1);
    co_await cr::resume_on(b); MC_CHECK(mc_tid() == tb, "after resume_on(b) on T%d, b is T%d", mc_tid(), tb); mc_log(2);
    co_await cr::resume_on(*a); MC_CHECK(mc_tid() == ta, "after resume_on(a&) on T%d, a is T%d", mc_tid(), ta); mc_log(3);
  } catch (const std::runtime_error &) { mc_cnt_add(C_MISC, 1); }
  mc_cnt_add(C_DONE, 1);
}
static int probe(std::shared_ptr<Worker> w) { return w->submit([] { return mc_tid(); }).get(); }
MC_SCENARIO(resume_hop, "a coroutine hops between two executors; each segment runs once on the right thread") {
  auto a = std::make_shared<Worker>(), b = std::make_shared<Worker>(); int ta = probe(a), tb = probe(b);
  hop(a, b, ta, tb); wait_cnt(C_DONE, 1, "coroutine");
  MC_CHECK(mc_log_size() == 3 && mc_log_at(0) == 1 && mc_log_at(1) == 2 && mc_log_at(2) == 3 && !mc_cnt(C_MISC), "segments ran wrongly");
  a->shutdown(); b->shutdown();
}
MC_SCENARIO(resume_hop_down, "an executor is shut down during the hops: the coroutine finishes once, by value or interruption") {
  auto a = std::make_shared<Worker>(), b = std::make_shared<Worker>(); int ta = probe(a), tb = probe(b);
  hop(a, b, ta, tb); b->shutdown();
  wait_cnt(C_DONE, 1, "coroutine"); mc_quiesce(1);
  MC_CHECK(mc_cnt(C_DONE) == 1, "coroutine finished %d times", (int)mc_cnt(C_DONE));
  a->shutdown();
}
// A waiter that is interrupted by a shutdown uses the executor again at once: it gets the error, nothing blocks or is lost.
static cr::null again(std::shared_ptr<executor::Basic> e) {
  try { co_await cr::resume_on(*e); mc_cnt_add(C_MISC + 1, 1); } catch (const std::runtime_error &) { mc_cnt_add(C_MISC + 6, 1); }
  if (mc_cnt(C_MISC + 6)) {
    try { e->post(task_fn(0)); } catch (const std::runtime_error &) { mc_cnt_add(C_MISC + 2, 1); }
    try { e->submit([] { return 1; }); } catch (const std::runtime_error &) { mc_cnt_add(C_MISC + 3, 1); }
    try { co_await cr::resume_on(*e); mc_cnt_add(C_MISC + 4, 1); } catch (const std::runtime_error &) { mc_cnt_add(C_MISC + 5, 1); } }
  mc_cnt_add(C_DONE, 1);
}
template <class E> static void again_down(std::shared_ptr<E> e) {
  std::thread t([&] { again(e); });
  e->shutdown(); t.join(); mc_quiesce(1);
  MC_CHECK(mc_cnt(C_DONE) == 1, "the interrupted coroutine finished %d times", (int)mc_cnt(C_DONE));
  if (!mc_cnt(C_MISC + 1)) MC_CHECK(mc_cnt(C_MISC + 2) && mc_cnt(C_MISC + 5) && !mc_cnt(C_MISC + 4), "an interrupted coroutine was accepted again by the executor that was shut down");
  MC_CHECK(mc_cnt(C_RUN) == 0, "a task posted after shutdown ran");
}
MC_SCENARIO(again_pool, "a coroutine interrupted by pool shutdown uses the pool again") { again_down(std::make_shared<Pool>("p", 1, 10s)); }
MC_SCENARIO(again_worker, "a coroutine interrupted by worker thread shutdown uses it again") { again_down(std::make_shared<Worker>()); }
MC_SCENARIO(again_thread, "a coroutine interrupted by thread executor shutdown uses it again") { again_down(std::make_shared<ThreadEx>()); }
MC_SCENARIO(again_manual, "a coroutine interrupted by manual executor shutdown uses it again") { again_down(std::make_shared<Manual>()); }
// ---------------------------------------------------------------- lazy
static LazyResult<int> lazy_body(std::shared_ptr<executor::Basic> ex, int id, int kind, Token t) {
  t.run();
  if (kind & 2) co_await cr::resume_on(*ex);
  if (kind & 1) throw Boom{id};
  co_return 100 + id;
}
static cr::null lazy_user(std::shared_ptr<executor::Basic> ex, int kind, int how) {
  auto l = lazy_body(ex, 0, kind, Token(0));
  MC_CHECK(mc_cnt(C_RUN) == 0, "lazy coroutine started before it was awaited"); MC_CHECK(l.status() == ResultStatus::Idle, "status");
  try { int v;
    if (how == 0) { v = co_await l; MC_CHECK(!l, "co_await left the lazy result non-empty"); }
    else { auto r = co_await l.resolve(); MC_CHECK(r.status() == (kind & 1 ? ResultStatus::Exception : ResultStatus::Value), "resolved status"); v = co_await r; }
    MC_CHECK(!(kind & 1) && v == 100, "value %d", v); }
  catch (const Boom &b) { MC_CHECK(kind & 1, "exception from nowhere"); }
  MC_CHECK(mc_cnt(C_RUN) == 1 && mc_cnt(C_DEAD) == 1, "lazy body ran %d, frame destroyed %d", (int)mc_cnt(C_RUN), (int)mc_cnt(C_DEAD));
  if (mc_cnt_add(C_DONE, 1) != 1) mc_fail("caller resumed twice");
}
MC_SCENARIO(lazy_all, "lazy results: start only on demand, run once, value/exception delivered, frame freed; awaited, resolved, run, moved or dropped") {
  auto w = std::make_shared<Worker>();
  int kind = mc_choose(4, "body"), how = mc_choose(5, "consumer");
  if (how < 2) { lazy_user(w, kind, how); wait_cnt(C_DONE, 1, "lazy user"); }
  else if (how == 2) { auto r = lazy_body(w, 0, kind, Token(0)).run(); try { int v = r.get(); MC_CHECK(!(kind & 1) && v == 100, "run value"); } catch (const Boom &) { MC_CHECK(kind & 1, "exception"); } }
  else if (how == 3) { { auto l = lazy_body(w, 0, kind, Token(0)); LazyResult<int> m; m = std::move(l); MC_CHECK(!l && m, "move"); } MC_CHECK(mc_cnt(C_RUN) == 0, "dropped lazy result ran"); }
  else { std::thread t([&] { auto r = lazy_body(w, 0, kind, Token(0)).run(); }); t.join(); }   // result dropped while running
  w->shutdown();
  MC_CHECK(mc_cnt(C_DEAD) == 1, "lazy frame destroyed %d times", (int)mc_cnt(C_DEAD));
}
// ---------------------------------------------------------------- generator
static cr::Generator<int> gen(int n, int throw_at, Token t) { for (int i = 0; i < n; ++i) { if (i == throw_at) throw Boom{i}; co_yield i; } if (throw_at == n) throw Boom{n}; }
MC_SCENARIO(generator_all, "generators yield every value in order, stop, propagate exceptions at their position, free the frame when abandoned") {
  int n = mc_choose(4, "n"), thr = mc_choose(5, "throw at") , stop = mc_choose(5, "stop after");
  { auto g = gen(n, thr, Token(0)); auto h = std::move(g); int i = 0; bool ex = false;
    if (stop < 4) { 
      try { for (auto &v : h) { MC_CHECK(v == i, "generator yielded %d, expected %d", v, i); ++i; if (i == stop) break; } } catch (const Boom &b) { ex = true; MC_CHECK(b.code == thr && i == thr, "exception at %d", i); }
      int lim = thr <= n ? thr : n; if (stop > 0 && stop <= lim) MC_CHECK(i == stop && !ex, "stopped at %d", i); else { MC_CHECK(i == lim, "generator produced %d of %d values", i, lim); MC_CHECK(ex == (thr <= n), "exception %d", ex); } } }
  MC_CHECK(mc_cnt(C_DEAD) == 1, "generator frame destroyed %d times", (int)mc_cnt(C_DEAD));
}
