// TimerQueue / Timer / delay objects under virtual time.
#include "common.h"
namespace cr = plain::concurrency::result;
using Worker = plain::concurrency::executor::WorkerThread;
using Manual = plain::concurrency::executor::Manual;
using InlineEx = plain::concurrency::executor::Inline;
static const uint64_t MS = 1000000ull;
static std::shared_ptr<TimerQueue> mkq(std::chrono::milliseconds idle = 120s) { return std::make_shared<TimerQueue>(idle); }
// A callable that records when it ran.
struct Fire {
  int id; uint64_t created; uint64_t due;
  void operator()() const {
    uint64_t now = mc_now_ns();
    MC_CHECK(now >= created + due * MS, "timer %d fired %llu ns after creation, due after %llu ms", id, (unsigned long long)(now - created), (unsigned long long)due);
    mc_log(id); mc_cnt_add(C_RUN + id, 1); mc_cnt_add(C_DONE, 1);
  }
};
static Fire fire(int id, uint64_t due) { return {id, mc_now_ns(), due}; }
static int runs(int id) { return (int)mc_cnt(C_RUN + id); }

MC_SCENARIO(tm_oneshot, "one-shot timers from two threads fire exactly once, not early, none lost") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>();
  uint64_t d0 = mc_choose(2, "due0") ? 5 : 0, d1 = 5 * mc_choose(3, "due1");
  { Timer a, b;
    std::thread t([&] { a = q->make_one_shot_timer(std::chrono::milliseconds(d0), ex, fire(0, d0)); });
    b = q->make_one_shot_timer(std::chrono::milliseconds(d1), ex, fire(1, d1));
    t.join();
    MC_CHECK(b.get_due_time() == std::chrono::milliseconds(d1), "get_due_time");
    wait_cnt(C_DONE, 2, "both timers to fire");
    mc_quiesce(1); }
  MC_CHECK(runs(0) == 1 && runs(1) == 1, "one-shot timers fired %d/%d times", runs(0), runs(1));
  q->shutdown();
}
MC_SCENARIO(tm_order, "timers with different due times fire in due order whatever the creation order") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>();
  static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
  int k = mc_choose(6, "creation order"); Timer t[3];
  for (int i = 0; i < 3; ++i) { int id = perm[k][i]; uint64_t due = 10 + 20 * id; t[id] = q->make_one_shot_timer(std::chrono::milliseconds(due), ex, fire(id, due)); }
  wait_cnt(C_DONE, 3, "three timers");
  if (mc_early_timeouts() == 0) for (int i = 0; i < 3; ++i) MC_CHECK(mc_log_at(i) == i, "timer %d fired at position %d", (int)mc_log_at(i), i);
  q->shutdown();
}
MC_SCENARIO(tm_idle_retire, "a timer created while the queue's worker retires for idleness still fires") {
  auto q = mkq(5ms); auto ex = std::make_shared<InlineEx>();
  auto a = q->make_one_shot_timer(1ms, ex, fire(0, 1));
  wait_cnt(C_DONE, 1, "first timer");
  auto b = q->make_one_shot_timer(1ms, ex, fire(1, 1));
  wait_cnt(C_DONE, 2, "timer created around the worker's idle retirement");
  int two = mc_choose(2, "third"); Timer c;
  if (two) { c = q->make_one_shot_timer(3ms, ex, fire(2, 3)); wait_cnt(C_DONE, 3, "third timer"); }
  q->shutdown();
  MC_CHECK(runs(0) == 1 && runs(1) == 1 && runs(2) == two, "runs %d %d %d", runs(0), runs(1), runs(2));
}
MC_SCENARIO(tm_periodic, "a periodic timer: first after due, then at least `frequency` apart, until cancelled") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>();
  static uint64_t last; last = mc_now_ns(); static int n; n = 0; static uint64_t gap;  gap = 3;
  int newf = mc_choose(2, "change frequency");
  auto t = q->make_timer(7ms, 3ms, ex, [] {
    uint64_t now = mc_now_ns(); uint64_t need = n == 0 ? 7 : gap;
    MC_CHECK(now >= last + need * MS, "firing %d came %llu ns after the previous one, expected >= %llu ms", n, (unsigned long long)(now - last), (unsigned long long)need);
    last = now; ++n; mc_cnt_add(C_DONE, 1); });
  MC_CHECK(t.get_frequency() == 3ms && t.get_due_time() == 7ms, "getters");
  if (newf) { t.set_frequency(9ms); MC_CHECK(t.get_frequency() == 9ms, "set_frequency"); }
  wait_cnt(C_DONE, 3, "three firings of the periodic timer");
  t.cancel(); MC_CHECK(!t, "cancelled timer still bound");
  mc_quiesce(0); int64_t d = mc_cnt(C_DONE);
  mc_quiesce(1);
  MC_CHECK(mc_cnt(C_DONE) == d, "periodic timer fired after cancel()");
  q->shutdown();
}
MC_SCENARIO(tm_slow, "periodic and one-shot timers while a callable takes longer than the period: no burst, no loss, due order") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>();
  static uint64_t last; last = mc_now_ns(); static int n, slow; n = 0; slow = mc_choose(3, "slow firing");
  auto t = q->make_timer(2ms, 3ms, ex, [] {
    uint64_t now = mc_now_ns();
    MC_CHECK(now >= last + (n == 0 ? 2 : 3) * MS, "firing %d came %llu ns after the previous one", n, (unsigned long long)(now - last));
    last = now; if (n++ == slow) mc_advance_ns(20 * MS); mc_cnt_add(C_DONE, 1); });
  auto a = q->make_one_shot_timer(9ms, ex, fire(1, 9)), b = q->make_one_shot_timer(6ms, ex, fire(0, 6));
  wait_cnt(C_RUN, 1, "timer due at 6 ms"); wait_cnt(C_RUN + 1, 1, "timer due at 9 ms");
  MC_CHECK(mc_early_timeouts() || mc_log_at(0) == 0, "a timer due at 9 ms overtook one due at 6 ms");
  wait_cnt(C_DONE, 6, "the periodic timer to go on");
  t.cancel(); q->shutdown();
  MC_CHECK(runs(0) == 1 && runs(1) == 1, "one-shot timers fired %d/%d times", runs(0), runs(1));
}
static void cancel_kind(int how, Timer &t) {
  switch (how) { case 0: t.cancel(); break; case 1: { Timer x(std::move(t)); } break; default: t = Timer(); }
}
MC_SCENARIO(tm_cancel, "cancel (call, destruction, overwrite) races with firing; afterwards it never runs again") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>();
  int how = mc_choose(3, "how cancelled"), periodic = mc_choose(2, "periodic");
  Timer t = periodic ? q->make_timer(4ms, 2ms, ex, fire(0, 4)) : q->make_one_shot_timer(4ms, ex, fire(0, 4));
  Timer o = q->make_one_shot_timer(8ms, ex, fire(1, 8));
  cancel_kind(how, t);
  MC_CHECK(!t, "timer not empty after cancel");
  bool before = mc_now_ns() < 4 * MS; int r0 = runs(0);
  mc_quiesce(0); int r1 = runs(0);
  MC_CHECK(!(before && r1), "timer fired although it was cancelled before it was due");
  MC_CHECK(r1 <= r0 + 1, "timer ran %d more times after cancel()", r1 - r0);
  mc_quiesce(1);
  MC_CHECK(runs(0) == r1, "timer fired %d more times after cancel()", runs(0) - r1);
  MC_CHECK(runs(1) == 1, "uninvolved timer fired %d times", runs(1));
  q->shutdown();
}
MC_SCENARIO(tm_cancel_manual, "a firing already queued on a manual executor does not run once its timer is cancelled") {
  auto q = mkq(); auto ex = std::make_shared<Manual>();
  Timer t = q->make_timer(2ms, 2ms, ex, fire(0, 2));
  Timer o = q->make_one_shot_timer(2ms, ex, fire(1, 2));
  ex->wait_for_tasks(2);
  int how = mc_choose(3, "how cancelled"); cancel_kind(how, t);
  mc_quiesce(0);
  ex->loop(100);
  while (!runs(1)) { ex->wait_for_task(); ex->loop(100); }
  MC_CHECK(runs(0) == 0, "cancelled timer ran from the executor's queue");
  MC_CHECK(runs(1) == 1, "other timer ran %d times", runs(1));
  mc_quiesce(1); MC_CHECK(ex->loop(100) == 0 || runs(0) == 0, "cancelled timer ran later");
  q->shutdown(); ex->shutdown();
}
MC_SCENARIO(tm_cancel_in_cb, "a timer callable cancels another timer / its own timer, on the timer thread") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>();
  int self = mc_choose(2, "own"); static Timer tt[2]; mc_quiet_begin(); tt[0] = Timer(); tt[1] = Timer(); mc_quiet_end();
  static std::atomic<int> ready; ready.store(0);
  tt[1] = q->make_timer(6ms, 6ms, ex, fire(1, 6));
  tt[0] = q->make_timer(3ms, 3ms, ex, [self] { if (!ready.load()) return; mc_cnt_add(C_RUN, 1); if (mc_cnt(C_RUN) == 1) tt[self ? 0 : 1].cancel(); mc_cnt_add(C_DONE, 1); });
  ready.store(1);
  if (self) { wait_cnt(C_RUN, 1, "timer 0"); wait_cnt(C_RUN + 1, runs(1) + 2, "timer 1"); MC_CHECK(runs(0) == 1, "self-cancelled timer ran %d times", runs(0)); tt[1].cancel(); }
  else { wait_cnt(C_RUN, 2, "timer 0"); int r = runs(1); tt[0].cancel(); mc_quiesce(1); MC_CHECK(runs(1) == r, "cancelled timer ran again"); }
  q->shutdown();
}
MC_SCENARIO(tm_executor, "callables run on the executor given, from a worker thread; two queues don't mix") {
  auto q = mkq(); auto w = std::make_shared<Worker>(); auto m = std::make_shared<Manual>();
  w->post([] { mc_cnt_add(C_MISC, mc_tid()); mc_cnt_add(C_MISC + 1, 1); }); wait_cnt(C_MISC + 1, 1, "probe"); int wt = mc_cnt(C_MISC);
  auto a = q->make_one_shot_timer(2ms, w, [wt, f = fire(0, 2)] { MC_CHECK(mc_tid() == wt, "timer callable ran on T%d, executor thread is T%d", mc_tid(), wt); f(); });
  auto b = q->make_one_shot_timer(2ms, m, [f = fire(1, 2)] { MC_CHECK(mc_tid() == 0, "manual callable ran on T%d", mc_tid()); f(); });
  MC_CHECK(a.get_executor() == w && b.get_executor() == m, "get_executor");
  m->wait_for_task(); MC_CHECK(runs(1) == 0, "ran without being driven"); m->loop(5);
  wait_cnt(C_DONE, 2, "both"); q->shutdown(); w->shutdown(); m->shutdown();
}
MC_SCENARIO(tm_exec_shutdown, "the executor of a timer is shut down while it fires: other timers and the queue survive") {
  auto q = mkq(); auto w = std::make_shared<Worker>(); auto ex = std::make_shared<InlineEx>();
  auto a = q->make_timer(1ms, 1ms, w, fire(0, 1));
  auto b = q->make_one_shot_timer(3ms, ex, fire(1, 3));
  w->shutdown();
  int r = runs(0);
  wait_cnt(C_RUN + 1, 1, "timer on the healthy executor");
  MC_CHECK(runs(0) == r, "callable ran on an executor that was shut down");
  a.cancel(); q->shutdown();
}
MC_SCENARIO(tm_shutdown, "queue shutdown races with make_timer and firing: returns, nothing fires later, make_timer then throws") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>(); Timer a, b;
  a = q->make_timer(2ms, 2ms, ex, fire(0, 2));
  std::thread t([&] { try { b = q->make_one_shot_timer(0ms, ex, fire(1, 0)); } catch (const std::runtime_error &) { mc_cnt_add(C_MISC, 1); } });
  q->shutdown();
  int64_t d = mc_cnt(C_DONE); int r1 = runs(1);
  MC_CHECK(q->shutdown_requested(), "shutdown_requested");
  t.join(); mc_quiesce(1);
  MC_CHECK(mc_cnt(C_DONE) == d, "a timer fired after shutdown() returned");
  MC_CHECK(!(mc_cnt(C_MISC) && runs(1)), "refused timer fired");
  MC_CHECK(throws_runtime([&] { q->make_one_shot_timer(1ms, ex, fire(2, 1)); }), "make_one_shot_timer after shutdown did not throw");
  MC_CHECK(throws_runtime([&] { q->make_timer(1ms, 1ms, ex, fire(2, 1)); }), "make_timer after shutdown did not throw");
  mc_quiesce(1); MC_CHECK(runs(2) == 0, "refused timer fired"); q->shutdown();
}
static cr::null delay_user(std::shared_ptr<TimerQueue> q, std::shared_ptr<executor::Basic> ex, int id, uint64_t ms, bool with_timer) {
  uint64_t t0 = mc_now_ns(); Timer mine;
  if (with_timer) mine = q->make_timer(50ms, 50ms, ex, [] {});
  try { co_await q->make_delay_object(std::chrono::milliseconds(ms), ex);
    MC_CHECK(mc_now_ns() >= t0 + ms * MS, "delay object resumed early"); mc_cnt_add(C_RUN + id, 1); }
  catch (const std::runtime_error &) { mc_cnt_add(C_DEAD + id, 1); }
  MC_CHECK(runs(id) + mc_cnt(C_DEAD + id) == 1, "delay coroutine resumed twice");
  mc_cnt_add(C_DONE, 1);
}
MC_SCENARIO(tm_delay, "delay objects resume exactly once, not early, on their executor") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>(); auto w = std::make_shared<Worker>();
  std::thread t([&] { delay_user(q, ex, 0, 4, false); });
  delay_user(q, w, 1, 2, false);
  t.join(); wait_cnt(C_DONE, 2, "delays");
  MC_CHECK(runs(0) == 1 && runs(1) == 1, "delays completed %d/%d", runs(0), runs(1));
  q->shutdown(); w->shutdown();
}
MC_SCENARIO(tm_delay_shutdown, "shutdown interrupts pending delay objects (resumed with an error), also ones owning timers of the queue") {
  auto q = mkq(); auto ex = std::make_shared<InlineEx>();
  int wt = mc_choose(2, "with timer");
  delay_user(q, ex, 0, 60000, wt);
  q->shutdown();
  wait_cnt(C_DONE, 1, "interrupted delay");
  MC_CHECK(mc_early_timeouts() || mc_cnt(C_DEAD) == 1, "delay was neither run nor interrupted");
  delay_user(q, ex, 1, 1, false);
  MC_CHECK(mc_cnt(C_DEAD + 1) == 1, "delay object on a shut-down queue must be interrupted");
}
MC_SCENARIO(tm_delay_exec_down, "a delay whose executor is shut down before it is due is interrupted, not lost") {
  auto q = mkq(); auto w = std::make_shared<Worker>();
  delay_user(q, w, 0, 3, false);
  w->shutdown();
  wait_cnt(C_DONE, 1, "delay whose executor was shut down");
  q->shutdown();
}
