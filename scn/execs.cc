// WorkerThread, Thread, Manual and Inline executors.
#include "common.h"
using Worker = plain::concurrency::executor::WorkerThread;
using ThreadEx = plain::concurrency::executor::Thread;
using Manual = plain::concurrency::executor::Manual;
using InlineEx = plain::concurrency::executor::Inline;
typedef decltype(task_fn(0)) TaskFn;
static std::vector<TaskFn> batch(int from, int n) { std::vector<TaskFn> v; for (int i = 0; i < n; ++i) v.push_back(task_fn(from + i)); return v; }
static void check_ran(int n) {
  for (int i = 0; i < n; ++i) {
    MC_CHECK(mc_cnt(C_RUN + i) == 1, "task %d ran %d times", i, (int)mc_cnt(C_RUN + i));
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times", i, (int)mc_cnt(C_DEAD + i));
  }
}
template <class E> static void check_down(E &e) {
  MC_CHECK(e.shutdown_requested(), "shutdown_requested() false after shutdown");
  MC_CHECK(throws_runtime([&] { e.post(task_fn(14)); }), "post after shutdown did not throw");
  auto v = batch(15, 1);
  MC_CHECK(throws_runtime([&] { e.bulk_post(std::span(v)); }), "bulk_post after shutdown did not throw");
  v.clear();
  MC_CHECK(mc_cnt(C_RUN + 14) == 0 && mc_cnt(C_RUN + 15) == 0, "task posted after shutdown ran");
  e.shutdown();   // idempotent
}
// once shutdown has returned and every poster is back, no thread of the executor is left
static void no_threads(const char *who) { for (int i = 1; i < mc_thread_count(); ++i) MC_CHECK(mc_thread_finished(i), "thread T%d of the %s still alive after shutdown", i, who); }
// position of task id in the observation log
static int pos(int id) { for (int i = 0; i < mc_log_size(); ++i) if (mc_log_at(i) == id) return i; return -1; }

static bool expired() { return mc_now_ns() >= 3600ull * 1000000000ull; }
// ---------------------------------------------------------------- WorkerThread
MC_SCENARIO(wt_fifo, "posts and a bulk post from one thread run in order on one thread") {
  auto e = std::make_shared<Worker>();
  static thread_local int dummy;
  e->post([] { mc_cnt_add(C_MISC, mc_tid()); });
  e->post(task_fn(0));
  auto v = batch(1, 2); e->bulk_post(std::span(v));
  e->post([] { MC_CHECK(mc_cnt(C_MISC) == mc_tid(), "tasks of one worker thread ran on different threads"); mc_cnt_add(C_DONE, 1); });
  wait_cnt(C_DONE, 4, "tasks"); e->shutdown(); v.clear(); check_ran(3);
  for (int i = 0; i < 3; ++i) MC_CHECK(mc_log_at(i) == i, "task %d ran at position %d", (int)mc_log_at(i), i);
  check_down(*e);
}
MC_SCENARIO(wt_two_posters, "two posting threads; per-poster order is kept") {
  auto e = std::make_shared<Worker>();
  std::thread t([&] { e->post(task_fn(0)); e->post(task_fn(1)); });
  e->post(task_fn(2)); e->post(task_fn(3)); t.join();
  wait_cnt(C_DONE, 4, "tasks"); e->shutdown(); check_ran(4);
  MC_CHECK(pos(0) < pos(1) && pos(2) < pos(3), "per-poster order broken");
  check_down(*e);
}
MC_SCENARIO(wt_nested, "a task posts (single and bulk) to its own worker thread while another thread posts") {
  auto e = std::make_shared<Worker>();
  int bulk = mc_choose(2, "bulk");
  e->post([&, t = Token(0)]() mutable { t.run(); mc_log(0);
    if (bulk) { auto v = batch(1, 2); e->bulk_post(std::span(v)); } else { e->post(task_fn(1)); e->post(task_fn(2)); }
    mc_cnt_add(C_DONE, 1); });
  e->post(task_fn(3));
  wait_cnt(C_DONE, 4, "tasks"); e->shutdown(); check_ran(4);
  MC_CHECK(pos(1) < pos(2), "order of tasks posted by a task broken");
  check_down(*e);
}
MC_SCENARIO(wt_nested_shutdown, "a task posts to its own worker thread while shutdown runs: refused means not run") {
  auto e = std::make_shared<Worker>();
  e->post([&] { mc_cnt_add(C_MISC + 5, 1); for (int i = 0; i < 2; ++i) if (throws_runtime([&] { e->post(task_fn(i)); })) mc_cnt_add(C_MISC + i, 1); mc_cnt_add(C_MISC + 6, 1); });
  e->shutdown();
  if (mc_cnt(C_MISC + 5)) { MC_CHECK(mc_cnt(C_MISC + 6), "task still running after shutdown");
    for (int i = 0; i < 2; ++i) {
      MC_CHECK(!(mc_cnt(C_MISC + i) && mc_cnt(C_RUN + i)), "task %d was refused yet ran", i);
      MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times after shutdown", i, (int)mc_cnt(C_DEAD + i)); } }
  int ran = mc_cnt(C_DONE); mc_quiesce(1);
  MC_CHECK(mc_cnt(C_DONE) == ran, "a task ran after shutdown() returned");
  check_down(*e);
}
template <class E> static void shutdown_race() {
  auto e = std::make_shared<E>();
  std::thread t([&] { for (int i = 0; i < 2; ++i) { if (throws_runtime([&] { e->post(task_fn(i)); })) mc_cnt_add(C_MISC + i, 1); } });
  if (mc_choose(2, "two shutdown callers")) { std::thread u([&] { e->shutdown(); }); u.join(); }
  e->shutdown(); t.join();
  for (int i = 0; i < 2; ++i) {
    MC_CHECK(!(mc_cnt(C_MISC + i) && mc_cnt(C_RUN + i)), "task %d was refused yet ran", i);
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times after shutdown", i, (int)mc_cnt(C_DEAD + i));
  }
  no_threads("executor");
  int ran = mc_cnt(C_DONE); mc_quiesce(1);
  MC_CHECK(mc_cnt(C_DONE) == ran, "a task ran after shutdown() returned");
  check_down(*e);
}
MC_SCENARIO(wt_shutdown_race, "post races with shutdown of a WorkerThread") { shutdown_race<Worker>(); }
// bulk_post (from outside, or from inside a task) races with shutdown: all accepted or all refused; afterwards nothing is left
template <class E> static void bulk_race(std::shared_ptr<E> e, bool always_run) {
  std::thread t([&] { auto v = batch(0, 2); if (throws_runtime([&] { e->bulk_post(std::span(v)); })) mc_cnt_add(C_MISC, 1); v.clear(); mc_cnt_add(C_MISC + 2, 1); });
  e->shutdown();
  bool back = mc_cnt(C_MISC + 2); int ran0 = mc_cnt(C_DONE);
  if (back) { no_threads("executor"); }
  t.join(); no_threads("executor");
  int ran = mc_cnt(C_DONE); mc_quiesce(1);
  MC_CHECK(mc_cnt(C_DONE) == ran && (!back || ran == ran0), "a task ran after shutdown() returned");
  for (int i = 0; i < 2; ++i) {
    MC_CHECK(!(mc_cnt(C_MISC) && mc_cnt(C_RUN + i)), "task %d was refused yet ran", i);
    MC_CHECK(!always_run || mc_cnt(C_RUN + i) == 1 - mc_cnt(C_MISC), "task %d accepted but not run", i);
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times after shutdown", i, (int)mc_cnt(C_DEAD + i)); }
  check_down(*e);
}
MC_SCENARIO(wt_bulk_race, "bulk_post races with shutdown of a worker thread") { bulk_race(std::make_shared<Worker>(), false); }
MC_SCENARIO(te_bulk_race, "bulk_post races with shutdown of a thread executor") { bulk_race(std::make_shared<ThreadEx>(), true); }
MC_SCENARIO(me_bulk_race, "bulk_post races with shutdown of a manual executor") { bulk_race(std::make_shared<Manual>(), false); }
MC_SCENARIO(tp_bulk_race, "bulk_post races with shutdown of a thread pool") { bulk_race(std::make_shared<plain::concurrency::executor::ThreadPool>("p", 2, 10s), false); }
// A task that is dropped may use the executor while it is destroyed (interrupted coroutines do): it is refused, nothing blocks.
struct Dropper { executor::Basic *e; int id; bool live = true;
  Dropper(executor::Basic *x, int i) : e(x), id(i) {} Dropper(Dropper &&o) noexcept : e(o.e), id(o.id), live(o.live) { o.live = false; }
  ~Dropper() { if (live) { if (throws_runtime([&] { e->post(task_fn(4 + id)); })) mc_cnt_add(C_MISC + 4 + id, 1); mc_cnt_add(C_MISC + 8 + id, 1); } } };
template <class E> static void drop_posts(std::shared_ptr<E> e) {
  std::thread t([&] { for (int i = 0; i < 2; ++i) throws_runtime([&] { e->post([d = Dropper(e.get(), i), t = Token(i)]() mutable { t.run(); }); }); });
  e->shutdown(); t.join(); no_threads("executor"); mc_quiesce(1);
  for (int i = 0; i < 2; ++i) {
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times after shutdown", i, (int)mc_cnt(C_DEAD + i));
    MC_CHECK(mc_cnt(C_MISC + 8 + i) == 1, "the destructor of callable %d did not come to its end", i);
    MC_CHECK(!(mc_cnt(C_MISC + 4 + i) && mc_cnt(C_RUN + 4 + i)), "refused task ran");
    MC_CHECK(mc_cnt(C_DEAD + 4 + i) == 1, "task posted by a destroyed callable: destroyed %d times", (int)mc_cnt(C_DEAD + 4 + i)); }
  check_down(*e);
}
MC_SCENARIO(wt_drop_posts, "callables dropped by shutdown post to their worker thread") { drop_posts(std::make_shared<Worker>()); }
MC_SCENARIO(te_drop_posts, "callables dropped by shutdown post to their thread executor") { drop_posts(std::make_shared<ThreadEx>()); }
MC_SCENARIO(me_drop_posts, "callables dropped by shutdown post to their manual executor") { drop_posts(std::make_shared<Manual>()); }
MC_SCENARIO(tp_drop_posts, "callables dropped by shutdown post to their thread pool") { drop_posts(std::make_shared<plain::concurrency::executor::ThreadPool>("p", 1, 10s)); }
MC_SCENARIO(wt_nested_mixed, "a task posts singly, in bulk and singly again to its own worker thread: run in that order") {
  auto e = std::make_shared<Worker>(); int first = mc_choose(2, "single or bulk first");
  std::thread u([&] { e->post(task_fn(7)); });
  e->post([&, t = Token(0)]() mutable { t.run(); mc_log(0);
    int n = 1;
    for (int k = 0; k < 3; ++k) if ((k & 1) ^ first) { auto v = batch(n, 2); n += 2; e->bulk_post(std::span(v)); } else e->post(task_fn(n++));
    mc_cnt_add(C_MISC, n); mc_cnt_add(C_DONE, 1); });
  e->post(task_fn(8));
  u.join(); wait_cnt(C_MISC, 1, "the first task"); int n = mc_cnt(C_MISC);
  wait_cnt(C_DONE, n + 2, "tasks"); e->shutdown(); check_ran(n);
  for (int i = 2; i < n; ++i) MC_CHECK(pos(i - 1) < pos(i), "task %d posted by a task ran before task %d", i, i - 1);
  check_down(*e);
}
MC_SCENARIO(me_nested, "tasks of a manual executor post, clear and loop from inside") {
  Manual e; int what = mc_choose(6, "what the task does"), drv = mc_choose(3, "driver"), cnt = 0;
  e.post([&, t = Token(0)]() mutable { t.run(); mc_log(0);
    switch (what) { case 0: e.post(task_fn(2)); break; case 1: { auto v = batch(2, 2); e.bulk_post(std::span(v)); break; }
      case 2: MC_CHECK(e.loop(5) == 1, "nested loop"); break; case 3: MC_CHECK(e.clear() == 1, "nested clear"); break;
      case 4: MC_CHECK(e.size() == 1 && !e.empty(), "size inside a task"); break; case 5: e.shutdown(); break; } });
  e.post(task_fn(1));
  size_t n = 0;
  try { if (drv == 0) { n = e.loop(10); } else if (drv == 1) { while (e.loop_once()) ++n; } else n = e.loop_for(10, 5ms); } catch (const std::runtime_error &) { cnt = 1; }
  size_t want = what == 0 ? 3 : what == 1 ? 4 : what == 2 || what == 3 || what == 5 ? 1 : 2;
  MC_CHECK(n == want || (what == 5 && cnt), "task kind %d driver %d: %zu tasks counted, expected %zu", what, drv, n, want);
  int k = what == 0 ? 3 : what == 1 ? 4 : 2;
  for (int i = 0; i < k; ++i) { MC_CHECK(mc_cnt(C_RUN + i) == ((what == 3 || what == 5) && i == 1 ? 0 : 1), "task %d ran %d times (kind %d)", i, (int)mc_cnt(C_RUN + i), what);
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable %d destroyed %d times", i, (int)mc_cnt(C_DEAD + i)); }
  for (int i = 1; i < mc_log_size(); ++i) MC_CHECK(mc_log_at(i - 1) < mc_log_at(i), "order");
  MC_CHECK(e.size() == 0, "size");
}
template <class E> static void submit_shutdown(bool race) {
  auto e = std::make_shared<E>();
  std::thread t([&] { e->shutdown(); });
  try { auto r = e->submit([] { return 5; }); int v = r.get(); MC_CHECK(v == 5, "got %d", v); }
  catch (const std::runtime_error &) { }
  t.join();
}
MC_SCENARIO(wt_submit_shutdown, "submit races with shutdown of a WorkerThread: value or error, no hang") { submit_shutdown<Worker>(true); }
MC_SCENARIO(wt_submit, "submit from two threads to a WorkerThread") {
  auto e = std::make_shared<Worker>();
  std::thread t([&] { auto r = e->submit([](int a, int b) { return a * 10 + b; }, 1, 1); int v = r.get(); MC_CHECK(v == 11, "got %d", v); });
  auto r = e->submit([]() -> int { throw std::invalid_argument("x"); });
  bool ex = false; try { r.get(); } catch (const std::invalid_argument &) { ex = true; }
  MC_CHECK(ex, "exception of the task was not delivered");
  t.join(); e->shutdown();
}
// ---------------------------------------------------------------- Thread
MC_SCENARIO(te_post, "Thread executor: two posters, every task on a thread of its own") {
  auto e = std::make_shared<ThreadEx>();
  auto mk = [](int i) { return [i, t = Token(i)]() mutable { t.run(); mc_cnt_add(C_MISC + i, mc_tid()); mc_cnt_add(C_DONE, 1); }; };
  std::thread t([&] { e->post(mk(0)); });
  e->post(mk(1)); t.join(); e->shutdown();
  check_ran(2);
  MC_CHECK(mc_cnt(C_MISC) != mc_cnt(C_MISC + 1), "two tasks ran on the same thread");
  check_down(*e);
}
MC_SCENARIO(te_bulk_nested, "Thread executor: bulk post and a nested post; shutdown waits for all accepted tasks") {
  auto e = std::make_shared<ThreadEx>();
  auto v = batch(0, 2); e->bulk_post(std::span(v));
  e->post([&, t = Token(2)]() mutable { t.run(); if (throws_runtime([&] { e->post(task_fn(3)); })) mc_cnt_add(C_MISC, 1); });
  e->shutdown(); v.clear();
  check_ran(3);
  MC_CHECK(mc_cnt(C_RUN + 3) == 1 - mc_cnt(C_MISC), "nested task accepted %d but ran %d", (int)(1 - mc_cnt(C_MISC)), (int)mc_cnt(C_RUN + 3));
  for (int i = 1; i < mc_thread_count(); ++i) MC_CHECK(mc_thread_finished(i), "thread T%d still alive after shutdown", i);
  check_down(*e);
}
MC_SCENARIO(te_shutdown_race, "post races with shutdown of a Thread executor: accepted means executed") {
  auto e = std::make_shared<ThreadEx>();
  std::thread t([&] { for (int i = 0; i < 2; ++i) { if (throws_runtime([&] { e->post(task_fn(i)); })) mc_cnt_add(C_MISC + i, 1); } });
  e->shutdown(); t.join();
  for (int i = 0; i < 2; ++i) {
    MC_CHECK(mc_cnt(C_RUN + i) == 1 - mc_cnt(C_MISC + i), "task %d accepted %d, ran %d", i, (int)(1 - mc_cnt(C_MISC + i)), (int)mc_cnt(C_RUN + i));
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times", i, (int)mc_cnt(C_DEAD + i)); }
  check_down(*e);
}
MC_SCENARIO(te_submit_shutdown, "submit races with shutdown of a Thread executor") { submit_shutdown<ThreadEx>(true); }
// ---------------------------------------------------------------- Manual
MC_SCENARIO(me_post_loop, "posters versus a thread that waits and loops") {
  Manual e;
  std::thread t([&] { e.post(task_fn(0)); auto v = batch(1, 2); e.bulk_post(std::span(v)); });
  int mode = mc_choose(4, "consumer mode");
  if (mode == 0) { e.wait_for_tasks(3); MC_CHECK(e.size() == 3, "size %zu", e.size()); MC_CHECK(e.loop(10) == 3, "loop count"); }
  else if (mode == 1) { size_t n = 0; while (n < 3) { e.wait_for_task(); bool r = e.loop_once(); MC_CHECK(r, "task vanished"); ++n; } }
  else if (mode == 2) { size_t n = e.loop_for(3, 3600s); MC_CHECK(n == 3 || expired(), "loop_for ran %zu of 3 tasks before its deadline", n); if (n < 3) { e.wait_for_tasks(3 - n); e.loop(3); } }
  else { bool ok = e.wait_for_task_for(3600s); MC_CHECK(ok || expired(), "wait_for_task_for timed out early"); MC_CHECK(!ok || !e.empty(), "no task"); size_t n = e.wait_for_tasks_for(3, 3600s); MC_CHECK(n == 3 || expired(), "wait_for_tasks_for(3) returned early with %zu", n); e.wait_for_tasks(3); n = e.loop(2); MC_CHECK(n == 2, "%zu", n); MC_CHECK(e.loop_once_for(1ms), "x"); }
  t.join(); check_ran(3);
  for (int i = 0; i < 3; ++i) MC_CHECK(mc_log_at(i) == i, "task %d ran at position %d", (int)mc_log_at(i), i);
  e.shutdown(); check_down(e);
}
MC_SCENARIO(me_two_waiters, "two waiters with different needs: whoever's tasks have arrived is woken, by any wake-up order") {
  Manual e;
  static const char *nm[] = {"wait_for_task", "wait_for_tasks(2)", "loop_once_for", "loop_for(2)", "wait_for_tasks_for(2)"};
  int a = mc_choose(5, "first waiter"), b = mc_choose(5, "second waiter"), n = 1 + mc_choose(3, "tasks"), bulk = mc_choose(2, "bulk");
  if (a > b || (bulk && n == 1)) return;
  auto w = [&](int i, int mode) { try {
      if (mode == 0) e.wait_for_task(); else if (mode == 1) e.wait_for_tasks(2); else if (mode == 2) e.loop_once_for(3600s); else if (mode == 3) e.loop_for(2, 3600s); else e.wait_for_tasks_for(2, 3600s);
      mc_cnt_add(C_MISC + i, 1); } catch (const std::runtime_error &) { mc_cnt_add(C_MISC + i, 2); } };
  std::thread t([&] { w(0, a); }), u([&] { w(1, b); });
  if (bulk) { auto v = batch(0, n); e.bulk_post(std::span(v)); } else for (int i = 0; i < n; ++i) e.post(task_fn(i));
  for (int i = n; i < 3; ++i) { mc_cnt_add(C_DEAD + i, 1); }
  mc_quiesce(0);
  auto need = [&](int m) { return m == 1 || m == 3 || m == 4 ? 2u : 1u; };
  bool da = mc_cnt(C_MISC), db = mc_cnt(C_MISC + 1);
  size_t left = e.size();
  MC_CHECK(da || left < need(a) || (a >= 2 && a != 4), "%s asleep with %zu tasks queued", nm[a], left);
  MC_CHECK(db || left < need(b) || (b >= 2 && b != 4), "%s asleep with %zu tasks queued", nm[b], left);
  MC_CHECK(!(left && ((!da && (a == 2 || a == 3)) || (!db && (b == 2 || b == 3)))), "a looping waiter sleeps although %zu tasks are queued", left);
  e.shutdown(); t.join(); u.join();
  for (int i = 0; i < 3; ++i) MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times", i, (int)mc_cnt(C_DEAD + i));
}
MC_SCENARIO(me_two_loopers, "two threads drive one manual executor: every task once") {
  Manual e;
  e.post(task_fn(0)); e.post(task_fn(1));
  std::thread t([&] { int n = e.loop(2); mc_cnt_add(C_MISC, n); });
  std::thread u([&] { e.post(task_fn(2)); });
  while (mc_cnt(C_DONE) < 3) { int n = e.loop_for(3, 5ms); mc_cnt_add(C_MISC, n); }
  t.join(); u.join(); check_ran(3);
  MC_CHECK(mc_cnt(C_MISC) == 3, "loop calls reported %d executed tasks", (int)mc_cnt(C_MISC));
}
MC_SCENARIO(me_shutdown_wakes, "shutdown wakes every kind of waiter with an error") {
  Manual e;
  int mode = mc_choose(5, "waiter mode");
  std::thread t([&] { bool th = throws_runtime([&] {
      if (mode == 0) e.wait_for_task(); else if (mode == 1) e.wait_for_tasks(2); else if (mode == 2) e.loop_for(2, 3600s);
      else if (mode == 3) e.wait_for_tasks_for(2, 3600s); else e.loop_once_for(3600s); });
    MC_CHECK(th || expired(), "waiter of mode %d returned normally though only shutdown happened", mode); });
  if (mode == 1 || mode == 3) e.post(task_fn(0)); else mc_cnt_add(C_DEAD, 1);
  uint64_t t0 = mc_now_ns(); bool was = expired(); e.shutdown(); t.join();
  MC_CHECK(was || !expired() || mc_early_timeouts() > 0, "waiter slept through shutdown");
  MC_CHECK(mc_cnt(C_RUN) == 0 && mc_cnt(C_DEAD) == 1, "pending task: ran %d destroyed %d", (int)mc_cnt(C_RUN), (int)mc_cnt(C_DEAD));
  check_down(e);
}
MC_SCENARIO(me_shutdown_race, "loop, post and shutdown race on a manual executor") {
  Manual e;
  std::thread t([&] { for (int i = 0; i < 2; ++i) if (throws_runtime([&] { e.post(task_fn(i)); })) mc_cnt_add(C_MISC + i, 1); });
  std::thread u([&] { try { e.loop_for(2, 1ms); } catch (const std::runtime_error &) {} mc_cnt_add(C_MISC + 4, 1); });
  e.shutdown(); t.join(); u.join();
  for (int i = 0; i < 2; ++i) {
    MC_CHECK(!(mc_cnt(C_MISC + i) && mc_cnt(C_RUN + i)), "task %d was refused yet ran", i);
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times", i, (int)mc_cnt(C_DEAD + i)); }
  MC_CHECK(e.size() == 0, "tasks left after shutdown"); check_down(e);
}
// All sequences of operations against a reference queue (single thread, virtual time).
static void manual_program(int depth) {
  Manual e; std::deque<int> q; int next = 0, ran = 0; bool down = false;
  auto expect_run = [&](size_t n) { for (size_t i = 0; i < n; ++i) { MC_CHECK(ran + (int)i < mc_log_size(), "loop reported %zu executed tasks but fewer ran", n); MC_CHECK(mc_log_at(ran + i) == q.front(), "ran task %d, expected %d", (int)mc_log_at(ran + i), q.front()); q.pop_front(); } ran += n; MC_CHECK(mc_log_size() == ran, "more tasks ran than reported"); };
  for (int step = 0; step < depth; ++step) {
    int op = mc_choose(11, "op"); uint64_t t0 = mc_now_ns(); size_t n = 0; bool threw = false, b = false;
    size_t sz = q.size();
    try { switch (op) {
      case 0: { int id = next++; e.post(task_fn(id)); q.push_back(id); break; }
      case 1: { int id = next; next += 2; auto v = batch(id, 2); e.bulk_post(std::span(v)); q.push_back(id); q.push_back(id + 1); break; }
      case 2: b = e.loop_once(); MC_CHECK(b == (sz > 0), "loop_once %d with %zu tasks", b, sz); expect_run(b); break;
      case 3: n = e.loop(2); MC_CHECK(n == std::min<size_t>(2, sz), "loop(2)=%zu with %zu", n, sz); expect_run(n); break;
      case 4: b = e.loop_once_for(7ms); MC_CHECK(b == (sz > 0), "loop_once_for %d with %zu", b, sz); expect_run(b); MC_CHECK(b || mc_now_ns() - t0 >= 7000000, "loop_once_for timed out early"); break;
      case 5: n = e.loop_for(2, 7ms); MC_CHECK(n == std::min<size_t>(2, sz), "loop_for(2)=%zu with %zu", n, sz); expect_run(n); MC_CHECK(n == 2 || mc_now_ns() - t0 >= 7000000, "loop_for gave up early"); break;
      case 6: b = e.wait_for_task_for(7ms); MC_CHECK(b == (sz > 0), "wait_for_task_for returned %d with %zu tasks queued", b, sz); break;
      case 7: n = e.wait_for_tasks_for(2, 7ms); MC_CHECK(n == sz, "wait_for_tasks_for returned %zu with %zu queued", n, sz); MC_CHECK(sz >= 2 || mc_now_ns() - t0 >= 7000000, "timed out early"); break;
      case 8: n = e.clear(); MC_CHECK(n == sz, "clear()=%zu with %zu", n, sz); for (int i : q) MC_CHECK(mc_cnt(C_DEAD + i) == 1, "cleared task %d not destroyed", i); q.clear(); break;
      case 9: e.shutdown(); down = true; for (int i : q) MC_CHECK(mc_cnt(C_DEAD + i) == 1, "pending task %d not destroyed by shutdown", i); q.clear(); break;
      case 10: b = e.wait_for_task_until(std::chrono::steady_clock::now() + 7ms); MC_CHECK(b == (sz > 0), "wait_for_task_until returned %d with %zu tasks queued", b, sz); break;
    } } catch (const std::runtime_error &) { threw = true; }
    MC_CHECK(threw == (down && op != 9), "op %d: threw=%d but shut down=%d", op, threw, down);
    MC_CHECK(e.size() == q.size() && e.empty() == q.empty(), "size %zu expected %zu", e.size(), q.size());
    MC_CHECK(e.shutdown_requested() == down, "shutdown_requested");
    MC_CHECK(mc_log_size() == ran, "a task ran although nobody looped");
  }
}
MC_SCENARIO(me_program4, "all 4-operation programs on a manual executor") { manual_program(4); }
MC_SCENARIO(me_program5, "all 5-operation programs on a manual executor") { manual_program(5); }
// ---------------------------------------------------------------- Inline
MC_SCENARIO(inline_all, "Inline executor runs in the caller, before post returns, also when posted from two threads") {
  InlineEx e;
  auto f = [&](int i) { int me = mc_tid(); e.post([i, me, t = Token(i)]() mutable { t.run(); MC_CHECK(mc_tid() == me, "inline task ran on another thread"); }); MC_CHECK(mc_cnt(C_RUN + i) == 1, "post returned before the task ran"); };
  std::thread t([&] { f(0); });
  f(1);
  std::vector<TaskFn> v = batch(2, 2); e.bulk_post(std::span(v)); v.clear();
  t.join(); check_ran(4);
  auto r = e.submit([] { return 3; }); MC_CHECK(r.status() == ResultStatus::Value, "inline submit not done"); MC_CHECK(r.get() == 3, "value");
  e.shutdown(); check_down(e);
}
