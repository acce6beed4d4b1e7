#include "common.h"
using Pool = plain::concurrency::executor::ThreadPool;
static std::shared_ptr<Pool> mk(size_t n, std::chrono::milliseconds idle = 10s) {
  return std::make_shared<Pool>("pool", n, idle);
}
static void done(std::shared_ptr<Pool> p, int n) {
  uint64_t t0 = mc_now_ns(); int e0 = mc_early_timeouts();
  wait_cnt(C_DONE, n, "tasks to complete");
  MC_CHECK(mc_now_ns() == t0 || mc_early_timeouts() > e0, "an accepted task waited for %llu ms of time to pass although nothing was running", (unsigned long long)((mc_now_ns() - t0) / 1000000));
  p->shutdown();
  for (int i = 1; i < mc_thread_count(); ++i) MC_CHECK(mc_thread_finished(i), "thread T%d still alive after shutdown", i);
  for (int i = 0; i < n; ++i) {
    MC_CHECK(mc_cnt(C_RUN + i) == 1, "task %d ran %d times", i, (int)mc_cnt(C_RUN + i));
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times", i, (int)mc_cnt(C_DEAD + i));
  }
  MC_CHECK(p->shutdown_requested(), "shutdown_requested() false after shutdown");
  MC_CHECK(throws_runtime([&] { p->post(task_fn(9)); }), "post after shutdown did not throw");
  MC_CHECK(mc_cnt(C_RUN + 9) == 0, "task posted after shutdown ran");
}
MC_SCENARIO(pool1_post2, "1 worker, 2 posts from one thread") {
  auto p = mk(1); p->post(task_fn(0)); p->post(task_fn(1)); done(p, 2);
}
MC_SCENARIO(pool2_post3, "2 workers, 3 posts from one thread") {
  auto p = mk(2); for (int i = 0; i < 3; ++i) p->post(task_fn(i)); done(p, 3);
}
MC_SCENARIO(pool1_two_posters, "1 worker, two posting threads") {
  auto p = mk(1);
  std::thread t([&] { p->post(task_fn(0)); });
  p->post(task_fn(1)); t.join(); done(p, 2);
}
MC_SCENARIO(pool2_two_posters, "2 workers, two posting threads") {
  auto p = mk(2);
  std::thread t([&] { p->post(task_fn(0)); });
  p->post(task_fn(1)); t.join(); done(p, 2);
}
MC_SCENARIO(pool2_nested, "a task posts two further tasks from inside the pool (local queue, donation)") {
  auto p = mk(2);
  p->post([&p, t = Token(0)]() mutable { t.run(); mc_log(0); p->post(task_fn(1)); p->post(task_fn(2)); mc_cnt_add(C_DONE, 1); });
  done(p, 3);
}
MC_SCENARIO(pool2_bulk, "bulk_post of 3 tasks to 2 workers") {
  auto p = mk(2);
  std::vector<decltype(task_fn(0))> v; for (int i = 0; i < 3; ++i) v.push_back(task_fn(i));
  p->bulk_post(std::span(v)); done(p, 3);
}
MC_SCENARIO(pool2_nested_bulk, "bulk_post of 3 tasks from inside a worker (donation to idle workers)") {
  auto p = mk(2);
  p->post([&p] {
    std::vector<decltype(task_fn(0))> v; for (int i = 0; i < 3; ++i) v.push_back(task_fn(i));
    p->bulk_post(std::span(v)); });
  done(p, 3);
}
MC_SCENARIO(pool1_idle, "worker idle retirement races with a later post") {
  auto p = mk(1, 5ms);
  p->post(task_fn(0)); wait_cnt(C_DONE, 1, "first task");
  p->post(task_fn(1)); wait_cnt(C_DONE, 2, "second task");
  p->post(task_fn(2)); done(p, 3);
}
MC_SCENARIO(pool2_idle, "2 workers, idle retirement and re-spawn") {
  auto p = mk(2, 5ms);
  p->post(task_fn(0)); p->post(task_fn(1)); wait_cnt(C_DONE, 2, "first tasks");
  p->post(task_fn(2)); done(p, 3);
}
MC_SCENARIO(pool1_shutdown_race, "post races with shutdown: accepted or refused, never run twice, shutdown returns") {
  auto p = mk(1);
  std::thread t([&] { for (int i = 0; i < 2; ++i) { if (throws_runtime([&] { p->post(task_fn(i)); })) mc_cnt_add(C_MISC + i, 1); } });
  p->shutdown();
  t.join();
  for (int i = 0; i < 2; ++i) {
    MC_CHECK(!(mc_cnt(C_MISC + i) && mc_cnt(C_RUN + i)), "task %d was refused yet ran", i);
    MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times after shutdown", i, (int)mc_cnt(C_DEAD + i));
  }
  int ran = mc_cnt(C_DONE);
  mc_quiesce(1);
  MC_CHECK(mc_cnt(C_DONE) == ran, "a task ran after shutdown() returned");
}
MC_SCENARIO(pool2_submit, "submit from two threads: every result delivers its value") {
  auto p = mk(2);
  std::thread t([&] { auto r = p->submit([] { return 11; }); int v = r.get(); MC_CHECK(v == 11, "got %d", v); });
  auto r = p->submit([]() -> int { throw std::invalid_argument("x"); });
  bool ex = false; try { r.get(); } catch (const std::invalid_argument &) { ex = true; }
  MC_CHECK(ex, "exception of the task was not delivered");
  t.join(); p->shutdown();
}
MC_SCENARIO(pool1_submit_shutdown, "submit races with shutdown: result is the value or an error, never a hang") {
  auto p = mk(1);
  std::thread t([&] { p->shutdown(); });
  try { auto r = p->submit([] { return 5; }); int v = r.get(); MC_CHECK(v == 5, "got %d", v); mc_log(1); }
  catch (const std::runtime_error &) { mc_log(2); }
  t.join();
}
static thread_local int tl_owner = 0;
static std::shared_ptr<Pool> mko(size_t n, int id) {
  return std::make_shared<Pool>("pool", n, 10s, [id](std::string_view) { tl_owner = id; });
}
MC_SCENARIO(pool_cross, "a worker of pool A posts (single, then bulk) to pool B: the tasks must run on B's threads") {
  auto a = mko(1, 1), b = mko(1, 2);
  auto probe = [](int want) { return [want] {
    MC_CHECK(tl_owner == want, "task posted to pool %d ran on a thread of pool %d", want, tl_owner); mc_cnt_add(C_DONE, 1); }; };
  int bulk = mc_choose(2, "bulk");
  a->post([&] {
    MC_CHECK(tl_owner == 1, "task posted to pool 1 ran on a thread of pool %d", tl_owner);
    if (bulk) { std::vector<decltype(probe(2))> v{probe(2)}; b->bulk_post(std::span(v)); }
    else b->post(probe(2));
    a->post(probe(1));
    mc_cnt_add(C_DONE, 1); });
  wait_cnt(C_DONE, 3, "tasks"); a->shutdown(); b->shutdown();
}
MC_SCENARIO(pool_cross_shutdown, "a worker of pool A posts to the shut-down pool B: refused") {
  auto a = mko(1, 1), b = mko(1, 2);
  b->shutdown();
  a->post([&] {
    MC_CHECK(throws_runtime([&] { b->post(task_fn(0)); }), "post to a shut-down pool from another pool's worker was accepted");
    mc_cnt_add(C_DONE, 1); });
  wait_cnt(C_DONE, 1, "task"); a->shutdown();
  MC_CHECK(mc_cnt(C_RUN) == 0, "refused task ran");
}
MC_SCENARIO(pool2_throw, "a throwing posted task neither kills its worker nor loses other tasks") {
  auto p = mk(2);
  p->post([] { throw std::runtime_error("boom"); });
  p->post(task_fn(0)); p->post(task_fn(1)); done(p, 2);
}
MC_SCENARIO(pool2_donate, "a task bulk-posts 4 tasks while the other worker waits: half of them are donated and run at once") {
  auto p = mk(2);
  std::vector<decltype(task_fn(0))> w; for (int i = 0; i < 2; ++i) w.push_back(task_fn(i));
  p->bulk_post(std::span(w)); wait_cnt(C_DONE, 2, "first tasks"); mc_quiesce(0);   // both workers wait now
  p->post([&p] {
    std::vector<decltype(task_fn(0))> v; for (int i = 2; i < 6; ++i) v.push_back(task_fn(i));
    p->bulk_post(std::span(v)); });
  done(p, 6);
}
MC_SCENARIO(pool3_donate, "3 workers, 5 tasks bulk-posted from inside: donated in uneven parts") {
  auto p = mk(3);
  p->post([&p] {
    std::vector<decltype(task_fn(0))> v; for (int i = 0; i < 5; ++i) v.push_back(task_fn(i));
    p->bulk_post(std::span(v)); });
  done(p, 5);
}
MC_SCENARIO(pool3_bulk, "bulk_post of 1..5 tasks to 3 workers") {
  auto p = mk(3); int n = 1 + mc_choose(5, "tasks");
  std::vector<decltype(task_fn(0))> v; for (int i = 0; i < n; ++i) v.push_back(task_fn(i));
  p->bulk_post(std::span(v)); done(p, n);
}
MC_SCENARIO(pool2_blocked, "one worker is kept busy by a task that waits for another task: an idle worker takes that one") {
  auto p = mk(2); int pre = mc_choose(3, "tasks before");
  for (int i = 0; i < pre; ++i) p->post(task_fn(2 + i));
  if (pre) { wait_cnt(C_DONE, pre, "first tasks"); mc_quiesce(0); }
  p->post([&, t = Token(0)]() mutable { t.run(); mc_cnt_add(C_MISC, 1);
    wait_cnt(C_MISC + 2, 1, "the other task"); mc_cnt_add(C_DONE, 1); });
  wait_cnt(C_MISC, 1, "start of the busy task");
  p->post([t = Token(1)]() mutable { t.run(); mc_cnt_add(C_MISC + 2, 1); mc_cnt_add(C_DONE, 1); });
  done(p, 2 + pre);
}
