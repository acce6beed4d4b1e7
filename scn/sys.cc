#include "common.h"
#include "plain/sys/thread.h"
#include "plain/basic/task_queue.h"
// plain::ThreadPool (sys/thread.h), plain::TaskQueue, plain::thread::create.
using SysPool = plain::ThreadPool;
struct Boom { int v; };
template <class F> static bool stopped_error(F &&f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
static void ran_all(int n) {
  for (int i = 0; i < n; ++i) MC_CHECK(mc_cnt(C_RUN + i) == 1, "task %d ran %d times", i, (int)mc_cnt(C_RUN + i));
}
static int work(int id) { if (mc_cnt_add(C_RUN + id, 1) != 1) mc_fail("task %d ran twice", id); mc_log(id); return id * 10; }

static void pool_drain(int workers, int n) {
  std::vector<std::future<int>> f;
  {
    SysPool p(workers);
    for (int i = 0; i < n; ++i) f.push_back(p.enqueue(work, i));
  }
  ran_all(n);
  for (int i = 0; i < n; ++i) {
    MC_CHECK(f[i].wait_for(0s) == std::future_status::ready, "future %d is not ready after the pool was destroyed", i);
    MC_CHECK(f[i].get() == i * 10, "future %d has another task's value", i);
  }
  for (int i = 1; i < mc_thread_count(); ++i) MC_CHECK(mc_thread_finished(i), "a pool thread outlived the pool");
}
MC_SCENARIO(sp1_drain, "1 worker, 3 tasks, destroyed at once") { pool_drain(1, 3); MC_CHECK(mc_log_at(0) == 0 && mc_log_at(1) == 1 && mc_log_at(2) == 2, "one worker ran the tasks out of order"); }
MC_SCENARIO(sp2_depend, "2 workers: a task that waits for one enqueued after it (by another thread, or by itself) is not stuck while a worker is idle") {
  int nested = mc_choose(2, "enqueued by the first task itself");
  SysPool p(2);
  std::promise<int> pr; auto got = pr.get_future();
  auto second = [&] { work(1); pr.set_value(7); };
  auto a = p.enqueue([&] { work(0); if (nested) p.enqueue(second); return got.get(); });
  if (!nested) p.enqueue(second);
  MC_CHECK(a.get() == 7, "wrong value");
  ran_all(2);
}
MC_SCENARIO(sp2_drain, "2 workers, 3 tasks, destroyed at once") { pool_drain(2, 3); }
MC_SCENARIO(sp2_idle, "workers already waiting when the tasks come; values waited for while the pool lives") {
  SysPool p(2);
  mc_quiesce(0);
  auto a = p.enqueue(work, 0); auto b = p.enqueue(work, 1);
  MC_CHECK(b.get() == 10 && a.get() == 0, "wrong value");
  auto c = p.enqueue([] { mc_cnt_add(C_MISC, 1); throw Boom{7}; });
  try { c.get(); mc_fail("the exception of a task was lost"); } catch (const Boom &) {}
  auto d = p.enqueue(work, 2);
  MC_CHECK(d.get() == 20, "the pool stopped working after a task threw");
  ran_all(3);
}
MC_SCENARIO(sp_two_posters, "two threads enqueue, a task enqueues") {
  std::future<int> f[3]; 
  {
    SysPool p(1 + mc_choose(2, "workers"));
    std::thread t([&] { f[0] = p.enqueue(work, 0); });
    f[1] = p.enqueue([&] { f[2] = p.enqueue(work, 2); return work(1); });
    t.join();
    MC_CHECK(f[1].get() == 10, "wrong value");
  }
  ran_all(3);
  MC_CHECK(f[0].get() == 0 && f[2].get() == 20, "wrong value");
}
MC_SCENARIO(sp_stop_enqueue, "a task enqueues while the pool is being destroyed: accepted and run, or refused with an error") {
  std::future<void> a; 
  {
    SysPool p(2);
    a = p.enqueue([&p] { try { p.enqueue(work, 1); mc_cnt_add(C_MISC, 1); } catch (const std::runtime_error &) { mc_cnt_add(C_MISC + 1, 1); } });
  }
  a.get();
  MC_CHECK(mc_cnt(C_MISC) + mc_cnt(C_MISC + 1) == 1, "the nested enqueue ended %d times", (int)(mc_cnt(C_MISC) + mc_cnt(C_MISC + 1)));
  MC_CHECK(mc_cnt(C_RUN + 1) == mc_cnt(C_MISC), "accepted %d, ran %d", (int)mc_cnt(C_MISC), (int)mc_cnt(C_RUN + 1));
}
MC_SCENARIO(tq_two, "a task queue worked by one thread, filled by another") {
  plain::TaskQueue q;
  std::future<int> a, b;
  std::thread t([&] { a = q.enqueue(work, 0); b = q.enqueue(work, 1); });
  int how = mc_choose(2, "work");
  if (how) q.work_one(); else q.work_all();
  t.join();
  q.work_all();
  ran_all(2);
  MC_CHECK(a.get() == 0 && b.get() == 10, "wrong value");
  MC_CHECK(mc_log_at(0) == 0 && mc_log_at(1) == 1, "tasks ran out of order");
}
MC_SCENARIO(tq_workers, "two threads work the same queue; tasks enqueue and throw") {
  std::future<int> f[4];
  {
    plain::TaskQueue q;
    f[0] = q.enqueue(work, 0);
    f[1] = q.enqueue([&] { f[3] = q.enqueue(work, 3); work(1); throw Boom{3}; return 0; });
    f[2] = q.enqueue(work, 2);
    std::thread t([&] { q.work_all(); });
    q.work_one();
    t.join();
  }
  ran_all(4);
  MC_CHECK(f[0].get() == 0 && f[2].get() == 20 && f[3].get() == 30, "wrong value");
  try { f[1].get(); mc_fail("the exception of a task was lost"); } catch (const Boom &) {}
}
MC_SCENARIO(tq_drop, "tasks left in a destroyed queue are run by it; an enqueue from them is refused") {
  std::future<void> a; std::future<int> b;
  { plain::TaskQueue q;
    a = q.enqueue([&q] { if (stopped_error([&q] { q.enqueue(work, 5); })) mc_cnt_add(C_MISC, 1); });
    b = q.enqueue(work, 0); if (mc_choose(2, "work")) q.work_one(); }
  a.get(); MC_CHECK(b.get() == 0, "wrong value");
  MC_CHECK(mc_cnt(C_RUN + 5) == 0 || mc_cnt(C_MISC) == 0, "refused, but run");
}
static bool three() { return mc_cnt_add(C_MISC, 1) < 3; }
MC_SCENARIO(th_loop, "thread::create repeats the function until it returns false") {
  { auto t = plain::thread::create("loop", three); t.join(); }
  MC_CHECK(mc_cnt(C_MISC) == 3, "the function was called %d times instead of 3", (int)mc_cnt(C_MISC));
}
MC_SCENARIO(th_once, "a function that returns nothing runs once; two threads at a time") {
  { std::string na("worker-a");
    auto t = plain::thread::create(na, [] { work(0); }); na = "xxxxxxxxxxxxxxxxxxxxxxx";
    auto u = plain::thread::create(std::string("worker-b") + "c", [](int v) { work(v); }, 1);
    t.join(); u.join(); }
  ran_all(2);
  MC_CHECK(plain::ThreadCollect::count() == 0, "%d threads still counted", plain::ThreadCollect::count());
}
MC_SCENARIO(th_stop, "thread::stop ends the loop whenever it is called") {
  auto t = plain::thread::create("loop", [] { mc_yield_point("fn"); std::this_thread::sleep_for(1ms); return true; });
  if (mc_choose(2, "early") == 0) std::this_thread::sleep_for(2ms);
  plain::thread::stop(t);
  t.join();
}
