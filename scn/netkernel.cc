#include "common.h"
#include "vnet.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include "plain/net/connection/basic.h"
#include "plain/net/connection/manager.h"
#include "plain/net/connector.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include "plain/engine/kernel.h"
#include "plain/engine/timer_queue.h"
// The Kernel: its executors, the list of network components, the console.
using namespace plain::net;
struct Quiet { Quiet() { mc_quiet_begin(); } ~Quiet() { mc_quiet_end(); } };
static void setup() { Quiet q; Logger::set_output([](const std::string_view &) {}); Logger::set_flush([] {}); (void)ENGINE; }
static int cli(uint16_t port) {
  int s = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::connect(s, (sockaddr *)&a, sizeof a) != 0) { ::close(s); return -1; }
  return s;
}
static void wr(int fd, const std::string &s) { MC_CHECK(::send(fd, s.data(), s.size(), 0) == (ssize_t)s.size(), "INTERNAL: short send"); }
static std::string rd(int fd, size_t n) { std::string s; char b[512]; while (s.size() < n) { ssize_t k = ::recv(fd, b, std::min(sizeof b, n - s.size()), 0); if (k <= 0) break; s.append(b, k); } return s; }
static bool at_eof(int fd) { char c; return ::recv(fd, &c, 1, 0) == 0; }
static std::unique_ptr<Listener> mknet(const char *name, int port) {
  Quiet q; setting_t s; s.name = name; s.default_count = 1; s.max_count = 4; s.address = "127.0.0.1:" + std::to_string(port);
  return std::make_unique<Listener>(s);
}
static std::string line(const std::string &name, int port) { return "\t" + name + " count: 0 maxcount: 4 send: 0 recv: 0 address: 127.0.0.1:" + std::to_string(port) + " mode: epoll"; }
static std::string ask(int fd, const std::string &cmd, const std::string &want) {
  wr(fd, cmd); std::string got = rd(fd, want.size());
  MC_CHECK(got == want, "'%s' answered '%s' instead of '%s'", cmd.c_str(), got.c_str(), want.c_str()); return got;
}
// ---- executors of a Kernel
static engine_option opt() {
  engine_option o; o.max_cpu_threads = 1; o.max_background_threads = 2;
  o.max_thread_pool_executor_waiting_time = 5000ms; o.max_background_executor_waiting_time = 7000ms; o.max_timer_queue_waiting_time = 9000ms;
  o.thread_started_callback = [](std::string_view) { mc_cnt_add(C_MISC, 1); }; o.thread_terminated_callback = [](std::string_view) { mc_cnt_add(C_MISC + 1, 1); };
  return o;
}
MC_SCENARIO(k_options, "each executor of a Kernel has the options meant for it; its end shuts all of them down") {
  auto k = std::make_unique<Kernel>(opt());
  auto p = k->thread_pool_executor(), b = k->background_executor(); auto t = k->thread_executor(); auto w = k->make_worker_thread_executor(); auto m = k->make_manual_executor(); auto i = k->inline_executor(); auto q = k->timer_queue();
  MC_CHECK(p->max_concurrency_level() == 1 && p->max_worker_idle_time() == 5000ms, "the thread pool has %d threads", p->max_concurrency_level());
  MC_CHECK(b->max_concurrency_level() == 2 && b->max_worker_idle_time() == 7000ms, "the background pool has %d threads waiting %ld ms", b->max_concurrency_level(), (long)b->max_worker_idle_time().count());
  MC_CHECK(q->max_worker_idle_time() == 9000ms, "the timer queue waits another time");
  MC_CHECK(p != b && k->thread_pool_executor() == p && k->make_worker_thread_executor() != w && k->make_manual_executor() != m, "executors mixed up");
  p->post(task_fn(0)); b->post(task_fn(1)); i->post(task_fn(2));
  wait_cnt(C_DONE, 3, "tasks of the executors");
  k.reset();
  for (concurrency::executor::Basic *e : {(concurrency::executor::Basic *)p.get(), (concurrency::executor::Basic *)b.get(), (concurrency::executor::Basic *)t.get(), (concurrency::executor::Basic *)w.get(), (concurrency::executor::Basic *)m.get(), (concurrency::executor::Basic *)i.get()})
    MC_CHECK(e->shutdown_requested(), "an executor outlived its Kernel");
  MC_CHECK(q->shutdown_requested(), "the timer queue outlived its Kernel");
  for (int n = 1; n < mc_thread_count(); ++n) MC_CHECK(mc_thread_finished(n), "thread %d outlived its Kernel", n);
  MC_CHECK(mc_cnt(C_MISC) == 2 && mc_cnt(C_MISC + 1) == 2, "%d threads reported started, %d ended", (int)mc_cnt(C_MISC), (int)mc_cnt(C_MISC + 1));
}
MC_SCENARIO(k_destroy, "a Kernel ends while tasks are queued and a thread posts more: everything accepted runs or is dropped once, every thread ends") {
  auto k = std::make_unique<Kernel>(opt()); int which = mc_choose(4, "executor");
  std::shared_ptr<concurrency::executor::Basic> e;
  if (which == 0) e = k->background_executor(); else if (which == 1) e = k->thread_executor(); else if (which == 2) e = k->make_worker_thread_executor(); else e = k->make_manual_executor();
  e->post(task_fn(0));
  std::thread t([e] { try { e->post(task_fn(1)); } catch (const std::runtime_error &) { mc_cnt_add(C_MISC + 2, 1); } });
  k.reset();
  int done = (int)mc_cnt(C_RUN);
  t.join();
  MC_CHECK(e->shutdown_requested(), "the executor outlived its Kernel");
  MC_CHECK(done == (int)mc_cnt(C_RUN), "a task started after its Kernel was gone");
  e.reset();
  for (int n = 1; n < mc_thread_count(); ++n) MC_CHECK(mc_thread_finished(n), "thread %d outlived its Kernel", n);
  for (int i = 0; i < 2; ++i) MC_CHECK(mc_cnt(C_DEAD + i) == 1, "callable of task %d destroyed %d times", i, (int)mc_cnt(C_DEAD + i));
}
MC_SCENARIO(k_stopped, "enqueue and newthread on a Kernel that was never started are refused, whatever was in its memory") {
  int fill = mc_choose(3, "memory"); alignas(Kernel) static char mem[sizeof(Kernel)]; memset(mem, fill == 0 ? 0 : fill == 1 ? 1 : 0xff, sizeof mem);
  auto *k = new (mem) Kernel(opt());
  MC_CHECK(throws_runtime([&] { k->enqueue([] { return 1; }); }), "a task was accepted that nothing will run");
  MC_CHECK(throws_runtime([&] { k->newthread("n", [] { return false; }); }), "a thread was started");
  k->~Kernel();
}
// ---- the list of network components
MC_SCENARIO(k_names, "a name belongs to one component until that is stopped; components without one get names of their own") {
  setup(); int base = vnet_open_fds();
  auto a = mknet("a", 7001), a2 = mknet("a", 7002), u1 = mknet("", 7003), u2 = mknet("", 7004);
  MC_CHECK(a->start(), "start failed");
  int fds = vnet_open_fds();
  MC_CHECK(throws_runtime([&] { a2->start(); }), "two components have one name");
  MC_CHECK(a->running() && !a2->running(), "the wrong component runs");
  a2.reset(); MC_CHECK(vnet_open_fds() == fds, "the refused component left %d descriptors", vnet_open_fds() - fds);
  std::thread t([&] { MC_CHECK(u1->start(), "start failed"); });
  MC_CHECK(u2->start(), "start failed"); t.join();
  int c = cli(7001); MC_CHECK(c >= 0, "the first component does not listen any more");
  a->stop(); ::close(c);
  auto a3 = mknet("a", 7005); MC_CHECK(a3->start() && a3->running(), "the name of a stopped component is not free");
  char v[] = {'a', 'x'}; ENGINE->remove_net(std::string_view(v, 1)); auto a4 = mknet("a", 7006); MC_CHECK(a4->start(), "the name of a removed component is not free");
  a3->stop(); a4->stop(); u1->stop(); u2->stop(); a.reset(); a3.reset(); a4.reset(); u1.reset(); u2.reset();
  MC_CHECK(vnet_open_fds() == base, "%d descriptors left", vnet_open_fds() - base);
}
// ---- the console
MC_SCENARIO(k_console, "console: commands with arguments in pieces, an unknown command, list, kill of one, all others go on") {
  setup(); 
  { Quiet q; ENGINE->register_console_handler("say", [](const std::vector<std::string> &a) { std::string r; for (auto &x : a) r += "<" + x + ">"; return r; }, "Say it");
  ENGINE->register_console_handler("mute", [](const std::vector<std::string> &) { mc_cnt_add(C_MISC, 1); return std::string(); }); }
  MC_CHECK(ENGINE->enable_console("127.0.0.1:7000"), "the console did not start"); MC_CHECK(!ENGINE->enable_console("127.0.0.1:7009"), "a second console was started");
  int c = cli(7000); MC_CHECK(c >= 0, "the console does not listen");
  switch (mc_choose(5, "commands")) {
    case 0: ask(c, "say a bc  d\r\n", "<a><bc><d>\r\n"); wr(c, "say on"); ask(c, "e\nsay\r\nmute x\n\nsay two\n", "<one>\r\n<two>\r\n"); MC_CHECK(mc_cnt(C_MISC) == 1, "a command ran %d times", (int)mc_cnt(C_MISC)); break;
    case 1: { int d = cli(7000); wr(c, "nope x\n"); MC_CHECK(at_eof(c), "an unknown command was answered"); ask(d, "say still\n", "<still>\r\n"); break; }
    case 2: { ask(c, "help say kill\n", "say\tSay it\r\nkill\tKill net from list(kill name1 name2 ...)\r\n"); 
      ENGINE->register_console_handler(std::string_view("sayXX", 3), [](const std::vector<std::string> &) { return std::string("other"); }, "Other");
      ask(c, "help say\n", "say\tOther\r\n"); ask(c, "say a\n", "other\r\n"); break; }
    case 3: { auto a = mknet("a", 7001), b = mknet("b", 7002); MC_CHECK(a->start() && b->start(), "start failed"); int x = cli(7001), y = cli(7002);
      ask(c, "kill a nobody console\n", "nobody console fails\r\n"); MC_CHECK(!a->running() && at_eof(x), "a was not stopped"); MC_CHECK(b->running() && cli(7001) < 0, "b was stopped or a still listens");
      ask(c, "kill b\n", "ok\r\n"); MC_CHECK(!b->running() && at_eof(y), "b was not stopped"); break; }
    case 4: { auto a = mknet("a", 7001), b = mknet("b", 7002); MC_CHECK(a->start() && b->start(), "start failed");
      wr(c, "list\n"); std::string want = "Total: 3\r\n" + line("a", 7001) + "\r\n" + line("b", 7002) + "\r\n\tconsole count: 1 "; std::string got = rd(c, want.size());
      MC_CHECK(got == want, "list gives '%s' instead of '%s'", got.c_str(), want.c_str()); char ch; std::string rest; while (rest.size() < 200 && ::recv(c, &ch, 1, 0) == 1 && ch != '\n') rest += ch;
      ask(c, "killall\n", "ok\r\n"); MC_CHECK(!a->running() && !b->running(), "killall left one running"); ask(c, "say here\n", "<here>\r\n"); break; }
  }
}
MC_SCENARIO(k_console_early, "a client is there at the moment the console opens: it is served like any other") {
  setup(); { Quiet q; ENGINE->register_console_handler("hi", [](const std::vector<std::string> &) { return std::string("there"); }); }
  std::thread t([] { int c = cli(7000); if (c < 0) return; mc_cnt_add(C_MISC, 1); ask(c, "hi\n", "there\r\n"); });
  MC_CHECK(ENGINE->enable_console("127.0.0.1:7000"), "the console did not start");
  t.join();
}
MC_SCENARIO(k_console_register, "commands are registered and replaced while the console uses them") {
  setup(); { Quiet q; ENGINE->register_console_handler("v", [](const std::vector<std::string> &) { return std::string("1"); }, "one"); }
  MC_CHECK(ENGINE->enable_console("127.0.0.1:7000"), "the console did not start");
  int c = cli(7000); bool help = mc_choose(2, "help"); 
  wr(c, help ? "help v\n" : "v\n");
  ENGINE->register_console_handler("v", [](const std::vector<std::string> &) { return std::string("2"); }, "two"); ENGINE->register_console_handler("w", [](const std::vector<std::string> &) { return std::string("w"); }, "w");
  std::string g = rd(c, help ? 7 : 3);
  MC_CHECK(help ? g == "v\tone\r\n" || g == "v\ttwo\r\n" : g == "1\r\n" || g == "2\r\n", "answer '%s'", g.c_str());
  ask(c, "v\n", "2\r\n");
}
MC_SCENARIO(k_console_retry, "a console that could not start can be enabled later; one enabled twice stays") {
  setup(); int base = vnet_open_fds();
  MC_CHECK(!ENGINE->enable_console("nonsense:1"), "a console at no address");
  auto a = mknet("console", 7001); bool taken = mc_choose(2, "name taken"); if (taken) MC_CHECK(a->start(), "start failed");
  bool ok = ENGINE->enable_console("127.0.0.1:7000"); MC_CHECK(ok == !taken, "enable_console says %d", ok);
  if (ok) { int c = cli(7000); ask(c, "help list\n", "list\tShow net list\r\n"); ::close(c); }
  else { int c = cli(7001); MC_CHECK(c >= 0, "the other component is gone"); ::close(c); a->stop(); }
  (void)base;
}
MC_SCENARIO(k_list_race, "components start and stop while the console lists and kills them") {
  setup(); MC_CHECK(ENGINE->enable_console("127.0.0.1:7000"), "the console did not start");
  int c = cli(7000); auto a = mknet("a", 7001); MC_CHECK(a->start(), "start failed");
  int what = mc_choose(2, "command"); wr(c, what ? "list\n" : "kill a\n");
  if (mc_choose(2, "own")) a->stop(); else { auto b = mknet("b", 7002); MC_CHECK(b->start(), "start failed"); b->stop(); }
  std::string g; char ch; while (g.size() < 600 && ::recv(c, &ch, 1, 0) == 1) { g += ch; if (g.size() >= 2 && ch == '\n' && (what == 0 || g.find("console count") != g.npos)) break; }
  MC_CHECK(what ? g.find("Total: ") == 0 : g == "ok\r\n" || g == "a fails\r\n", "answer '%s'", g.c_str());
  if (!what) { a->stop(); MC_CHECK(!a->running(), "a runs on"); }
}
