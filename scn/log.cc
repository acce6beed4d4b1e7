#include "common.h"
#include "plain/basic/async_logger.h"
#include <stdio.h>
#include <dlfcn.h>
// AsyncLogger / Logger. The log file is a memory file (fopencookie), so a run leaves nothing behind.
static std::string *g_out; static int g_files, g_open;
static ssize_t ck_write(void *, const char *b, size_t n) { mc_hb_acquire(&g_out); g_out->append(b, n); mc_hb_release(&g_out); return n; }
static int ck_close(void *) { --g_open; return 0; }
extern "C" FILE *fopen(const char *path, const char *mode) {
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  if (!strstr(path, "/vlog.")) return real(path, mode);
  if (!g_out) g_out = new std::string;
  ++g_files; ++g_open;
  return fopencookie(nullptr, "a", cookie_io_functions_t{nullptr, ck_write, nullptr, ck_close});
}
static const std::string &text() { mc_hb_acquire(&g_out); return *g_out; }
static std::unique_ptr<plain::AsyncLogger> mk(size_t roll = 500 * 1000 * 1000, int flush = 3) {
  mc_quiet_begin();
  if (!g_out) g_out = new std::string;
  GLOBALS["log.directory"] = plain::variable_t(std::string("/tmp"));
  auto p = std::make_unique<plain::AsyncLogger>("vlog", roll, flush);
  mc_quiet_end();
  return p;
}
static void expect(const std::string &w) {
  const std::string &t = text();
  if (t != w) {
    size_t i = 0; while (i < t.size() && i < w.size() && t[i] == w[i]) ++i;
    mc_fail("the log has %zu bytes instead of %zu, first difference at %zu: '%.20s' instead of '%.20s'", t.size(), w.size(), i, t.substr(i, 20).c_str(), w.substr(i, 20).c_str());
  }
}
static void closed() { MC_CHECK(g_open == 0, "%d log files left open", g_open); for (int i = 1; i < mc_thread_count(); ++i) MC_CHECK(mc_thread_finished(i), "a logger thread is still running"); }

MC_SCENARIO(lg_stop, "lines appended before stop are all in the file") {
  auto l = mk(); l->start(); l->append("one\n"); l->append("two\n"); l->stop(); expect("one\ntwo\n"); closed();
}
MC_SCENARIO(lg_stop_now, "stop right after start; stop again; destroy") {
  auto l = mk(); l->start(); l->stop(); if (mc_choose(2, "again")) l->stop(); l.reset(); expect(""); closed();
}
MC_SCENARIO(lg_before, "lines appended before start") {
  auto l = mk(); l->append("zero\n"); l->start(); l->append("one\n"); l->stop(); expect("zero\none\n"); closed();
}
MC_SCENARIO(lg_destroy, "destroying a running logger stops it") {
  auto l = mk(); l->start(); l->append("one\n"); l.reset(); expect("one\n"); closed();
}
MC_SCENARIO(lg_unused, "a logger that was never started") { auto l = mk(); l->append("one\n"); l.reset(); closed(); }
MC_SCENARIO(lg_two, "two threads append; every line once, whole, in the order of its thread") {
  auto l = mk(); l->start();
  std::thread t([&] { l->append("a1\n"); l->append("a2\n"); });
  l->append("b1\n"); l->append("b2\n"); t.join(); l->stop(); closed();
  std::string a, b; const std::string &s = text();
  MC_CHECK(s.size() == 12, "%zu bytes in the log instead of 12", s.size());
  for (size_t i = 0; i < 12; i += 3) (s[i] == 'a' ? a : b) += s.substr(i, 3);
  MC_CHECK(a == "a1\na2\n" && b == "b1\nb2\n", "lines lost, mixed or reordered");
}
MC_SCENARIO(lg_flush, "a line is in the file after the flush interval without any stop") {
  auto l = mk(500000000, 1); l->start(); l->append("one\n");
  std::this_thread::sleep_for(2500ms);
  if (mc_early_timeouts() == 0) expect("one\n");
  l->append("two\n"); std::this_thread::sleep_for(2500ms);
  if (mc_early_timeouts() == 0) expect("one\ntwo\n");
  l->stop(); expect("one\ntwo\n"); closed();
}
MC_SCENARIO(lg_roll, "rolling to a new file loses nothing") {
  auto l = mk(5, 1); l->start(); std::string w;
  for (int i = 0; i < 4; ++i) { std::string s = "line" + std::to_string(i) + "\n"; l->append(s); w += s; if (i < 3) std::this_thread::sleep_for(1500ms); }
  l->stop(); expect(w); closed();
  if (mc_early_timeouts() == 0) MC_CHECK(g_files > 1, "the log was never rolled");
}
MC_SCENARIO(lg_front, "two threads log through the front end: whole lines, each once") {
  mc_quiet_begin(); static std::vector<std::string> *out = new std::vector<std::string>; static std::mutex *m = new std::mutex;
  plain::Logger::set_output([](const std::string_view &s) { std::lock_guard<std::mutex> g(*m); out->emplace_back(s); });
  mc_quiet_end();
  std::thread t([] { LOG_INFO << "from-a " << 1; });
  LOG_WARN << "from-b " << 2.5;
  t.join();
  MC_CHECK(out->size() == 2, "%zu lines instead of 2", out->size());
  int a = 0, b = 0;
  for (auto &s : *out) {
    MC_CHECK(!s.empty() && s.back() == '\n' && s.find('\n') == s.size() - 1, "not one line: %s", s.c_str());
    a += s.find("INFO  ") != s.npos && s.find("from-a 1") != s.npos && s.find(" from-b") == s.npos;
    b += s.find("WARN  ") != s.npos && s.find("from-b 2.5") != s.npos;
  }
  MC_CHECK(a == 1 && b == 1, "lines mixed");
}
MC_SCENARIO(lg_front_async, "front end into the asynchronous logger, stopped at the end") {
  static plain::AsyncLogger *l; { auto u = mk(); l = u.release(); }
  plain::Logger::set_output([](const std::string_view &s) { l->append(s); });
  l->start();
  std::thread t([] { LOG_INFO << "from-a"; });
  LOG_ERROR << "from-b"; t.join();
  l->stop(); closed();
  const std::string &s = text();
  MC_CHECK(std::count(s.begin(), s.end(), '\n') == 2 && s.find("from-a") != s.npos && s.find("from-b") != s.npos, "lines lost: %s", s.c_str());
  delete l;
}
