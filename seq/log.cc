#include "seq.h"
#include "plain/all.h"
#include "plain/basic/logger.h"
#include "plain/basic/async_logger.h"
#include <sstream>
#include <fstream>
#include <filesystem>
#include <iostream>
#include <climits>
#include <source_location>
using namespace plain;
static std::vector<std::string> g_lines;
struct Cap {
  std::ostringstream os; std::streambuf *old;
  Cap() { g_lines.clear(); Logger::set_output([](const std::string_view &s) { g_lines.emplace_back(s); }); old = std::cout.rdbuf(os.rdbuf()); }
  ~Cap() { std::cout.rdbuf(old); Logger::set_output([](const std::string_view &) {}); }
};
// one item of the stream: what is written, what must appear
static std::string item(Logger &l, int k) {
  switch (k) {
    case 0: l << "text"; return "text";
    case 1: l << ""; return "";
    case 2: l << static_cast<const char *>(nullptr); return "(null)";
    case 3: l << std::string("a{b}%s"); return "a{b}%s";
    case 4: l << true; return "1";
    case 5: l << 'c'; return "c";
    case 6: l << INT_MIN; return "-2147483648";
    case 7: l << INT64_MIN; return "-9223372036854775808";
    case 8: l << UINT64_MAX; return "18446744073709551615";
    case 9: l << static_cast<int16_t>(-32768); return "-32768";
    case 10: l << static_cast<uint16_t>(65535); return "65535";
    case 11: l << 0.1; return "0.1";
    case 12: l << -1e300; return "-1e+300";
    case 13: l << 1.5f; return "1.5";
    case 14: l << reinterpret_cast<const void *>(0xAB0Full); return "0xAB0F";
    case 15: l << static_cast<const void *>(nullptr); return "0x0";
    case 16: l << UINT32_MAX; return "4294967295";
    case 17: l << 123456789012.0; return "123456789012";
    case 18: { std::string_view v("view"); l.append(v); return "view"; }
    case 19: l.appendf("{}-{}", 1, "x"); return "1-x";
    case 20: l << reinterpret_cast<const unsigned char *>("uc"); return "uc";
    case 21: { std::string s("z\0w", 3); l << s; return s; }
    default: { std::string s(k, 'p'); l << s; return s; }
  }
}
static const int PADS[] = {0, 3000, 3800, 3850, 3900, 3940, 3960, 3970, 3980, 3990, 4000, 4050, 4090, 4096, 5000, 9000};
static std::source_location far_away();
static void line(int pad_at, int n, int pad, bool print) {
  GLOBALS["log.print"] = print;
  std::string msg, fn = "line", file; int ln = 0; bool big = false;
  {
    Cap cap; int lv = seq::choose(4, "level");
    static const LogLevel L[] = {LogLevel::Trace, LogLevel::Info, LogLevel::Warn, LogLevel::Error};
    static const char *LN[] = {" TRACE ", " INFO  ", " WARN  ", " ERROR "};
    auto loc = pad ? std::source_location::current() : far_away();
    file = loc.file_name(); ln = loc.line();
    { Logger l(L[lv], loc);
      for (int i = 0; i < n; ++i) {
        if (i == pad_at && pad) { std::string p; for (int j = 0; j < pad; ++j) p += char('a' + j % 26); l << p; msg += p; }
        msg += item(l, seq::choose(22, "item")); seq::step();
      } }
    SEQ_CHECK(g_lines.size() == 1, "%zu outputs for one log statement", g_lines.size());
    const std::string &o = g_lines[0];
    SEQ_CHECK(!o.empty() && o.back() == '\n', "a line of %zu bytes does not end with a line feed", o.size());
    SEQ_CHECK(std::count(o.begin(), o.end(), '\n') == 1, "more than one line feed");
    std::string head = std::string(loc.function_name()) + " ", tail = "-" + file + ":" + std::to_string(ln) + "\n";
    size_t h = o.find(head); SEQ_CHECK(h != o.npos, "no function name in: %s", o.c_str());
    SEQ_CHECK(o.substr(0, h).ends_with(LN[lv]), "wrong level in: %s", o.c_str());
    std::string body = o.substr(h + head.size());
    big = h + head.size() + msg.size() + tail.size() > 4096 - 48;
    if (!big) SEQ_CHECK(body == msg + tail, "logged '%s', expected '%s'", body.c_str(), (msg + tail).c_str());
    else SEQ_CHECK(o.size() <= 4096 && body.compare(0, std::min<size_t>(body.size() - 1, pad_at == 0 ? pad : 0), (msg + tail), 0, std::min<size_t>(body.size() - 1, pad_at == 0 ? pad : 0)) == 0, "a long line does not start with its message");
    if (print) SEQ_CHECK(cap.os.str().find(o.substr(0, o.size() - 1)) != std::string::npos, "the line was not printed");
    else SEQ_CHECK(cap.os.str().empty(), "printed although not asked to");
    seq::state(seq::hash(o.substr(h)));
  }
  GLOBALS["log.print"] = false;
}
SEQ_SCENARIO(log_items, "every pair of stream items at every level, printed or not") { bool p = seq::flag("print"); line(-1, seq::thorough() ? 3 : 2, 0, p); }
SEQ_SCENARIO(log_long, "lines around and beyond the size of the line buffer") {
  bool p = seq::flag("print"); int at = seq::choose(2, "pad at"); line(at, 2, seq::thorough() ? 3700 + seq::choose(500, "pad") : PADS[seq::choose(16, "pad")], p);
}
SEQ_SCENARIO(log_levels, "each macro logs exactly when its level is enabled") {
  static const LogLevel L[] = {LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warn, LogLevel::Error};
  int set = seq::choose(5, "set"), m = seq::choose(6, "macro");
  Cap cap; auto old = Logger::get_level(); Logger::set_level(L[set]); errno = 2;
  switch (m) {
    case 0: LOG_TRACE << "m"; break; case 1: LOG_DEBUG << "m"; break; case 2: LOG_INFO << "m"; break;
    case 3: LOG_WARN << "m"; break; case 4: LOG_ERROR << "m"; break; default: LOG_SYSERR << "m"; }
  Logger::set_level(old); seq::step();
  SEQ_CHECK((g_lines.size() == 1) == (m >= 3 || m >= set), "macro %d at level %d: %zu lines", m, set, g_lines.size());
  if (m == 5) SEQ_CHECK(g_lines[0].find("errno=2)") != std::string::npos, "no errno in: %s", g_lines[0].c_str());
}
static std::string slurp(const std::string &dir, const std::string &name) {
  std::vector<std::string> fs;
  for (auto &e : std::filesystem::directory_iterator(dir)) if (e.path().filename().string().starts_with(name + ".")) fs.push_back(e.path().string());
  std::sort(fs.begin(), fs.end()); std::string r;
  for (auto &f : fs) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); r += o.str(); std::filesystem::remove(f); }
  return r;
}
SEQ_SCENARIO(log_async_big, "lines that fill and exceed the buffers of the asynchronous logger arrive whole") {
  static const size_t B = 4096 * 1024, sz[] = {1, B / 2, B - 1, B, B + 1, 2 * B + 5};
  GLOBALS["log.directory"] = seq::scratch();
  std::string w; bool before = seq::flag("before"); size_t pick[3];
  for (auto &x : pick) x = sz[seq::choose(6, "size")];
  slurp(seq::scratch(), "big");
  { AsyncLogger l("big", 500 * 1000 * 1000);
    if (!before) l.start();
    for (int i = 0; i < 3; ++i) { std::string s(pick[i], 'a' + i); s.back() = '\n'; l.append(s); w += s; seq::step(); }
    if (before) l.start();
    l.stop(); }
  auto t = slurp(seq::scratch(), "big");
  size_t i = 0; while (i < t.size() && i < w.size() && t[i] == w[i]) ++i;
  SEQ_CHECK(t == w, "%zu bytes in the log instead of %zu, first difference at %zu (%s)", t.size(), w.size(), i, seq::hex(t.substr(i, 6) + "/" + t.substr(t.size() > 6 ? t.size() - 6 : 0)).c_str());
}

#line 2147483000
static std::source_location far_away() { return std::source_location::current(); }
