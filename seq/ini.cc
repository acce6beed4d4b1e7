#include "seq.h"
#include "plain/all.h"
#include "plain/file/ini.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace plain;
using Ref = std::map<std::string, std::map<std::string, std::string>>;
// Independent reading of the format: "[name]" opens a section, "key=value" adds
// to the open one (the first value of a key counts), ';' starts a comment,
// blanks at the end of a line and a carriage return do not belong to the value.
static Ref parse(const std::string &text) {
  Ref r; std::string cur; bool have = false;
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size();
    std::string l = text.substr(p, e - p); p = e + 1;
    if (!l.empty() && l.back() == '\r') l.pop_back();
    l = l.substr(0, l.find(';'));
    while (l.size() > 1 && (l.back() == ' ' || l.back() == '\t')) l.pop_back();
    if (!l.empty() && l[0] == '[' && l.find(']') != std::string::npos) { cur = l.substr(1, l.find(']') - 1); have = true; r[cur]; continue; }
    size_t q = l.find('=');
    if (q != std::string::npos && have) r[cur].emplace(l.substr(0, q), l.substr(q + 1));
  }
  return r;
}
struct Hush { std::ostringstream os; std::streambuf *o; Hush() { Logger::set_output([](const std::string_view &) {}); o = std::cout.rdbuf(os.rdbuf()); } ~Hush() { std::cout.rdbuf(o); } };
static std::string put(const std::string &name, const std::string &text) { std::string f = seq::scratch() + "/" + name; std::ofstream(f, std::ios::binary) << text; return f; }
static void verify(Ini &ini, const Ref &ref) {
  static const char *S[] = {"a", "b", "", "nope"}, *K[] = {"k", "j", "k ", "", "no"};
  std::set<std::string> ss(S, S + 4), ks(K, K + 5);
  for (auto &s : ref) { ss.insert(s.first); for (auto &k : s.second) ks.insert(k.first); }
  SEQ_CHECK(ini.getdata()->size() == ref.size(), "%zu sections instead of %zu", ini.getdata()->size(), ref.size());
  for (auto &s : ss) for (auto &k : ks) {
    const std::string *want = nullptr;
    auto i = ref.find(s); if (i != ref.end()) { auto j = i->second.find(k); if (j != i->second.end()) want = &j->second; }
    for (int size : {1, 2, 7, 8, 9, 64, 4096}) {
      std::vector<char> buf(size, '#'); seq::step();      // exactly as large as announced
      bool got = ini.getstring_ifexist(s.c_str(), k.c_str(), buf.data(), size);
      SEQ_CHECK(got == !!want, "[%s] %s: found %d, expected %d", s.c_str(), k.c_str(), got, !!want);
      if (want) SEQ_CHECK(want->substr(0, size - 1) == buf.data(), "[%s] %s into %d bytes: '%s', the file says '%s'", s.c_str(), k.c_str(), size, buf.data(), want->c_str());
      std::vector<char> b2(size, '#');
      bool g2 = ini.getstring(s.c_str(), k.c_str(), b2.data(), size, "fallback");
      SEQ_CHECK(g2 == !!want && (want ? *want : std::string("fallback")).substr(0, size - 1) == b2.data(), "[%s] %s: getstring gives '%s'", s.c_str(), k.c_str(), b2.data());
    }
    int32_t n = -7; bool gi = ini.getint32_ifexist(s.c_str(), k.c_str(), n);
    SEQ_CHECK(gi == !!want && n == (want ? atoi(want->c_str()) : -7), "[%s] %s: integer %d (found %d)", s.c_str(), k.c_str(), n, gi);
    SEQ_CHECK(ini.getint32(s.c_str(), k.c_str(), 55) == (want ? atoi(want->c_str()) : 55), "[%s] %s: getint32", s.c_str(), k.c_str());
    float f = -7; bool gf = ini.getfloat_ifexist(s.c_str(), k.c_str(), f);
    SEQ_CHECK(gf == !!want && f == (want ? (float)atof(want->c_str()) : -7), "[%s] %s: float %f (found %d)", s.c_str(), k.c_str(), f, gf);
    SEQ_CHECK(ini.getfloat(s.c_str(), k.c_str(), 5.5f) == (want ? (float)atof(want->c_str()) : 5.5f), "[%s] %s: getfloat", s.c_str(), k.c_str());
    SEQ_CHECK(ini.get<int32_t>(s, k, 66) == (want ? atoi(want->c_str()) : 66), "[%s] %s: get<int32_t>", s.c_str(), k.c_str());
    SEQ_CHECK(ini.get<std::string>(s, k, "dflt") == (want ? *want : "dflt"), "[%s] %s: get<string> gives '%s'", s.c_str(), k.c_str(), ini.get<std::string>(s, k, "dflt").c_str());
    std::string more = s + "tail", morek = k + "tail";    // views that do not end with a zero byte
    SEQ_CHECK(ini.get<std::string>(std::string_view(more).substr(0, s.size()), std::string_view(morek).substr(0, k.size()), "dflt") == (want ? *want : "dflt"), "[%s] %s: get with views", s.c_str(), k.c_str());
    variable_t v(std::string("none")); ini.get(s.c_str(), k.c_str(), v);
    SEQ_CHECK(v.get<std::string>() == (want ? *want : "none"), "[%s] %s: variable", s.c_str(), k.c_str());
  }
}
static std::string lineof(int k) {
  switch (k) {
    case 0: return "[a]"; case 1: return "[b]"; case 2: return "k=1"; case 3: return "k=-22.5 ;note"; case 4: return "j=text with blanks  \t"; case 5: return ";k=9";
    case 6: return ""; case 7: return " "; case 8: return "[open"; case 9: return "novalue"; case 10: return "=v"; case 11: return "k=a=b"; case 12: return "[]";
    case 13: return ";"; case 14: return "j=" ; case 15: return "k ="; case 16: return "k=x\r"; case 17: return "[a]\r"; case 18: return "\r"; case 19: return "j=" + std::string(600, 'L');
    case 20: return "j=" + std::string(509, 'M'); case 21: return "k=" + std::string(508, 'N'); case 22: return "j=" + std::string(3000, 'O'); case 23: return "[" + std::string(1500, 's') + "]"; case 24: return "[b] j=[c]"; default: return "\t;x";
  }
}
static constexpr int NL = 26;
static std::string text(int n) {
  std::string t;
  for (int i = 0; i < n; ++i) { t += lineof(seq::choose(NL, "line")); if (i + 1 < n) t += "\n"; }
  if (n && seq::flag("newline at the end")) t += "\n";
  return t;
}
SEQ_SCENARIO(ini_lines, "every file of up to n lines of the alphabet") {
  std::string t = text(seq::choose(seq::thorough() ? 5 : 4, "lines"));
  seq::state(seq::hash(t)); seq::note("%s", t.substr(0, 80).c_str());
  Hush h; Ini ini; SEQ_CHECK(ini.open(put("f", t).c_str()), "an existing file was not opened");
  verify(ini, parse(t));
}
SEQ_SCENARIO(ini_reopen, "open, close and open again in every order: only the last file counts") {
  static const std::string T1[] = {"", "[a]\nk=old\nj=old", "[b]\n", "[a]\n;x\n", "[a]\nold=" + std::string(5000, 'o') + "\nk=old"};
  std::string t1 = T1[seq::choose(5, "first")], t2 = text(seq::thorough() ? 3 : 2); int how = seq::choose(4, "how");
  Hush h; std::string f1 = put("f1", t1), f2 = put("f2", t2);
  Ini ini(f1.c_str());
  if (how == 0) ini.close();
  if (how == 2) { ini.close(); ini.close(); }
  if (how == 3) { SEQ_CHECK(!ini.open((seq::scratch() + "/missing").c_str()), "a missing file was opened"); verify(ini, {}); }
  SEQ_CHECK(ini.open(f2.c_str()), "opening a second file failed (%d)", how);
  verify(ini, parse(t2));
  ini.close(); verify(ini, {});
}
SEQ_SCENARIO(ini_many, "values that fill the value buffer to and beyond every growth") {
  int n = 1 + seq::choose(seq::thorough() ? 120 : 60, "keys"), len = seq::choose(7, "length");
  static const int L[] = {0, 1, 14, 15, 16, 100, 500};
  std::string t = "[a]\n";
  for (int i = 0; i < n; ++i) t += "k" + std::to_string(i) + "=" + std::string(L[len], 'a' + i % 26) + "\n";
  Hush h; Ini ini; SEQ_CHECK(ini.open(put("m", t).c_str()), "not opened");
  Ref r = parse(t); 
  for (auto &k : r["a"]) { char b[600]; SEQ_CHECK(ini.getstring_ifexist("a", k.first.c_str(), b, sizeof b) && k.second == b, "key %s: '%s' instead of '%s'", k.first.c_str(), b, k.second.c_str()); seq::step(); }
  seq::state(n * 8 + len);
}

SEQ_SCENARIO(ini_edge, "values that end exactly at, before and behind the end of the value buffer") {
  int total = (seq::flag("second growth") ? 2048 : 1024) - 4 + seq::choose(8, "end"), parts = 1 + seq::choose(3, "values");
  std::string t = "[a]\n";                     // value + its end mark
  int left = total; for (int i = 0; i < parts; ++i) { int n = i + 1 == parts ? left : 300 + i; t += "k" + std::to_string(i) + "=" + std::string(n - 1, 'a' + i) + "\n"; left -= n; }
  if (seq::flag("one more")) t += "last=x\n";
  if (seq::flag("one empty")) t += "empty=\n";
  Hush h; Ini ini; SEQ_CHECK(ini.open(put("e", t).c_str()), "not opened");
  verify(ini, parse(t)); seq::state(total * 16 + parts);
}
