#include "seq.h"
#include "plain/all.h"
#include "plain/file/tab.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <cmath>
using namespace plain;
struct Hush { std::ostringstream os; std::streambuf *o; Hush() { Logger::set_output([](const std::string_view &) {}); o = std::cout.rdbuf(os.rdbuf()); } ~Hush() { std::cout.rdbuf(o); } };
static std::string put(const std::string &name, const std::string &text) { std::string f = seq::scratch() + "/" + name; std::ofstream(f, std::ios::binary) << text; return f; }
static std::string get(const std::string &f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
struct Ref { std::vector<int> type; std::vector<std::string> name; std::vector<std::vector<std::string>> row; };   // cells as text
static const char *TN[] = {"INT", "FLOAT", "STRING"};
static void cell(const Tab::field_data *d, int type, const std::string &w, int r, int c, bool text3 = false) {
  SEQ_CHECK(d, "row %d column %d: no data", r, c); seq::step();
  if (type == 0) SEQ_CHECK(d->int_value == atoi(w.c_str()), "row %d column %d: %d instead of %s", r, c, d->int_value, w.c_str());
  else if (type == 1) SEQ_CHECK(text3 ? std::fabs(d->float_value - atof(w.c_str())) <= 0.0006 : d->float_value == (float)atof(w.c_str()), "row %d column %d: %f instead of %s", r, c, d->float_value, w.c_str());
  else SEQ_CHECK(w == d->string_value, "row %d column %d: '%s' instead of '%s'", r, c, d->string_value, w.c_str());
}
static void verify(Tab &t, const Ref &r, bool names, bool text3) {
  int C = r.type.size(), R = r.row.size();
  SEQ_CHECK(t.get_field_number() == C && t.get_record_number() == R, "%d columns, %d rows instead of %d, %d", t.get_field_number(), t.get_record_number(), C, R);
  for (int c = 0; c < C; ++c) SEQ_CHECK(t.get_fieldtype(c) == r.type[c], "type of column %d", c);
  for (int i = 0; i < R; ++i) for (int c = 0; c < C; ++c) cell(t.search_position(i, c), r.type[c], r.row[i][c], i, c, text3);
  for (int i = -2; i <= R + 1; ++i) for (int c = -2; c <= C + 1; ++c)
    if (i < 0 || i >= R || c < 0 || c >= C) SEQ_CHECK(!t.search_position(i, c), "row %d column %d of a %dx%d table gave data", i, c, R, C);
  if (names) {
    for (int c = 0; c < C; ++c) {
      SEQ_CHECK(t.get_fieldname(c) && r.name[c] == t.get_fieldname(c), "name of column %d", c);
      int first = 0; while (r.name[first] != r.name[c]) ++first;
      SEQ_CHECK(t.get_fieldindex(r.name[c].c_str()) == first, "index of column name %s", r.name[c].c_str());
      for (int i = 0; i < R; ++i) SEQ_CHECK(t.get_fielddata(i, r.name[c].c_str()) == t.search_position(i, first), "get_fielddata(%d, %s) is another cell", i, r.name[c].c_str());
    }
    SEQ_CHECK(t.get_fieldindex("nope") == -1 && !t.get_fielddata(0, "nope") && (!R || !t.get_fielddata(R - 1, "nope")), "an unknown column name gave data");
  }
  // index on every integer column; the table is indexed on the first one when opened
  for (int c = -1; c < C; ++c) {
    int k = c < 0 ? 0 : c; if (r.type[k] != 0) continue;
    if (c >= 0) t.create_index(c);
    for (int v : {0, 1, 2, 5, -7, 2147483647, 123}) {
      const Tab::field_data *want = nullptr;
      for (int i = 0; i < R && !want; ++i) if (atoi(r.row[i][k].c_str()) == v) want = t.search_position(i, 0);
      SEQ_CHECK(t.search_index_equal(v) == want, "index on column %d, value %d: wrong record", c, v); seq::step();
    }
  }
  for (int c = 0; c < C; ++c) for (int i = 0; i < R; ++i) {
    Tab::field_data f = *t.search_position(i, c); int first = 0;
    while (!Tab::field_equal((Tab::field_type_enum)r.type[c], *t.search_position(first, c), f)) ++first;
    SEQ_CHECK(t.search_first_column_equal(c, f) == t.search_position(first, 0), "search of column %d finds another record", c);
  }
  Tab::field_data f(1); SEQ_CHECK(!t.search_first_column_equal(-1, f) && !t.search_first_column_equal(C, f), "search in a column that is not there");
}
static const char *VAL[3][4] = {{"1", "-7", "2147483647", ""}, {"0.5", "-12.375", "100", ""}, {"s", "two words", "", "100%s"}};
static const char *NAME[] = {"id", "n%sx", "", "a_rather_long_column_name_that_is_more_than_sixty_three_characters_long"};
static Ref gen(int maxc, int maxr) {
  Ref r; int C = 1 + seq::choose(maxc, "columns"), R = seq::choose(maxr + 1, "rows");
  for (int c = 0; c < C; ++c) { r.type.push_back(seq::choose(3, "type")); r.name.push_back(c == 0 ? NAME[0] : C == 2 ? NAME[seq::choose(4, "name")] : NAME[c]); }
  for (int i = 0; i < R; ++i) { r.row.emplace_back(); for (int c = 0; c < C; ++c) r.row[i].push_back(VAL[r.type[c]][seq::choose(c == 0 ? 2 : C > 2 ? 2 : 4, "value")]); }
  return r;
}
static std::string text(const Ref &r, int eol, int junk) {
  static const char *E[] = {"\n", "\r\n"}; std::string e = E[eol], t;
  for (size_t c = 0; c < r.type.size(); ++c) t += (c ? "\t" : "") + std::string(TN[r.type[c]]);
  t += e; for (size_t c = 0; c < r.type.size(); ++c) t += (c ? "\t" : "") + r.name[c];
  t += e; if (junk == 1) t += "#comment\t1" + e; if (junk == 2) t += e;
  for (auto &w : r.row) {
    std::string l; for (size_t c = 0; c < w.size(); ++c) l += (c ? "\t" : "") + w[c];
    if (junk == 3) l += "\textra"; if (junk == 4) while (l.size() > 1 && l.back() == '\t') l.pop_back();
    t += l + e;
    if (junk == 1) t += "#" + e; if (junk == 5) t += "\tno key" + e;
  }
  if (junk == 6) t.resize(t.size() - e.size());    // no line end after the last line
  return t;
}
static void roundtrip(Tab &t, const Ref &r, int how) {
  std::string f = seq::scratch() + "/rt";
  if (how == 0) SEQ_CHECK(t.save_tobinary(f.c_str()), "save_tobinary failed"); else SEQ_CHECK(t.save_totext(f.c_str()), "save_totext failed");
  Tab u(2); SEQ_CHECK(u.open_from_txt(f.c_str()), "the saved file cannot be opened");
  verify(u, r, how == 1, how == 1);
}
SEQ_SCENARIO(tab_all, "every small table: text, line ends, comments; saved as text and as binary and read back") {
  Ref r = seq::thorough() ? gen(3, 2) : gen(2, 2); int eol = seq::choose(2, "line end"), junk = seq::choose(7, "junk");
  std::string t = text(r, eol, junk); seq::state(seq::hash(t)); seq::note("%s", t.c_str());
  if (junk == 6 && r.row.empty()) { seq::skip(); }
  Hush h; Tab tab(1); std::string f = put("t", t);
  SEQ_CHECK(tab.open_from_txt(f.c_str()), "a table cannot be opened"); SEQ_CHECK(tab.get_id() == 1, "id");
  verify(tab, r, true, false);
  roundtrip(tab, r, seq::choose(2, "save as"));
  std::string bin = seq::scratch() + "/bin"; SEQ_CHECK(tab.save_tobinary(bin.c_str()) && tab.open_from_txt(bin.c_str()), "opening the table's own binary failed"); verify(tab, r, false, false);
  for (auto &n : r.name) SEQ_CHECK(tab.get_fieldindex(n.c_str()) == -1, "the name of a column is left over from the file opened before");
  SEQ_CHECK(tab.open_from_txt(f.c_str()), "opening again failed"); verify(tab, r, true, false);
}
SEQ_SCENARIO(tab_large, "more records than 16 bits can count, many strings") {
  int n = seq::choose(2, "n") ? 65537 : 300; Ref r; r.type = {0, 2}; r.name = {"id", "s"};
  for (int i = 0; i < n; ++i) r.row.push_back({std::to_string(i + 1), "str" + std::to_string(i % 1000)});
  Hush h; Tab tab(1); SEQ_CHECK(tab.open_from_txt(put("l", text(r, 0, 0)).c_str()), "not opened");
  for (int i = 0; i < n; i += 97) for (int c = 0; c < 2; ++c) cell(tab.search_position(i, c), r.type[c], r.row[i][c], i, c);
  SEQ_CHECK(tab.get_record_number() == n, "%d records", tab.get_record_number());
  std::string f = seq::scratch() + "/lb"; SEQ_CHECK(tab.save_tobinary(f.c_str()), "save");
  Tab u(2); SEQ_CHECK(u.open_from_txt(f.c_str()), "reopen"); SEQ_CHECK(u.get_record_number() == n, "%d records", u.get_record_number());
  for (int i = 0; i < n; i += 97) for (int c = 0; c < 2; ++c) cell(u.search_position(i, c), r.type[c], r.row[i][c], i, c);
}
static void poke(Tab &u) {
  for (int i = -1; i < 4; ++i) for (int c = -1; c < 4; ++c) { auto d = u.search_position(i, c); if (d && u.get_fieldtype(c) == 2) (void)strlen(d->string_value); }
  u.search_index_equal(1); u.get_fieldindex("id");
}
SEQ_SCENARIO(tab_damaged, "every truncation and header/type/offset change of a binary file is refused or harmless") {
  Ref r; r.type = {0, 2, 1}; r.name = {"id", "s", "f"}; r.row = {{"1", "one", "0.5"}, {"2", "two", "1.5"}};
  Hush h; Tab tab(1); tab.open_from_txt(put("d", text(r, 0, 0)).c_str());
  std::string f = seq::scratch() + "/db"; tab.save_tobinary(f.c_str()); std::string b = get(f);
  int what = seq::choose(3, "cut, word, byte");
  if (what == 2) {
    static const char B[] = {0, 'x', (char)0xff, 1, 9};
    int at = seq::choose(b.size() - 4, "byte"), v = seq::choose(5, "value");
    std::vector<char> *m = new std::vector<char>(b.begin(), b.end()); (*m)[4 + at] = B[v];
    Tab u(2); u.open_from_memory(m->data(), m->data() + m->size()); delete m; poke(u); seq::state(4096 + at * 8 + v);
  } else if (what == 0) {
    int n = seq::choose(b.size(), "length"); std::vector<char> m(b.begin(), b.begin() + n); m.shrink_to_fit();
    std::vector<char> *heap = new std::vector<char>(m); Tab u(2); bool ok = u.open_from_memory(heap->data(), heap->data() + n);
    SEQ_CHECK(!ok, "a file cut to %d of %zu bytes was accepted", n, b.size()); poke(u); delete heap;
  } else {
    static const uint32_t V[] = {0, 1, 2, 3, 4, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000000, 0x20000000, 100, 7, 8, 9, 10};
    int at = seq::choose((b.size() - 4) / 4, "word"), v = seq::choose(15, "value");
    std::vector<char> m(b.begin(), b.end()); memcpy(m.data() + 4 + at * 4, &V[v], 4);
    Tab u(2); u.open_from_memory(m.data(), m.data() + m.size()); poke(u); seq::state(at * 16 + v);
  }
}
SEQ_SCENARIO(tab_text_hostile, "every short text: opened or refused, never damage") {
  static const char A[] = "\t\n\rI1#"; std::string t = seq::flag("typed") ? "INT\tSTRING\n" : "";
  int n = seq::choose(seq::thorough() ? 8 : 7, "length"); for (int i = 0; i < n; ++i) t += A[seq::choose(6, "char")];
  Hush h; std::vector<char> m(t.begin(), t.end()); Tab u(2); u.open_from_memory(m.data(), m.data() + m.size()); poke(u); seq::step();
}

SEQ_SCENARIO(tab_long, "cells, names and comments of every length around the powers of two up to 20000 characters") {
  static const int L[] = {255, 1023, 4095, 8191, 10230, 10237, 16384, 20000};
  int n = L[seq::choose(8, "length")] + seq::choose(8, "more"), where = seq::choose(4, "where");
  Ref r; r.type = {0, 2, 2}; r.name = {"id", "s", "t"}; std::string w(n, 'w'); for (int i = 0; i < n; i += 7) w[i] = 'a' + i / 7 % 26;
  r.row = {{"1", "one", "x"}, {"2", "two", "y"}, {"3", "three", "z"}};
  if (where == 0) r.row[1][1] = w; if (where == 1) r.row[1][2] = w; if (where == 2) r.name[1] = w;
  std::string t = text(r, 0, 0); if (where == 3) t += "#" + w + "\n4\tfour\tlast\n"; if (where == 3) r.row.push_back({"4", "four", "last"});
  Hush h; Tab tab(1); SEQ_CHECK(tab.open_from_txt(put("g", t).c_str()), "not opened"); verify(tab, r, true, false);
  if (where < 3) roundtrip(tab, r, seq::choose(2, "save as"));
  seq::state(n * 4 + where);
}
