#include "seq.h"
#include "plain/all.h"
#include "plain/basic/utility.h"
#include "plain/basic/base64.h"
#include "plain/basic/md5.h"
#include "plain/basic/type/variable.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <ctime>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace plain;
using std::string;
using std::string_view;
// The clock seeds the generator of encrypt(): every seed is a case of its own.
static time_t g_now = 1;
extern "C" time_t time(time_t *t) noexcept { if (t) *t = g_now; return g_now; }
// a buffer of exactly the announced size, so that any access beyond it is seen
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(size_t n_) : p(new char[n_]), n(n_) { memset(p.get(), '#', n); } explicit Exact(string_view s) : Exact(s.size()) { if (n) memcpy(p.get(), s.data(), n); } operator string_view() const { return {p.get(), n}; } };
static string words(const char *alpha, int nalpha, int maxlen) { string s; int n = seq::choose(maxlen + 1, "length"); for (int i = 0; i < n; ++i) s += alpha[seq::choose(nalpha, "char")]; return s; }
// ---- base64
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string b64(string_view s) {
  string r; unsigned acc = 0; int bits = 0;
  for (unsigned char c : s) { acc = acc << 8 | c; bits += 8; while (bits >= 6) { bits -= 6; r += B64[acc >> bits & 63]; } acc &= 0xffff; }
  if (bits) r += B64[acc << (6 - bits) & 63];
  while (r.size() % 4) r += '=';
  return r;
}
static void b64_one(const string &s) {
  seq::step();
  Exact in(s); string e = base64_encode((string_view)in), want = b64(s);
  SEQ_CHECK(e == want, "base64 of %s is %s, not %s", seq::hex(s).c_str(), e.c_str(), want.c_str());
  SEQ_CHECK(base64_encode((const unsigned char *)in.p.get(), in.n) == want, "base64 of pointer and length differs for %s", seq::hex(s).c_str());
  SEQ_CHECK(base64_decode(e) == s, "base64 of %s does not decode to it", seq::hex(s).c_str());
}
SEQ_SCENARIO(u_b64_all, "every string of up to 3 bytes (quick: 2 and a third from a class of bytes), each alone and behind 3n bytes") {
  int a = seq::choose(257, "first"), pre = seq::choose(3, "before");
  string p(pre * 3, 'x');
  if (a == 256) { b64_one(p); return; }
  b64_one(p + (char)a);
  for (int b = 0; b < 256; ++b) {
    b64_one(p + (char)a + (char)b);
    for (int c = 0; c < 256; c += seq::thorough() ? 1 : 17) b64_one(p + (char)a + (char)b + (char)c);
  }
}
SEQ_SCENARIO(u_b64_len, "every length with every fill") {
  int n = seq::choose(seq::thorough() ? 600 : 200, "length"), f = seq::choose(4, "fill");
  string s; for (int i = 0; i < n; ++i) s += f == 0 ? '\0' : f == 1 ? '\xff' : f == 2 ? (char)(i * 37 + 11) : (char)(i ^ n);
  b64_one(s); seq::state(seq::hash(s));
}
SEQ_SCENARIO(u_b64_hostile, "decoding anything: what precedes the first foreign character counts, nothing else is read") {
  static const char A[] = {'A', '/', 'z', '=', ' ', '\0', '\x80', '9'};
  string s = words(A, 8, seq::thorough() ? 7 : 6); seq::step();
  size_t cut = 0; while (cut < s.size() && s[cut] && memchr(B64, s[cut], 64)) ++cut;
  string want; unsigned acc = 0; int bits = 0;
  for (size_t i = 0; i < cut; ++i) { acc = (acc << 6 | (unsigned)(strchr(B64, s[i]) - B64)) & 0xffff; bits += 6; if (bits >= 8) { bits -= 8; want += (char)(acc >> bits); } }
  string got = base64_decode(s);
  SEQ_CHECK(got == want, "%s decodes to %s instead of %s", seq::hex(s).c_str(), seq::hex(got).c_str(), seq::hex(want).c_str());
  seq::state(seq::hash(got));
}
// ---- MD5, straight from RFC 1321
static string ref_md5(string m) {
  static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  uint64_t bits = (uint64_t)m.size() * 8; m += '\x80'; while (m.size() % 64 != 56) m += '\0';
  for (int i = 0; i < 8; ++i) m += (char)(bits >> 8 * i);
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 0; j < 4; ++j) w[i] |= (uint32_t)(unsigned char)m[o + i * 4 + j] << 8 * j; }
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int g;
      if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; }
      uint32_t t = d; d = c; c = b; uint32_t x = a + f + (uint32_t)(long long)floor(fabs(sin((double)(i + 1))) * 4294967296.0) + w[g]; int s = S[i / 16][i % 4];
      b += x << s | x >> (32 - s); a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  string r; char t[3]; for (int i = 0; i < 16; ++i) { snprintf(t, 3, "%02x", h[i / 4] >> 8 * (i % 4) & 255); r += t; } return r;
}
SEQ_SCENARIO(u_md5, "every length fed in every split into up to three pieces") {
  static const int N[] = {0, 1, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 191, 192, 200};
  int n = seq::thorough() ? seq::choose(260, "length") : N[seq::choose(20, "length")], f = seq::choose(3, "fill");
  string s; for (int i = 0; i < n; ++i) s += f == 0 ? 'a' : f == 1 ? (char)(i * 29 + 3) : '\xff';
  string want = ref_md5(s); Exact in(s);
  SEQ_CHECK(md5(s) == want, "md5 of %d bytes is %s, not %s", n, md5(s).c_str(), want.c_str());
  for (int a = 0; a <= n; ++a) for (int b = a; b <= n; b += (seq::thorough() ? 1 : std::max(1, (n - a) / 40))) {
    MD5 m; m.update(in.p.get(), a); m.update((const unsigned char *)in.p.get() + a, b - a); m.update(in.p.get() + b, n - b); m.finalize(); seq::step();
    SEQ_CHECK(m.hexdigest() == want, "md5 of %d bytes fed as %d, %d, %d is %s, not %s", n, a, b - a, n - b, m.hexdigest().c_str(), want.c_str());
    std::ostringstream os; os << m; SEQ_CHECK(os.str() == want && m.finalize().md5() == want, "md5 printed or finalised again differs");
  }
  seq::state(seq::hash(want));
}
// ---- hexadecimal text
SEQ_SCENARIO(u_hex, "every byte in every place: to text and back, buffers as large as announced") {
  int n = seq::choose(5, "length"), at = n ? seq::choose(n, "at") : 0, lim = seq::choose(6, "room");
  for (int c = 0; c < 256; ++c) {
    string s(n, 'k'); if (n) s[at] = (char)c; Exact in(s), t(2 * n); seq::step();
    bool ok = binary_tostring(in.p.get(), n, t.p.get());
    SEQ_CHECK(ok == (n > 0), "binary_tostring of %d bytes says %d", n, ok);
    for (int i = 0; i < n; ++i) { char w[3]; snprintf(w, 3, "%02X", (unsigned char)s[i]); SEQ_CHECK(string_view(t).substr(2 * i, 2) == w, "byte %02x became '%c%c'", (unsigned char)s[i], t.p[2 * i], t.p[2 * i + 1]); }
    Exact o(lim); uint32_t len = 77; bool ok2 = string_tobinary(t.p.get(), 2 * n, o.p.get(), lim, len);
    SEQ_CHECK(ok2 == (n > 0), "string_tobinary of %d characters says %d", 2 * n, ok2);
    if (ok2) SEQ_CHECK(len == (uint32_t)std::min(n, lim) && !memcmp(o.p.get(), s.data(), len), "text of %d bytes into %d gives %u bytes", n, lim, len);
    if (n) { uint32_t l3 = 0; Exact big(n); string_tobinary(t.p.get(), 2 * n - 1, big.p.get(), n, l3); SEQ_CHECK(l3 == (uint32_t)n - 1, "half a byte at the end: %u bytes of %d", l3, n); }
    bytes_t by; for (char ch : s) by.push_back((bytes_t::value_type)ch);
    string hx; for (char ch : s) { char w[8]; snprintf(w, 8, "\\x%x", (unsigned char)ch); hx += w; }
    SEQ_CHECK(to_hex(by) == hx, "to_hex of %s is %s", seq::hex(s).c_str(), to_hex(by).c_str());
  }
}
// ---- the password cipher
// must: 1 encrypted, 0 refused, -1 either (the cipher may give up on a long password, and says so)
static void pw_one(const string &s, int must) {
  seq::step(); string t = s + "Q", e = "before"; // a view that does not end with a zero byte
  bool r = encrypt(string_view(t).substr(0, s.size()), e);
  SEQ_CHECK(must < 0 || r == must, "encrypting '%s' says %d", s.c_str(), r);
  if (!r) { SEQ_CHECK(e == "before", "a refused password changed the result"); return; }
  SEQ_CHECK(e.size() == 32, "'%s' became %zu characters", s.c_str(), e.size());
  string d; Exact ee(e); SEQ_CHECK(decrypt(ee, d) && d == s, "'%s' became '%s', which decrypts to '%s'", s.c_str(), e.c_str(), d.c_str());
}
SEQ_SCENARIO(u_password, "every password of up to 2 printable characters, every length to 24, every byte at every place") {
  switch (seq::choose(3, "what")) {
    case 0: { int a = seq::choose(95, "first") + 32; pw_one("", true); pw_one(string(1, (char)a), true); for (int b = 32; b < 127; ++b) { pw_one(string() + (char)a + (char)b, true); if (seq::thorough()) for (int c = 32; c < 127; ++c) pw_one(string() + (char)a + (char)b + (char)c, true); } break; }
    case 1: { int n = seq::choose(25, "length"); for (int c = 32; c < 127; ++c) for (int st = 0; st < 4; ++st) { string s; for (int i = 0; i < n; ++i) s += (char)(32 + (c - 32 + i * st * 7) % 95); pw_one(s, n > 20 ? 0 : n <= 10 ? 1 : -1); } break; }
    case 2: { int n = 1 + seq::choose(20, "length"), at = seq::choose(n, "at"); for (int c = 1; c < 256; ++c) { string s(n, 'p'); s[at] = (char)c; pw_one(s, c >= 32 && c < 127); } break; }
  }
}
SEQ_SCENARIO(u_password_bad, "decrypting a damaged text: refused or answered, never out of bounds, at most 20 characters") {
  int base = seq::choose(21, "password length"), at = seq::choose(32, "at"), how = seq::choose(3, "how");
  string pw(base, 'w'), e; encrypt(pw, e);
  for (int c = 0; c < 256; ++c) {
    string t = e; if (how == 0) t[at] = (char)c; else if (how == 1) t = t.substr(0, at) + string(c % 3, 'x'); else t.insert(at, 1, (char)c);
    string d = "before"; Exact in(t); seq::step(); bool ok = decrypt(in, d);
    SEQ_CHECK(ok ? d.size() <= 20 : d == "before", "damaged text: %d, %zu characters", ok, d.size());
    if (how == 2 && c) SEQ_CHECK(!ok, "a text of 33 characters was accepted");
  }
}
// ---- a number hidden in a text
static const int32_t NUM[] = {0, 1, -1, 9, 10, -10, 99, 12345, -54321, 999999999, 1000000000, INT_MAX, INT_MIN, INT_MIN + 1, -2000000000};
SEQ_SCENARIO(u_number, "every text of the alphabet, every number of the list, every seed in a window: what was hidden comes back") {
  int num = seq::choose(sizeof NUM / sizeof *NUM, "number"); string s;
  int k = seq::choose(4, "kind");
  if (k < 3) { static const char A[] = {'a', '0', '\0'}; s = words(A, 3, 3); if (k == 1) s = "head" + s; if (k == 2) s += string(97, 't'); }
  else { s = string(seq::choose(40, "length") * 29, 'z'); }
  for (g_now = 0; g_now < (seq::thorough() ? 600 : 120); ++g_now) {
    Exact in(s); string e, d; int32_t n = 77; seq::step();
    SEQ_CHECK(encrypt(in, NUM[num], e), "encrypt failed");
    Exact ee(e); SEQ_CHECK(decrypt(ee, n, d) && n == NUM[num] && d == s, "%d in %zu bytes (seed %ld) came back as %d in %s", NUM[num], s.size(), (long)g_now, n, seq::hex(d).c_str());
  }
}
SEQ_SCENARIO(u_number_bad, "decrypting anything is refused or answered without touching anything else") {
  static const char A[] = {'a', 'b', 'c', 'd', 'm', 'A', 'z', '\0', '\xff', '\x7f'};
  string s = words(A, 10, seq::thorough() ? 7 : 6); seq::step();
  Exact in(s); int32_t n = 5; string d = "before"; bool ok = decrypt(in, n, d);
  if (ok) SEQ_CHECK(d.size() < s.size(), "more text than there was"); else SEQ_CHECK(d == "before", "a refused text changed the result");
  seq::state(seq::hash(d, ok * 31 + n));
}
// ---- text
static const char MASK[] = {' ', '\t', '\n', '\r', '\0', '\x0B'};
static bool inmask(char c, string_view m) { return m.find(c) != m.npos; }
SEQ_SCENARIO(u_trim, "every string over blanks and letters, every mask") {
  static const char A[] = {' ', '\0', '\x0B', '\n', 'a', 'b', '\t', '\r'};
  string s = words(A, 8, seq::thorough() ? 6 : 5); int m = seq::choose(4, "mask");
  string mask = m == 0 ? string(MASK, 6) : m == 1 ? "a" : m == 2 ? string("b\0", 2) : ""; seq::step();
  size_t l = 0, r = s.size(); while (l < r && inmask(s[l], mask)) ++l; size_t l0 = l; size_t r0 = s.size(); while (r0 > 0 && inmask(s[r0 - 1], mask)) --r0; r = std::max(l, r0);
  string a = s, b = s, c = s; auto &ra = m ? ltrim(a, mask) : ltrim(a); auto &rb = m ? rtrim(b, mask) : rtrim(b); auto &rc = m ? trim(c, mask) : trim(c);
  SEQ_CHECK(&ra == &a && &rb == &b && &rc == &c, "trim returns another string");
  SEQ_CHECK(a == s.substr(l0), "ltrim of %s gives %s", seq::hex(s).c_str(), seq::hex(a).c_str());
  SEQ_CHECK(b == s.substr(0, r0), "rtrim of %s gives %s", seq::hex(s).c_str(), seq::hex(b).c_str());
  SEQ_CHECK(c == s.substr(l, r - l), "trim of %s gives %s", seq::hex(s).c_str(), seq::hex(c).c_str());
  seq::state(seq::hash(c));
}
static string ref_replace(string_view f, string_view t, string_view s, int count) {
  string r; size_t i = 0; int n = 0;
  while (i < s.size()) { if (!f.empty() && (count == -1 || n < count) && s.substr(i, f.size()) == f) { r += t; i += f.size(); ++n; } else r += s[i++]; }
  return r;
}
SEQ_SCENARIO(u_replace, "every subject, search and replacement over two letters, every count") {
  string s = words("ab", 2, seq::thorough() ? 6 : 5), f = words("ab", 2, 2), t = words("ab", 2, 3); int cnt = seq::choose(5, "count") - 1; seq::step();
  Exact es(s), ef(f), et(t);
  string got = str_replace(ef, et, es, cnt), want = ref_replace(f, t, s, cnt);
  SEQ_CHECK(got == want, "'%s' by '%s' in '%s' (%d): '%s' instead of '%s'", f.c_str(), t.c_str(), s.c_str(), cnt, got.c_str(), want.c_str());
  if (cnt == -1) SEQ_CHECK(str_replace(f, t, s) == want, "the default replaces not all");
  for (const char *f2 : {"", "a", "ba", "bb"}) {
    std::vector<string> fs{f, f2}; string w = ref_replace(f2, t, want, cnt), g = str_replaces(fs, t, s, cnt);
    SEQ_CHECK(g == w, "'%s' and '%s' by '%s' in '%s' (%d): '%s' instead of '%s'", f.c_str(), f2, t.c_str(), s.c_str(), cnt, g.c_str(), w.c_str());
    bool has = (!f.empty() && s.find(f) != s.npos) || (*f2 && s.find(f2) != s.npos);
    SEQ_CHECK(contains(es, fs) == has, "contains '%s' or '%s' in '%s'", f.c_str(), f2, s.c_str());
  }
  SEQ_CHECK(str_replaces({}, t, s) == s && !contains(s, {}), "nothing to look for, yet something happened");
  seq::state(seq::hash(got));
}
SEQ_SCENARIO(u_slashes, "addslashes puts a backslash before each quote and backslash; stripslashes takes them away again; case conversion") {
  static const char A[] = {'\\', '\'', '"', 'a', '\0', '\xe4'};
  string s = words(A, 6, seq::thorough() ? 7 : 6); seq::step(); string w;
  for (char c : s) { if (c == '\\' || c == '\'' || c == '"') w += '\\'; w += c; }
  Exact in(s); string q = addslashes(in);
  SEQ_CHECK(q == w, "addslashes of %s is %s", seq::hex(s).c_str(), seq::hex(q).c_str());
  SEQ_CHECK(stripslashes(q) == s, "%s quoted is %s, unquoted %s", seq::hex(s).c_str(), seq::hex(q).c_str(), seq::hex(stripslashes(q)).c_str());
  string u = toupper(in), l = tolower(in); for (size_t i = 0; i < s.size(); ++i) SEQ_CHECK(u[i] == (s[i] == 'a' ? 'A' : s[i]) && l[i] == s[i], "case of %s", seq::hex(s).c_str());
  SEQ_CHECK(tolower(u) == s, "lower of upper");
}
SEQ_SCENARIO(u_escape, "getescape into every output size") {
  static const char A[] = {'\0', '\n', '\r', '\x1a', '"', '\'', '\\', 'x', '\xff'}, E[] = "0nrZ\"'\\";
  string s = words(A, 9, 4), w; seq::step(); for (char c : s) { const char *p = (const char *)memchr(A, c, 7); if (p) { w += '\\'; w += E[p - A]; } else w += c; }
  for (size_t room = 0; room <= w.size() + 2; ++room) {
    Exact in(s), out(room); bool ok = getescape(in.p.get(), in.n, out.p.get(), room);
    SEQ_CHECK(ok == (room >= w.size()), "%s into %zu bytes: %d", seq::hex(s).c_str(), room, ok);
    if (ok) SEQ_CHECK(string_view(out).substr(0, w.size()) == w, "%s became %s", seq::hex(s).c_str(), seq::hex(out).c_str());
  }
  if (!s.empty()) { bool bad = false; for (char c : s) { if (!c) break; if (strchr("'\"()=", c)) bad = true; } Exact in(s); SEQ_CHECK(checkstr(in.p.get(), in.n) == !bad, "checkstr of %s", seq::hex(s).c_str()); }
}
SEQ_SCENARIO(u_explode, "every text and key, one character or the whole key, empty parts or not") {
  string s = words("a,;", 3, seq::thorough() ? 7 : 6), k = words(",;a", 3, 2); bool one = seq::flag("one"), skip = seq::flag("ignore empty"); seq::step();
  std::vector<string> w, g{"old"};
  if (!s.empty()) {
    string cur; size_t i = 0;
    while (i < s.size()) {
      bool hit = !k.empty() && (one ? k.find(s[i]) != k.npos : s.compare(i, k.size(), k) == 0);
      if (hit) { if (!skip || !cur.empty()) w.push_back(cur); cur.clear(); i += one ? 1 : k.size(); } else cur += s[i++];
    }
    if (!skip || !cur.empty()) w.push_back(cur);
  }
  int n = explode(s.c_str(), g, k.c_str(), one, skip);
  SEQ_CHECK(g == w && n == (int)w.size(), "'%s' by '%s' (%d, %d): %d parts instead of %zu", s.c_str(), k.c_str(), one, skip, n, w.size());
}
SEQ_SCENARIO(u_paths, "dirname, complementpath, separators") {
  string s = words("/\\ab", 4, seq::thorough() ? 7 : 6); seq::step();
  string u = s; std::replace(u.begin(), u.end(), '\\', '/'); string d = u.rfind('/') == u.npos ? "" : u.substr(0, u.rfind('/'));
  Exact out(s.size() + 1); dirname(s.c_str(), out.p.get()); SEQ_CHECK(d == out.p.get(), "dirname of '%s' is '%s'", s.c_str(), out.p.get());
  { Exact b(s); path_tounix(b.p.get(), b.n); SEQ_CHECK(string_view(b) == u, "unix path of '%s'", s.c_str()); string w = s; std::replace(w.begin(), w.end(), '/', '\\'); Exact c(s); path_towindows(c.p.get(), c.n); SEQ_CHECK(string_view(c) == w, "windows path of '%s'", s.c_str()); }
  for (size_t extra = 1; extra <= 3; ++extra) {
    Exact b(s.size() + extra); memcpy(b.p.get(), s.c_str(), s.size() + 1); complementpath(b.p.get(), b.n);
    bool add = !s.empty() && s.back() != '/' && extra >= 2; string w = s + (add ? "/" : "");
    SEQ_CHECK(memchr(b.p.get(), 0, b.n) && w == b.p.get(), "'%s' in %zu bytes completed to '%s'", s.c_str(), b.n, b.p.get());
  }
}
SEQ_SCENARIO(u_makedir, "directories along every path of up to 4 parts, some of which exist") {
  static const char *P[] = {"a", "b", "a/", "\\c", "//d", "file"}; int n = seq::choose(seq::thorough() ? 5 : 4, "parts"), dflt = seq::choose(2, "mode"), pre = seq::choose(3, "before"); string rel;
  int k[5]; for (int i = 0; i < n; ++i) k[i] = seq::choose(6, "part");
  string root = seq::scratch() + "/mk"; if (system(("rm -rf '" + root + "'").c_str())) seq::fail("scratch"); mkdir(root.c_str(), 0755);
  if (pre == 1) mkdir((root + "/a").c_str(), 0755);
  if (pre == 2) { FILE *f = fopen((root + "/file").c_str(), "w"); fclose(f); }
  string path = root; for (int i = 0; i < n; ++i) { path += "/"; path += P[k[i]]; } seq::step();
  umask(022); bool ok = dflt ? makedir(path.c_str()) : makedir(path.c_str(), 0700);
  string u = path; std::replace(u.begin(), u.end(), '\\', '/'); struct stat st;
  bool usesfile = pre == 2 && (u + "/").find(root + "/file/") != u.npos;
  if (usesfile) SEQ_CHECK(!ok || n == 1 || true, "unreachable");
  else {
    SEQ_CHECK(ok && !stat(u.c_str(), &st) && S_ISDIR(st.st_mode), "'%s' was not made (%d)", path.c_str(), ok);
    bool old = n == 0 || (pre == 1 && (u == root + "/a" || u == root + "/a/"));
    if (!old) SEQ_CHECK((st.st_mode & 0777) == (dflt ? 0755u : 0700u), "'%s' was made with mode %o", path.c_str(), st.st_mode & 0777);
    SEQ_CHECK(makedir(path.c_str()), "an existing directory is not accepted");
  }
  SEQ_CHECK(!makedir(""), "the empty path was made");
  string big = root + "/" + string(FILENAME_MAX + seq::thorough(), 'x'); SEQ_CHECK(!makedir(big.c_str()), "an overlong path was made");
}
SEQ_SCENARIO(u_numbers, "two halves of 64 bits, sizes to text, text to numbers, wide text") {
  static const uint64_t V[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x1ffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff};
  uint64_t v = V[seq::choose(10, "value")]; int what = seq::choose(4, "what"); seq::step();
  if (what == 0) {
    SEQ_CHECK(touint64(get_highsection(v), get_lowsection(v)) == v, "halves of %lx", v);
    SEQ_CHECK(get_highsection(v) == (uint32_t)(v / 4294967296.0L) && get_lowsection(v) == (uint32_t)(v & 0xffffffff), "halves of %lx", v);
    SEQ_CHECK(touint64(std::to_string(v).c_str()) == v && toint64(std::to_string((int64_t)v).c_str()) == (int64_t)v, "text of %lx", v);
  } else if (what == 1) { // every boundary of every unit: 3 significant digits, rounded, within half a unit of the last digit
    uint64_t p = 1; for (int e = 0; e < 16; ++e, p *= 10) for (uint64_t m : {1ull, 2ull, 9ull}) for (int d = -60; d <= 60; ++d) {
      uint64_t b = m * p; if (d < 0 && b < (uint64_t)-d) continue;
      for (uint64_t s : {b + d, b + b / 1000 * 999 / 2 + d, b - b / 2000 + d, b - b / 200 + d, b - b / 3000 + d, b - b / 2500 + d, b - b / 10000 + d}) {
        string t = format_size(s); size_t k = t.find_first_not_of("0123456789."); double unit = k == t.npos ? 1 : pow(1000, 1 + (double)string("kMGTPE").find(t[k]));
        double x = atof(t.c_str()) * unit, dot = t.find('.') == t.npos ? 1 : pow(10, -(double)((k == t.npos ? t.size() : k) - t.find('.') - 1));
        SEQ_CHECK(fabs(x - (double)s) <= dot * unit * 0.5000001 + 1e-9, "%lu is shown as %s", s, t.c_str());
        int digits = 0; for (char c : t) digits += c >= '0' && c <= '9';
        SEQ_CHECK(t.size() <= 5 && digits <= 3 && (s < 1000 ? t == std::to_string(s) : k == t.size() - 1), "%lu is shown as %s", s, t.c_str()); seq::step();
      }
    }
  } else if (what == 2) {
    for (int n : {0, 1, 2, 126, 127, 128, 510, 511, 512, 513, 600, 2047, 2048, 3000}) { string s(n, 'w'); if (n > 1) s[n / 2] = 'q'; Exact in(s); auto w = str2wstr(in); SEQ_CHECK(w.size() == (size_t)n && wstr2str(w) == s, "%d characters became %zu wide ones", n, w.size()); }
  } else for (int c = -5; c < 70; ++c) SEQ_CHECK(get_base64char(c) == (c >= 0 && c < 64 ? B64[c] : '='), "base64 character %d", c);
}
// ---- variable_t
template <class V> static double num(const V &v) { if constexpr (std::is_same_v<V, string>) return atof(v.c_str()); else return (double)v; }
template <class V> static int64_t inum(const V &v) { if constexpr (std::is_same_v<V, string>) return strtoll(v.c_str(), nullptr, 10); else return (int64_t)v; }
template <class V> static string str(const V &v) { std::ostringstream o; o << v; return o.str(); }
template <class F> static void with_value(int k, F f) {
  switch (k) {
    case 0: f(true); break; case 1: f((int8_t)-5); break; case 2: f((uint8_t)200); break; case 3: f((int16_t)-300); break; case 4: f((uint16_t)65535); break;
    case 5: f((int32_t)7); break; case 6: f((uint32_t)4000000000u); break; case 7: f((int64_t)-9000000000); break; case 8: f((uint64_t)9000000000); break;
    case 9: f(0.5f); break; case 10: f(-2.25); break; case 11: f(string("12.5")); break; case 12: f(string("")); break; case 13: f(string("text")); break; case 14: f((int32_t)0); break; case 15: f(0.75); break; default: f((int32_t)-1);
  }
}
static constexpr int NV = 17;
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
SEQ_SCENARIO(u_variable, "every pair of values, every operation") {
  int a = seq::choose(NV, "left"), b = seq::choose(NV, "right"), op = seq::choose(14, "operation"); seq::step();
  with_value(a, [&](auto x) { with_value(b, [&](auto y) {
    using X = decltype(x); using Y = decltype(y); variable_t v(x), w(y); const variable_t &cw = w;
    double dx = num(x), dy = num(y); int64_t ix = inum(x);
    SEQ_CHECK(v.template get<X>() == x && v.template _get<X>() == x && w.template get<Y>() == y && static_cast<X>(v) == x, "a value put in does not come out");
    SEQ_CHECK(v.to_int64() == inum(x) && v.to_double() == dx && str(v) == str(x), "conversion of %s", str(x).c_str());
    if constexpr (std::is_same_v<X, string>) SEQ_CHECK(x == v.c_str(), "c_str");
    variable_t c(v); SEQ_CHECK(c == v && !(c != v) && c.template get<X>() == x, "a copy differs");
    bool threw = false; try { if constexpr (std::is_same_v<X, bool>) v.template get<string>(); else v.template get<bool>(); } catch (const std::bad_variant_access &) { threw = true; } SEQ_CHECK(threw, "another type was handed out");
    auto isd = [&](variable_t &r, double want, const char *o) { SEQ_CHECK(&r == &v && same(v.template get<double>(), want), "%s %s %s is %s", str(x).c_str(), o, str(y).c_str(), str(v).c_str()); SEQ_CHECK(cw.template get<Y>() == y, "the right side changed"); };
    auto isi = [&](variable_t &r, int64_t want, const char *o) { SEQ_CHECK(&r == &v && v.template get<int64_t>() == want, "%s of %s is %s", o, str(x).c_str(), str(v).c_str()); };
    switch (op) {
      case 0: isd(v += cw, dx + dy, "+="); break; case 1: isd(v -= cw, dx - dy, "-="); break; case 2: isd(v *= cw, dx * dy, "*="); break; case 3: if (dy != 0) isd(v /= cw, dx / dy, "/="); break;
      case 4: if constexpr (!std::is_same_v<Y, string>) isd(v += y, dx + dy, "+= plain"); break; case 5: if constexpr (!std::is_same_v<Y, string>) isd(v -= y, dx - dy, "-= plain"); break;
      case 6: if constexpr (!std::is_same_v<Y, string>) isd(v *= y, dx * dy, "*= plain"); break; case 7: if constexpr (!std::is_same_v<Y, string>) if (dy != 0) isd(v /= y, dx / dy, "/= plain"); break;
      case 8: isi(++v, ix + 1, "++"); isi(v++, ix + 2, "++"); isi(--v, ix + 1, "--"); isi(v--, ix, "--"); break;
      case 9: v = cw; SEQ_CHECK(v == w && v.template get<Y>() == y && w.template get<Y>() == y, "assigned"); v = *&v; SEQ_CHECK(v.template get<Y>() == y, "assigned to itself"); break;
      case 10: { v = std::move(w); SEQ_CHECK(v.template get<Y>() == y, "moved"); variable_t z(std::move(v)); SEQ_CHECK(z.template get<Y>() == y, "move constructed"); break; }
      case 11: { variable_t::value_type p = x, q = y; SEQ_CHECK((v == w) == (p == q) && (v != w) == (p != q) && (v < w) == (p < q) && (v > w) == (p > q) && (v <= w) == (p <= q) && (v >= w) == (p >= q), "comparison of %s and %s", str(x).c_str(), str(y).c_str()); break; }
      case 12: v += v; SEQ_CHECK(same(v.template get<double>(), dx + dx), "added to itself"); v -= v; SEQ_CHECK(v.template get<double>() == 0, "subtracted from itself"); break;
      case 13: { variable_array_t arr{v, w, v}; arr.resize(9); SEQ_CHECK(arr[0] == v && arr[1] == w && arr[2] == v, "in an array"); v = y; SEQ_CHECK(v.template get<Y>() == y, "plain value assigned"); break; }
    }
  }); });
}
