#include "seq.h"
#include "plain/all.h"
#include "plain/net/address.h"
#include <arpa/inet.h>
#include <cstring>
#include <memory>
#include <optional>
#include <sys/un.h>
using plain::net::Address;
using plain::bytes_t;
using std::string;
using std::string_view;
static void __attribute__((noinline)) dirty(int c) { volatile char b[4096]; for (auto &x : b) x = (char)c; }
// host text, what it means when listening and when connecting (nullptr: refused)
struct H { const char *t; int fam; const char *lis, *con; };
static const H HS[] = {
  {"", AF_INET, "0.0.0.0", "127.0.0.1"}, {"127.0.0.1", AF_INET, "0.0.0.0", "127.0.0.1"}, {"0.0.0.0", AF_INET, "0.0.0.0", "127.0.0.1"},
  {"1.2.3.4", AF_INET, "1.2.3.4", "1.2.3.4"}, {"255.255.255.255", AF_INET, "255.255.255.255", "255.255.255.255"}, {"255.255.255.254", AF_INET, "255.255.255.254", "255.255.255.254"},
  {"192.168.100.200", AF_INET, "192.168.100.200", "192.168.100.200"}, {"127.0.0.2", AF_INET, "127.0.0.2", "127.0.0.2"}, {"256.1.1.1", AF_INET, 0, 0}, {"1.2.3.4.5", AF_INET, 0, 0}, {"localhost", AF_INET, 0, 0}, {"x", AF_INET, 0, 0}, {"1.2.3.", AF_INET, 0, 0}, {"-1.2.3.4", AF_INET, 0, 0},
  {"::", AF_INET6, "::", "::1"}, {"::1", AF_INET6, "::", "::1"}, {"0:0:0:0:0:0:0:0", AF_INET6, "::", "::1"}, {"2409:8c20:1833:2000::afd:b739", AF_INET6, "2409:8c20:1833:2000:0:afd:b739", "2409:8c20:1833:2000::afd:b739"},
  {"fe80::1", AF_INET6, "fe80::1", "fe80::1"}, {"::ffff:1.2.3.4", AF_INET6, "::ffff:1.2.3.4", "::ffff:1.2.3.4"}, {"1:2:3:4:5:6:7:8", AF_INET6, "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8"}, {"ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", AF_INET6, "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"},
  {"1:2:3:4:5:6:7:8:9", AF_INET6, 0, 0}, {"1::2::3", AF_INET6, 0, 0}, {"g::1", AF_INET6, 0, 0}, {":::", AF_INET6, 0, 0},
};
static constexpr int NH = sizeof HS / sizeof *HS;
struct P { const char *t; int port; };
static const P PS[] = {{"0", 0}, {"1", 1}, {"80", 80}, {"255", 255}, {"256", 256}, {"4464", 4464}, {"32768", 32768}, {"65535", 65535}, {"", 0}, {"65536", -1}, {"70000", -1}, {"99999", -1}, {"100000", -1}, {"18446744073709551617", -1}, {"-1", -1}, {"x", -1}, {"8x", -1}, {" 8", -1}};
static constexpr int NP = sizeof PS / sizeof *PS;
static void expect(const Address &a, int fam, const char *host, int port) {
  unsigned char w[16] = {}; int n = fam == AF_INET ? 4 : 16;
  // the hand-written canonical text may use another zero run; compare the binary form
  if (!strcmp(host, "2409:8c20:1833:2000:0:afd:b739")) host = "2409:8c20:1833:2000::afd:b739";
  if (inet_pton(fam, host, w) != 1) seq::fail("harness: %s", host);
  SEQ_CHECK(a.family() == fam, "family %d instead of %d", a.family(), fam);
  SEQ_CHECK(a.port() == port, "port %d instead of %d", a.port(), port);
  string h = a.host(); unsigned char g[16] = {};
  SEQ_CHECK(inet_pton(fam, h.c_str(), g) == 1 && !memcmp(g, w, n), "host %s instead of %s", h.c_str(), host);
  SEQ_CHECK(a.size() == (fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "%zu bytes", a.size());
  SEQ_CHECK(a.text() == (fam == AF_INET6 ? "[" + h + "]" : h) + ":" + std::to_string(port), "text %s", a.text().c_str());
  // what the system sees
  bytes_t d = a.data(); SEQ_CHECK(d.size() == a.size(), "data and size differ");
  if (fam == AF_INET) { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(port); memcpy(&s.sin_addr, w, 4); SEQ_CHECK(!memcmp(d.data(), &s, sizeof s), "the socket address of %s differs", a.text().c_str()); }
  else { sockaddr_in6 s{}; s.sin6_family = AF_INET6; s.sin6_port = htons(port); memcpy(&s.sin6_addr, w, 16); SEQ_CHECK(!memcmp(d.data(), &s, sizeof s), "the socket address of %s differs", a.text().c_str()); }
}
template <class F> static std::optional<Address> make(F f) { try { return f(); } catch (const std::invalid_argument &) { return {}; } }
SEQ_SCENARIO(a_text, "every host with every port, listening or connecting, as one text or two arguments, terminated or not") {
  const H &h = HS[seq::choose(NH, "host")]; const P &p = PS[seq::choose(NP, "port")]; bool lis = seq::flag("listen"); int form = seq::choose(4, "form"), junk = seq::choose(3, "behind"); seq::step();
  string t; bool v6 = h.fam == AF_INET6; int port = p.port;
  if (form == 0) t = v6 ? "[" + string(h.t) + "]:" + p.t : string(h.t) + ":" + p.t;
  else if (form == 1) { t = h.t; port = 0; }
  else if (form == 2) { t = v6 ? "[" + string(h.t) + "]" : h.t; port = 0; }
  else { t = h.t; if (port < 0) seq::skip(); }
  static const char *J[] = {"", "0", ":81"};
  string buf = t + J[junk]; std::unique_ptr<char[]> mem(new char[buf.size()]); memcpy(mem.get(), buf.data(), buf.size()); string_view v(mem.get(), t.size());
  const char *want = lis ? h.lis : h.con; seq::note("'%s' %s", t.c_str(), lis ? "listen" : "connect");
  std::optional<Address> a;
  for (int c : {0x00, 0xa5, 0xff}) {
    dirty(c); auto b = make([&] { return form == 3 ? Address(v, (uint16_t)port, lis) : Address(v, lis); });
    SEQ_CHECK(!!b == (want && port >= 0), "'%s' was %s", t.c_str(), b ? "accepted" : "refused");
    if (!b) return;
    if (a) SEQ_CHECK(a->data() == b->data(), "the same text gives different addresses"); else a = b;
    expect(*b, h.fam, want, port);
  }
  SEQ_CHECK((bool)*a && !(bool)Address(), "validity");
  Address c(a->data()), e(*a), f; f = a->data(); Address g(std::move(e)); SEQ_CHECK(c.text() == a->text() && f.text() == a->text() && g.text() == a->text(), "copies differ");
  auto r = make([&] { return Address(a->text(), lis); }); SEQ_CHECK(r, "its own text %s is refused", a->text().c_str());
  SEQ_CHECK(r->data() == a->data(), "%s reads as %s", a->text().c_str(), r->text().c_str());
  seq::state(seq::hash(a->text()));
}
SEQ_SCENARIO(a_bytes, "socket addresses of every family and size: accepted only if the system could use them; nothing beyond them is read") {
  static const int FAM[] = {AF_UNSPEC, AF_UNIX, AF_INET, AF_INET6, 3, 17, 40, 255};
  int fam = FAM[seq::choose(8, "family")], size = seq::choose(140, "size"), fill = seq::choose(3, "fill"); seq::step();
  bytes_t b(size, (bytes_t::value_type)(fill == 0 ? 0 : fill == 1 ? 'p' : 0xff)); if (size >= 2) { uint16_t f = (uint16_t)fam; memcpy(b.data(), &f, 2); } b.shrink_to_fit();
  int f2 = size >= 2 ? fam : 0;
  bool ok = size && (f2 == AF_INET ? size == sizeof(sockaddr_in) : f2 == AF_INET6 ? size == sizeof(sockaddr_in6) : f2 == AF_UNIX ? size >= (int)offsetof(sockaddr_un, sun_path) && size <= (int)sizeof(sockaddr_un) : f2 == AF_UNSPEC ? size == sizeof(sockaddr_storage) : false);
  auto a = make([&] { return Address(b); }); auto m = make([&] { return Address(bytes_t(b)); }); auto s = make([&] { Address x("1.2.3.4:5"); try { x = b; } catch (...) { if (x.text() != "1.2.3.4:5") seq::fail("a refused assignment changed the address"); throw; } return x; });
  SEQ_CHECK(!!a == ok && !!m == ok && !!s == ok, "family %d with %d bytes was %s", f2, size, a ? "accepted" : "refused");
  if (!a) return;
  SEQ_CHECK(a->data() == b && a->size() == b.size() && a->family() == f2 && s->data() == b && m->data() == b, "another address came out");
  string t = a->text(), h = a->host(); uint16_t p = a->port();
  if (f2 == AF_UNIX) { int n = size - 2; SEQ_CHECK(n == 0 ? h == "<NULL>" : (int)h.size() == (fill == 0 ? 0 : n), "path of %zu characters in %d bytes", h.size(), size); }
  if (f2 == AF_INET || f2 == AF_INET6) SEQ_CHECK(p == (fill == 0 ? 0 : fill == 1 ? 0x7070 : 0xffff), "port %d", p);
  seq::state(seq::hash(t));
}
