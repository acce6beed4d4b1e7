#include "common.h"
#include "vnet.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include "plain/net/connection/basic.h"
#include "plain/net/connection/manager.h"
#include "plain/net/connector.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include "plain/net/stream/codec.h"
#include "plain/net/socket/basic.h"
#include "plain/engine/kernel.h"
using namespace plain::net;
using Conn = std::shared_ptr<connection::Basic>;
using Pkt = std::shared_ptr<packet::Basic>;

struct Quiet { Quiet() { mc_quiet_begin(); } ~Quiet() { mc_quiet_end(); } };
static void setup() {
  Quiet q;
  Logger::set_output([](const std::string_view &) {});
  Logger::set_flush([] {});
  (void)ENGINE;
}
static setting_t setting(Mode m = Mode::Epoll) {
  setting_t s; s.name = "t"; s.default_count = 1; s.max_count = 4; s.mode = m; return s;
}
static Pkt pkt(uint16_t id, const std::string &body) {
  Quiet q;
  auto p = std::make_shared<packet::Basic>(); p->set_id(id); p->set_writeable(true);
  p->write(reinterpret_cast<const std::byte *>(body.data()), body.size()); p->set_writeable(false); return p;
}
static std::string enc(const Pkt &p) { Quiet q; auto b = stream::encode(p); return std::string((const char *)b.data(), b.size()); }
static std::string body(const Pkt &p) { auto d = p->data(); return std::string((const char *)d.data(), d.size()); }

// ---- the scripted remote side (plain blocking sockets of the virtual network)
static int srv_listen(uint16_t port) {
  Quiet q;
  int l = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port);
  ::bind(l, (sockaddr *)&a, sizeof a); ::listen(l, 8); return l;
}
static int cli_connect(uint16_t port) {
  int s = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  MC_CHECK(::connect(s, (sockaddr *)&a, sizeof a) == 0, "the peer cannot connect to the listener"); return s;
}
static std::string rd_n(int fd, size_t n) {
  std::string s; char b[512];
  while (s.size() < n) { ssize_t k = ::recv(fd, b, std::min(sizeof b, n - s.size()), 0); if (k <= 0) break; s.append(b, k); }
  return s;
}
static void wr(int fd, const std::string &s) { ssize_t k = ::send(fd, s.data(), s.size(), 0); MC_CHECK(k == (ssize_t)s.size(), "INTERNAL: short send"); }
static bool at_eof(int fd) { char c; return ::recv(fd, &c, 1, 0) == 0; }

struct Client {
  int l; std::unique_ptr<Connector> c; Conn conn; int peer;
  Client(packet::dispatch_func d = {}, Mode m = Mode::Epoll) {
    setup(); l = srv_listen(5000);
    { Quiet q; c = std::make_unique<Connector>(setting(m)); if (d) c->set_dispatcher(d); }
    MC_CHECK(c->start(), "connector start failed");
    conn = c->connect("127.0.0.1:5000");
    MC_CHECK(conn && conn->valid(), "connect to a listening peer failed");
    peer = ::accept(l, nullptr, nullptr);
  }
};

MC_SCENARIO(nc_send, "client connection: two sends from one thread reach the peer completely and in order; stop returns") {
  Client k;
  auto p1 = pkt(10, "abc"), p2 = pkt(11, "defgh");
  MC_CHECK(k.conn->send(p1), "send failed"); MC_CHECK(k.conn->send(p2), "send failed");
  std::string want = enc(p1) + enc(p2), got = rd_n(k.peer, want.size());
  MC_CHECK(got == want, "peer received %zu of %zu bytes or altered bytes", got.size(), want.size());
  k.c->stop();
  MC_CHECK(at_eof(k.peer), "peer sees more than what was sent");
}
// Dispatcher of the tests: logs the packet id, checks body
static packet::dispatch_func logger() {
  return [](connection::Basic *, Pkt p) { MC_CHECK(body(p) == std::string(p->id() % 7, 'a' + p->id() % 26), "packet %d has a wrong body", (int)p->id()); mc_log(p->id()); mc_cnt_add(C_DONE, 1); return true; };
}
static Pkt lp(int id) { return pkt(id, std::string(id % 7, 'a' + id % 26)); }
static void expect_log(std::initializer_list<int> ids) {
  MC_CHECK(mc_log_size() == (int)ids.size(), "%d packets dispatched, %zu sent", mc_log_size(), ids.size());
  int i = 0; for (int x : ids) { MC_CHECK(mc_log_at(i) == x, "packet %d dispatched at position %d instead of %d", (int)mc_log_at(i), i, x); ++i; }
}
MC_SCENARIO(nc_send2, "two threads send on one connection: the peer gets both packets whole") {
  Client k;
  auto p1 = pkt(10, "abc"), p2 = pkt(11, "defgh");
  std::thread t([&] { MC_CHECK(k.conn->send(p1), "send failed"); });
  MC_CHECK(k.conn->send(p2), "send failed");
  std::string a = enc(p1) + enc(p2), b = enc(p2) + enc(p1), got = rd_n(k.peer, a.size());
  MC_CHECK(got == a || got == b, "peer received %zu of %zu bytes or altered bytes", got.size(), a.size());
  t.join(); k.c->stop();
}
MC_SCENARIO(nc_recv, "peer sends two packets in pieces: both are dispatched once, in order") {
  Client k(logger());
  std::string w = enc(lp(10)) + enc(lp(11));
  int cut = mc_choose(3, "cut"); size_t at = cut == 0 ? w.size() : cut == 1 ? 3 : enc(lp(10)).size() + 8;
  wr(k.peer, w.substr(0, at)); if (at < w.size()) wr(k.peer, w.substr(at));
  wait_cnt(C_DONE, 2, "packets to be dispatched");
  k.c->stop(); expect_log({10, 11});
}
MC_SCENARIO(nc_recv_close, "peer sends a packet and closes: the packet is dispatched and the disconnect reported once") {
  Client k(logger());
  k.c->set_disconnect_callback([](connection::Basic *) { mc_log(-1); mc_cnt_add(C_MISC, 1); });
  wr(k.peer, enc(lp(10))); ::close(k.peer);
  wait_cnt(C_MISC, 1, "the disconnect callback");
  k.c->stop(); expect_log({10, -1});
}
MC_SCENARIO(nc_many_close, "peer sends 30 packets and closes: all are dispatched before the disconnect") {
  Client k(logger());
  k.c->set_disconnect_callback([](connection::Basic *) { mc_cnt_add(C_MISC, 1); });
  std::string w; for (int i = 0; i < 30; ++i) w += enc(lp(10 + i));
  wr(k.peer, w); ::close(k.peer);
  wait_cnt(C_MISC, 1, "the disconnect callback");
  MC_CHECK(mc_cnt(C_DONE) == 30, "%d of 30 packets received before the close were dispatched", (int)mc_cnt(C_DONE));
  for (int i = 0; i < 30; ++i) MC_CHECK(mc_log_at(i) == 10 + i, "order");
  k.c->stop();
}
MC_SCENARIO(nc_partial, "70 packets each arriving with the first bytes of the next header: the connection survives") {
  Client k(logger());
  std::string w; for (int i = 0; i < 70; ++i) w += enc(lp(10 + i));
  size_t done = 0, end = 0;
  for (int i = 0; i < 70; ++i) {
    end += enc(lp(10 + i)).size(); size_t to = std::min(w.size(), end + 2);
    wr(k.peer, w.substr(done, to - done)); done = to;
    wait_cnt(C_DONE, i + 1, "a packet of a healthy connection to be dispatched");
  }
  MC_CHECK(k.conn->valid(), "healthy connection closed"); k.c->stop();
}
MC_SCENARIO(nc_stop_idle, "start and stop without a connection: stop returns") { setup(); Connector c(setting()); MC_CHECK(c.start(), "start"); c.stop(); MC_CHECK(!c.running(), "running after stop"); }
MC_SCENARIO(nc_stop_race, "send races with stop: no crash, stop returns") {
  Client k;
  auto p1 = pkt(10, "abc");
  std::thread t([&] { k.conn->send(p1); k.conn->send(p1); });
  k.c->stop(); t.join();
}
MC_SCENARIO(nc_recv_stop, "incoming data races with stop") {
  Client k(logger());
  wr(k.peer, enc(lp(10))); k.c->stop();
  int n = mc_log_size(); mc_quiesce(1); MC_CHECK(mc_log_size() == n, "a packet was dispatched after stop() returned");
}
MC_SCENARIO(nc_refused, "connect to a port nobody listens on fails, the slot is free again, nothing leaks") {
  setup(); Connector c(setting()); MC_CHECK(c.start(), "start");
  int fds = vnet_open_fds();
  for (int i = 0; i < 6; ++i) { auto k = c.connect("127.0.0.1:5999"); MC_CHECK(!k, "connect to nobody succeeded"); }
  MC_CHECK(vnet_open_fds() == fds, "failed connects leak descriptors");
  int l = srv_listen(5000); auto k = c.connect("127.0.0.1:5000"); MC_CHECK(k && k->valid(), "connect refused although a peer listens and slots are free");
  c.stop(); (void)l;
}

// ---- listener side
struct Server {
  std::unique_ptr<Listener> s;
  Server(packet::dispatch_func d = {}, int max = 4, std::shared_ptr<executor::Basic> ex = {}, Mode m = Mode::Epoll) {
    setup();
    { Quiet q; auto st = setting(m); st.address = "127.0.0.1:6000"; st.max_count = max; s = std::make_unique<Listener>(st, ex); if (d) s->set_dispatcher(d);
    s->set_connect_callback([](connection::Basic *) { mc_cnt_add(C_MISC, 1); });
    s->set_disconnect_callback([](connection::Basic *) { mc_cnt_add(C_MISC + 1, 1); }); }
    MC_CHECK(s->start(), "listener start failed");
  }
};
static packet::dispatch_func echo() { return [](connection::Basic *c, Pkt p) { MC_CHECK(c->send(p), "send from a dispatcher failed"); return true; }; }
MC_SCENARIO(ns_echo, "listener echoes one client's two packets") {
  Server k(echo()); int c = cli_connect(6000);
  std::string w = enc(lp(10)) + enc(lp(12)); wr(c, enc(lp(10))); wr(c, enc(lp(12)));
  MC_CHECK(rd_n(c, w.size()) == w, "echo altered"); k.s->stop(); MC_CHECK(at_eof(c), "extra bytes");
}
MC_SCENARIO(ns_two, "listener and two clients: each gets its own echo") {
  Server k(echo()); int a = cli_connect(6000), b = cli_connect(6000);
  wr(a, enc(lp(10))); wr(b, enc(lp(12)));
  MC_CHECK(rd_n(a, enc(lp(10)).size()) == enc(lp(10)), "client a got wrong bytes"); MC_CHECK(rd_n(b, enc(lp(12)).size()) == enc(lp(12)), "client b got wrong bytes");
  k.s->stop(); MC_CHECK(at_eof(a) && at_eof(b), "extra bytes");
  MC_CHECK(mc_cnt(C_MISC) == 2, "connect callback %d times", (int)mc_cnt(C_MISC));
}
MC_SCENARIO(ns_close, "client sends, closes: connect and disconnect reported once each; the slot is reusable") {
  Server k(logger(), 1); int a = cli_connect(6000);
  wr(a, enc(lp(10))); ::close(a);
  wait_cnt(C_MISC + 1, 1, "the disconnect callback");
  int b = cli_connect(6000); wr(b, enc(lp(12))); wait_cnt(C_DONE, 2, "the second client's packet");
  k.s->stop(); expect_log({10, 12});
  MC_CHECK(mc_cnt(C_MISC) == 2 && mc_cnt(C_MISC + 1) <= 2, "connects %d disconnects %d", (int)mc_cnt(C_MISC), (int)mc_cnt(C_MISC + 1));
}
MC_SCENARIO(ns_full, "a client beyond max_count is turned away, the first one is unaffected") {
  Server k(echo(), 1); int a = cli_connect(6000); int b = cli_connect(6000);
  wr(a, enc(lp(10))); MC_CHECK(rd_n(a, enc(lp(10)).size()) == enc(lp(10)), "client a got wrong bytes");
  MC_CHECK(at_eof(b), "second client was accepted beyond max_count");
  k.s->stop();
}
MC_SCENARIO(ns_pool, "listener on a 2-thread pool executor: packets of one client are dispatched once and in order") {
  auto ex = std::make_shared<executor::ThreadPool>("p", 2, 10s);
  Server k(logger(), 4, ex); int a = cli_connect(6000);
  wr(a, enc(lp(10))); wr(a, enc(lp(11))); 
  wait_cnt(C_DONE, 2, "packets"); expect_log({10, 11}); k.s->stop();
}
MC_SCENARIO(ns_pool_echo, "listener on a 2-thread pool executor echoes one client's packets in order") {
  auto ex = std::make_shared<executor::ThreadPool>("p", 2, 10s);
  Server k(echo(), 4, ex); int a = cli_connect(6000);
  std::string w = enc(lp(10)) + enc(lp(12)); wr(a, enc(lp(10))); wr(a, enc(lp(12)));
  MC_CHECK(rd_n(a, w.size()) == w, "echo altered"); k.s->stop();
}
MC_SCENARIO(ns_broadcast, "broadcast reaches every connected client") {
  Server k; int a = cli_connect(6000), b = cli_connect(6000); wait_cnt(C_MISC, 2, "both accepted");
  auto p = lp(10); k.s->broadcast(p);
  MC_CHECK(rd_n(a, enc(p).size()) == enc(p) && rd_n(b, enc(p).size()) == enc(p), "broadcast altered"); k.s->stop();
}

// ---- rpc
static std::string rd_pkt(int fd, int &id) { std::string h = rd_n(fd, 6); if (h.size() < 6) { id = -1; return {}; } id = (uint8_t)h[0] << 8 | (uint8_t)h[1]; size_t n = (uint8_t)h[2] << 24 | (uint8_t)h[3] << 16 | (uint8_t)h[4] << 8 | (uint8_t)h[5]; return rd_n(fd, n); }
static uint32_t be32(const std::string &s) { return (uint8_t)s[0] << 24 | (uint8_t)s[1] << 16 | (uint8_t)s[2] << 8 | (uint8_t)s[3]; }
static std::string resp(uint32_t idx, int err, int val) {
  Quiet q; auto p = std::make_shared<packet::Basic>(); p->set_id(packet::kRpcResponseId); p->set_writeable(true); *p << idx; *p << (int32_t)err;
  if (!err) { rpc::Packer k; k.process(val); *p << k.vector(); } p->set_writeable(false); return enc(p);
}
MC_SCENARIO(nr_call2, "two outstanding calls answered in either order: each future gets its own answer") {
  Client k;
  auto f1 = k.conn->async_call("f", 1), f2 = k.conn->async_call("f", 2);
  int id; uint32_t i1 = be32(rd_pkt(k.peer, id)), i2 = be32(rd_pkt(k.peer, id));
  MC_CHECK(i1 != i2, "two outstanding calls share the index %u", i1);
  int sw = mc_choose(2, "order");
  if (sw) { wr(k.peer, resp(i2, 0, 22)); wr(k.peer, resp(i1, 0, 11)); } else { wr(k.peer, resp(i1, 0, 11)); wr(k.peer, resp(i2, 0, 22)); }
  int a = f1.get().as<int>(), b = f2.get().as<int>();
  MC_CHECK(a == 11 && b == 22, "answers %d %d", a, b); k.c->stop();
}
MC_SCENARIO(nr_err, "an error answer becomes an exception, a duplicate answer is harmless") {
  Client k;
  auto f1 = k.conn->async_call("f", 1); int id; uint32_t i1 = be32(rd_pkt(k.peer, id));
  int err = mc_choose(2, "err"); wr(k.peer, resp(i1, err ? 7 : 0, 11));
  if (mc_choose(2, "dup")) wr(k.peer, resp(i1, 0, 12));
  bool ex = false; int v = 0; try { v = f1.get().as<int>(); } catch (const std::logic_error &) { ex = true; }
  MC_CHECK(err ? ex : !ex && v == 11, "wrong outcome"); mc_quiesce(0); k.c->stop();
}
MC_SCENARIO(nr_close, "the peer closes with a call outstanding: the future completes with an error") {
  Client k;
  auto f1 = k.conn->async_call("f", 1); int id; (void)rd_pkt(k.peer, id); ::close(k.peer);
  bool ex = false; try { f1.get(); } catch (const std::exception &) { ex = true; }
  MC_CHECK(ex, "a call on a closed connection returned a value"); k.c->stop();
}
MC_SCENARIO(nr_serve, "listener with a bound function answers a request with the index of the request") {
  Server k; { Quiet q; k.s->bind("add", [](int a, int b) { return a + b; }); }
  int c = cli_connect(6000);
  auto req = [](uint32_t idx, int a, int b) { Quiet q; auto p = std::make_shared<packet::Basic>(); p->set_id(packet::kRpcRequestId); p->set_writeable(true); *p << idx; *p << std::string_view("add"); rpc::Packer pk; auto t = std::make_tuple(a, b); pk.process(t); *p << pk.vector(); p->set_writeable(false); return enc(p); };
  wr(c, req(5, 1, 2)); wr(c, req(9, 10, 20));
  for (int i = 0; i < 2; ++i) {
    int id; std::string r = rd_pkt(c, id); MC_CHECK(id == (int)packet::kRpcResponseId && r.size() > 8, "response id %d", id);
    rpc::Unpacker u((const uint8_t *)r.data() + 8, r.size() - 8);
    MC_CHECK(be32(r) == (i ? 9u : 5u), "response %d has index %u", i, be32(r)); int v = u.as<int>(); MC_CHECK(v == (i ? 30 : 3), "value %d", v);
  }
  k.s->stop();
}

// ---- bounded send buffers: partial sends, EAGAIN
MC_SCENARIO(nc_sendbuf, "the socket takes only a few bytes at a time: the peer still gets every byte once and in order") {
  Client k; vnet_send_cap(mc_choose(2, "cap") ? 5 : 9);
  auto p1 = pkt(10, "abc"), p2 = pkt(11, "defgh");
  std::thread t([&] { MC_CHECK(k.conn->send(p1), "send failed"); MC_CHECK(k.conn->send(p2), "send failed"); });
  std::string want = enc(p1) + enc(p2), got = rd_n(k.peer, want.size());
  MC_CHECK(got == want, "peer received %zu of %zu bytes or altered bytes", got.size(), want.size());
  t.join(); vnet_send_cap(0); k.c->stop();
}
// ---- the select manager
MC_SCENARIO(nc_sel_send, "select: two sends reach the peer in order") {
  Client k({}, Mode::Select);
  auto p1 = pkt(10, "abc"), p2 = pkt(11, "defgh");
  MC_CHECK(k.conn->send(p1), "send failed"); MC_CHECK(k.conn->send(p2), "send failed");
  std::string want = enc(p1) + enc(p2), got = rd_n(k.peer, want.size());
  MC_CHECK(got == want, "peer received %zu of %zu bytes or altered bytes", got.size(), want.size());
  k.c->stop();
}
MC_SCENARIO(nc_sel_recv, "select: peer sends two packets and closes: both are dispatched, then the disconnect reported") {
  Client k(logger(), Mode::Select);
  k.c->set_disconnect_callback([](connection::Basic *) { mc_log(-1); mc_cnt_add(C_MISC, 1); });
  wr(k.peer, enc(lp(10))); wr(k.peer, enc(lp(11))); ::close(k.peer);
  wait_cnt(C_MISC, 1, "the disconnect callback"); k.c->stop(); expect_log({10, 11, -1});
}
MC_SCENARIO(ns_sel_echo, "select: listener echoes one client's packets, a second client after the first closed") {
  Server k(echo(), 4, {}, Mode::Select); int c = cli_connect(6000);
  wr(c, enc(lp(10))); MC_CHECK(rd_n(c, enc(lp(10)).size()) == enc(lp(10)), "echo altered");
  ::close(c); int b = cli_connect(6000); wr(b, enc(lp(12)));
  MC_CHECK(rd_n(b, enc(lp(12)).size()) == enc(lp(12)), "echo altered"); k.s->stop(); MC_CHECK(at_eof(b), "extra bytes");
}
MC_SCENARIO(ns_sel_two, "select: two clients, each gets its own echo") {
  Server k(echo(), 4, {}, Mode::Select); int a = cli_connect(6000), b = cli_connect(6000);
  wr(a, enc(lp(10))); wr(b, enc(lp(12)));
  MC_CHECK(rd_n(a, enc(lp(10)).size()) == enc(lp(10)), "client a got wrong bytes"); MC_CHECK(rd_n(b, enc(lp(12)).size()) == enc(lp(12)), "client b got wrong bytes");
  k.s->stop();
}
MC_SCENARIO(nc_sel_stop, "select: start and stop without a connection: stop returns") { setup(); Connector c(setting(Mode::Select)); MC_CHECK(c.start(), "start"); c.stop(); MC_CHECK(!c.running(), "running after stop"); }
// ---- aborted connections
static void rst_server(Mode m) {
  Server k(echo(), 4, {}, m); int a = cli_connect(6000), b = cli_connect(6000); wait_cnt(C_MISC, 2, "both accepted");
  vnet_reset_peer(a); wr(b, enc(lp(12)));
  MC_CHECK(rd_n(b, enc(lp(12)).size()) == enc(lp(12)), "client b got wrong bytes"); wait_cnt(C_MISC + 1, 1, "the disconnect callback");
  int c = cli_connect(6000); wr(c, enc(lp(10))); MC_CHECK(rd_n(c, enc(lp(10)).size()) == enc(lp(10)), "client c got wrong bytes");
  int n = mc_cnt(C_MISC + 1); MC_CHECK(n == 1, "%d disconnects reported for one aborted connection", n);
  k.s->stop(); MC_CHECK(mc_cnt(C_MISC) == 3, "connect callback %d times", (int)mc_cnt(C_MISC));
}
MC_SCENARIO(ns_rst, "a client aborts (RST): it is reported once, the others are served, new ones accepted") { rst_server(Mode::Epoll); }
MC_SCENARIO(ns_sel_rst, "select: a client aborts (RST): it is reported once, the others are served, new ones accepted") { rst_server(Mode::Select); }
// ---- more of the lifecycle
MC_SCENARIO(nk_reconnect, "a kept-alive connection is reconnected after the peer closed: it sends and receives again") {
  Client k(logger());
  k.c->set_disconnect_callback([](connection::Basic *) { mc_cnt_add(C_MISC, 1); });
  k.c->set_keep_alive(k.conn, true);
  int early = mc_choose(2, "packet before the close"); if (early) wr(k.peer, enc(lp(10)));
  int rst = mc_choose(2, "abort"); if (rst) vnet_reset_peer(k.peer); else ::close(k.peer);
  wait_cnt(C_MISC, 1, "the disconnect callback");
  k.conn->send(lp(16));                        // while disconnected: may be lost
  int base = mc_cnt(C_DONE);
  mc_quiesce(0);
  MC_CHECK(k.c->connect(k.conn, 1000ms, "127.0.0.1:5000"), "reconnect failed");
  int p = ::accept(k.l, nullptr, nullptr);
  wr(p, enc(lp(11))); wait_cnt(C_DONE, base + 1, "the packet sent after the reconnect to be dispatched");
  auto q = lp(12); MC_CHECK(k.conn->send(q), "send failed");
  std::string a = enc(q), b = enc(lp(16)) + a, got = rd_n(p, a.size()); if (got != a) got += rd_n(p, b.size() - got.size());
  MC_CHECK(got == a || got == b, "peer received other bytes after the reconnect");
  k.c->stop();
}
MC_SCENARIO(ns_reuse, "per-connection settings end with the connection: the next client on the slot starts fresh") {
  Server k(logger(), 1);
  k.s->set_connect_callback([](connection::Basic *c) {
    if (mc_cnt_add(C_MISC, 1) == 1) { c->set_name("first"); c->set_dispatcher([](connection::Basic *, Pkt p) { mc_log(1000 + p->id()); mc_cnt_add(C_DONE, 1); return true; });
      c->set_disconnect_callback([](connection::Basic *) { mc_log(-7); }); c->set_call_timeout(1ms); }
    else MC_CHECK(c->name() != "first", "the name of an earlier connection is kept");
  });
  int a = cli_connect(6000); wr(a, enc(lp(10))); wait_cnt(C_DONE, 1, "the first client's packet"); ::close(a);
  wait_cnt(C_MISC + 1, 1, "the disconnect callback");
  int b = cli_connect(6000); wr(b, enc(lp(12))); wait_cnt(C_DONE, 2, "the second client's packet"); ::close(b);
  wait_cnt(C_MISC + 1, 2, "the disconnect callback"); k.s->stop(); expect_log({1010, -7, 12});
}
MC_SCENARIO(ns_bad_then_good, "61 clients leave in the middle of a header; the next client on their slot is served normally") {
  Server k(logger(), 1);
  for (int i = 0; i < 61; ++i) { int a = cli_connect(6000); wr(a, std::string("\0\xA", 2)); ::close(a); wait_cnt(C_MISC + 1, i + 1, "the disconnect callback"); }
  int b = cli_connect(6000); wr(b, enc(lp(12))); wait_cnt(C_DONE, 1, "the second client's packet"); k.s->stop(); expect_log({12});
}
MC_SCENARIO(ns_drop, "a dispatcher that refuses a packet ends that connection once, the other client is unaffected") {
  Server k([](connection::Basic *c, Pkt p) { if (p->id() == 66) return false; MC_CHECK(p->id() != 67, "a packet of a refused connection was dispatched"); c->send(p); return true; });
  int a = cli_connect(6000), b = cli_connect(6000);
  wr(a, enc(lp(66)) + enc(lp(67))); wr(b, enc(lp(12)));
  MC_CHECK(rd_n(b, enc(lp(12)).size()) == enc(lp(12)), "client b got wrong bytes"); MC_CHECK(at_eof(a), "refused connection gets data");
  wait_cnt(C_MISC + 1, 1, "the disconnect callback"); MC_CHECK(mc_cnt(C_MISC + 1) == 1, "%d disconnects", (int)mc_cnt(C_MISC + 1)); k.s->stop();
}
MC_SCENARIO(ns_bcast_race, "broadcast while one client leaves: the other one gets the packet exactly once") {
  Server k; int a = cli_connect(6000), b = cli_connect(6000); wait_cnt(C_MISC, 2, "both accepted");
  std::thread t([&] { ::close(a); });
  auto p = lp(10); k.s->broadcast(p); t.join();
  MC_CHECK(rd_n(b, enc(p).size()) == enc(p), "broadcast altered"); k.s->stop(); MC_CHECK(at_eof(b), "extra bytes");
}
MC_SCENARIO(ns_counters, "the manager's byte counters equal what went over the wire, names are the last ones set") {
  Server k([](connection::Basic *c, Pkt p) { c->send(p); return true; }); 
  k.s->set_connect_callback([](connection::Basic *c) { c->set_name("x"); c->set_name("y"); MC_CHECK(c->name() == "y", "name is %s", c->name().c_str()); });
  int a = cli_connect(6000); std::string w = enc(lp(10)) + enc(lp(11)); wr(a, w); rd_n(a, w.size()); mc_quiesce(0);
  MC_CHECK(k.s->recv_size() == w.size(), "recv_size %d of %zu", (int)k.s->recv_size(), w.size()); MC_CHECK(k.s->send_size() == w.size(), "send_size %d of %zu", (int)k.s->send_size(), w.size());
  k.s->stop();
}
// ---- more rpc
template <class F> static int outcome(F &f) { try { return f.get().template as<int>(); } catch (const std::exception &) { return -1; } }
MC_SCENARIO(nr_stop, "stop with a call outstanding: the future completes with an error") {
  Client k; auto f = k.conn->async_call("f", 1); if (mc_choose(2, "sent")) { int id; (void)rd_pkt(k.peer, id); }
  k.c->stop(); MC_CHECK(outcome(f) == -1, "value without an answer");
}
MC_SCENARIO(nr_stop_race, "a call races with stop: it completes with an error, no crash") {
  Client k; std::thread t([&] { auto f = k.conn->async_call("f", 1); MC_CHECK(outcome(f) == -1, "value without an answer"); });
  k.c->stop(); t.join();
}
MC_SCENARIO(nr_close_race, "a call races with the peer's close: it completes with an error") {
  Client k; std::thread t([&] { ::close(k.peer); });
  auto f = k.conn->async_call("f", 1); MC_CHECK(outcome(f) == -1, "value without an answer"); t.join(); k.c->stop();
}
MC_SCENARIO(nr_answer_close, "the peer answers and closes at once: the call completes with the answer") {
  Client k; auto f = k.conn->async_call("f", 1); int id; uint32_t i = be32(rd_pkt(k.peer, id)); wr(k.peer, resp(i, 0, 42)); ::close(k.peer);
  MC_CHECK(outcome(f) == 42, "the answer sent before the close is lost"); k.c->stop();
}
MC_SCENARIO(nr_threads, "two threads call on one connection: each gets its own answer") {
  Client k; auto one = [&](int v) { auto f = k.conn->async_call("f", v); int r = outcome(f); MC_CHECK(r == v * 11, "call f(%d) got the answer %d", v, r); };
  std::thread t([&] { one(1); }), u([&] { one(2); });
  int id; std::string a = rd_pkt(k.peer, id), b = rd_pkt(k.peer, id); MC_CHECK(be32(a) != be32(b), "shared index %u", be32(a));
  auto ans = [&](const std::string &s) { wr(k.peer, resp(be32(s), 0, 11 * (uint8_t)s.back())); };
  ans(b); ans(a); t.join(); u.join(); k.c->stop();
}
MC_SCENARIO(nr_timeout, "a call that is not answered in time throws; its late answer does not disturb a later call") {
  Client k; k.conn->set_call_timeout(50ms); bool ex = false;
  try { k.conn->call("f", 1); } catch (const std::logic_error &) { ex = true; } MC_CHECK(ex, "no timeout");
  k.conn->clear_call_timeout();
  int id; uint32_t i1 = be32(rd_pkt(k.peer, id)); auto f = k.conn->async_call("f", 2); uint32_t i2 = be32(rd_pkt(k.peer, id));
  MC_CHECK(i1 != i2, "shared index"); wr(k.peer, resp(i1, 0, 11)); wr(k.peer, resp(i2, 0, 22)); int r = outcome(f); MC_CHECK(r == 22, "second call got %d", r); k.c->stop();
}
MC_SCENARIO(nr_serve_err, "unknown function: an error answer with the request's index; a notify gets no answer") {
  Server k; { Quiet q; k.s->bind("note", [](int v) { mc_log(v); mc_cnt_add(C_DONE, 1); }); }
  int c = cli_connect(6000);
  auto req = [](bool notify, uint32_t idx, const char *n, int a) { Quiet q; auto p = std::make_shared<packet::Basic>(); p->set_id(notify ? packet::kRpcNotifyId : packet::kRpcRequestId); p->set_writeable(true); if (!notify) *p << idx; *p << std::string_view(n); rpc::Packer pk; auto t = std::make_tuple(a); pk.process(t); *p << pk.vector(); p->set_writeable(false); return enc(p); };
  wr(c, req(true, 0, "note", 3)); wr(c, req(false, 8, "nope", 1)); wr(c, req(false, 9, "note", 4));
  int id; std::string r = rd_pkt(c, id); MC_CHECK(id == (int)packet::kRpcResponseId && r.size() >= 8 && be32(r) == 8, "unexpected first response %u", r.size() >= 4 ? be32(r) : 0); MC_CHECK(be32(r.substr(4)) != 0, "unknown function reported as success");
  r = rd_pkt(c, id); MC_CHECK(r.size() >= 8 && be32(r) == 9 && be32(r.substr(4)) == 0, "unexpected second response"); k.s->stop(); expect_log({3, 4});
}

// ---- a signal interrupts the wait of the worker
static void eintr_server(Mode m) {
  Server k(echo(), 4, {}, m); vnet_eintr(mc_choose(3, "interrupted waits")); int c = cli_connect(6000);
  wr(c, enc(lp(10))); MC_CHECK(rd_n(c, enc(lp(10)).size()) == enc(lp(10)), "echo altered"); k.s->stop();
}
MC_SCENARIO(ns_eintr, "a signal interrupts epoll_wait: the listener keeps serving") { eintr_server(Mode::Epoll); }
MC_SCENARIO(ns_sel_eintr, "a signal interrupts select: the listener keeps serving") { eintr_server(Mode::Select); }
MC_SCENARIO(nc_callbacks, "two connectors connect at the same time with callbacks of their own: each callback runs once, for its connection") {
  setup(); srv_listen(5000);
  std::unique_ptr<Connector> a, b; { Quiet q; auto s = setting(); a = std::make_unique<Connector>(s); s.name = "u"; b = std::make_unique<Connector>(s); }
  MC_CHECK(a->start() && b->start(), "start");
  auto go = [](Connector &c, int i) { auto k = c.connect("127.0.0.1:5000", [i](connection::Basic *p) { p->set_connect_callback([i, p](connection::Basic *q) { MC_CHECK(p == q, "callback of another connection"); mc_cnt_add(C_MISC + i, 1); }); return true; }); MC_CHECK(k && k->valid(), "connect"); };
  std::thread t([&] { go(*a, 0); }); go(*b, 1); t.join();
  MC_CHECK(mc_cnt(C_MISC) == 1 && mc_cnt(C_MISC + 1) == 1, "connect callbacks ran %d and %d times", (int)mc_cnt(C_MISC), (int)mc_cnt(C_MISC + 1));
  a->stop(); b->stop();
}
// ---- stop
MC_SCENARIO(ns_stop_clients, "listener stops with two clients, one sending: nothing is dispatched afterwards, both see the end") {
  Server k(logger()); int a = cli_connect(6000), b = cli_connect(6000); wait_cnt(C_MISC, 2, "both accepted");
  std::thread t([&] { wr(a, enc(lp(10))); });
  k.s->stop(); int n = mc_log_size(); t.join(); mc_quiesce(1);
  MC_CHECK(mc_log_size() == n, "a packet was dispatched after stop() returned"); MC_CHECK(at_eof(a) && at_eof(b), "extra bytes");
  MC_CHECK(!k.s->running(), "running after stop"); k.s->stop();
}
MC_SCENARIO(ns_stop_accept, "listener stops while a client connects: stop returns, the client sees the end, nothing leaks") {
  int c = -1;
  { Server k(echo()); 
    std::thread t([&] { c = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(6000); if (::connect(c, (sockaddr *)&a, sizeof a)) { ::close(c); c = -1; } });
    k.s->stop(); t.join(); }
  if (c >= 0) { MC_CHECK(at_eof(c), "extra bytes"); ::close(c); }
  MC_CHECK(vnet_open_fds() == 0, "%d descriptors open after the listener is gone", vnet_open_fds());
}
MC_SCENARIO(ns_destroy, "listener destroyed with a client connected and sending, without stop: it stops itself, nothing leaks") {
  int c; { Server k(echo()); c = cli_connect(6000); wr(c, enc(lp(10))); if (mc_choose(2, "wait")) rd_n(c, 3); }
  rd_n(c, 1000); ::close(c); MC_CHECK(vnet_open_fds() == 0, "%d descriptors open after the listener is gone", vnet_open_fds());
}
MC_SCENARIO(nc_destroy, "connector destroyed with a connection, without stop: it stops itself, nothing leaks") {
  int l, peer; { Client k; l = k.l; peer = k.peer; k.conn->send(lp(10)); k.conn = nullptr; }
  rd_n(peer, 1000); ::close(peer); ::close(l); MC_CHECK(vnet_open_fds() == 0, "%d descriptors open after the connector is gone", vnet_open_fds());
}
MC_SCENARIO(ns_stop2, "two threads stop the listener: both return") {
  Server k(echo()); int a = cli_connect(6000); std::thread t([&] { k.s->stop(); }); k.s->stop(); t.join(); MC_CHECK(!k.s->running(), "running after stop"); (void)a;
}
