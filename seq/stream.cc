#include "seq.h"
#include "vsock.h"
#include "plain/all.h"
#include "plain/basic/ring.h"
#include "plain/net/stream/basic.h"
#include "plain/net/stream/codec.h"
#include "plain/net/packet/basic.h"
#include "plain/net/socket/basic.h"
using namespace plain;
using namespace plain::net;
using S = std::string;

// ------------------------------------------------------------------ ring
template <class R, bool GROWS> static void ring_program(int depth, std::vector<int> ws) {
  R r; S model; unsigned char next = 1; size_t cap = r.size();
  auto verify = [&](const char *op) {
    SEQ_CHECK(r.read_avail() == model.size(), "ring holds %zu elements after %s, %zu were put in and not taken out", r.read_avail(), op, model.size());
    SEQ_CHECK(r.empty() == model.empty(), "empty() is wrong after %s", op);
    SEQ_CHECK(r.write_avail() + r.read_avail() == r.size(), "free and used space do not add up after %s", op);
    SEQ_CHECK(r.full() == (r.write_avail() == 0), "full() is wrong after %s", op);
    for (size_t i = 0; i < model.size(); ++i) {
      auto p = r.at(i);
      SEQ_CHECK(p && *p == (unsigned char)model[i], "element %zu is %d after %s, expected %d (contents %s)", i, p ? *p : -1, op, (unsigned char)model[i], seq::hex(model).c_str());
      SEQ_CHECK(r[i] == (unsigned char)model[i], "operator[] %zu wrong after %s", i, op);
    }
    SEQ_CHECK(r.at(model.size()) == nullptr, "at() past the end is not null after %s", op);
    if (!model.empty()) { auto p = r.peek(model.size()); SEQ_CHECK(p && *p == (unsigned char)model[0], "peek() wrong after %s", op); }
    SEQ_CHECK(r.peek(model.size() + 1) == nullptr, "peek() of more than available is not null after %s", op);
  };
  for (int d = 0; d < depth; ++d) {
    int nops = (int)ws.size() + 10;
    int op = seq::choose(nops, "op");
    seq::step();
    unsigned char buf[64];
    if (op < (int)ws.size()) {
      size_t n = ws[op]; S v; for (size_t i = 0; i < n; ++i) v += next++;
      size_t w = r.write((const unsigned char *)v.data(), n);
      size_t want = GROWS ? n : std::min(n, cap - model.size());
      seq::note("write %zu", n);
      SEQ_CHECK(w == want, "write of %zu elements took %zu, expected %zu", n, w, want);
      model += v.substr(0, w); verify("write");
    } else switch (op - ws.size()) {
      case 0: case 1: {
        size_t n = op - ws.size() ? 5 : 2; S v; for (size_t i = 0; i < n; ++i) v += next++;
        size_t w = r.write((const unsigned char *)v.data(), n, true);
        size_t want = GROWS ? n : (cap - model.size() >= n ? n : 0);
        seq::note("write-full %zu", n);
        SEQ_CHECK(w == want, "all-or-nothing write of %zu took %zu, expected %zu", n, w, want);
        model += v.substr(0, w); verify("write-full"); break;
      }
      case 2: case 3: case 4: {
        size_t n = op - ws.size() == 2 ? 1 : op - ws.size() == 3 ? 3 : 40;
        size_t g = r.read(buf, n), want = std::min(n, model.size());
        seq::note("read %zu", n);
        SEQ_CHECK(g == want && !memcmp(buf, model.data(), g), "read of %zu gave %zu elements %s, expected %s", n, g, seq::hex({(char *)buf, g}).c_str(), seq::hex(model.substr(0, want)).c_str());
        model.erase(0, g); verify("read"); break;
      }
      case 5: {
        size_t g = r.read(buf, 3, true), want = std::min<size_t>(3, model.size());
        seq::note("read-only 3");
        SEQ_CHECK(g == want && !memcmp(buf, model.data(), g), "read-only read wrong"); verify("read-only read"); break;
      }
      case 6: { size_t n = 2, g = r.remove(n); seq::note("remove 2"); SEQ_CHECK(g == std::min(n, model.size()), "remove(2) removed %zu of %zu", g, model.size()); model.erase(0, g); verify("remove"); break; }
      case 7: { unsigned char v = next++; bool ok = r.insert(v); seq::note("insert"); SEQ_CHECK(ok == (GROWS || model.size() < cap), "insert returned %d with %zu of %zu used", ok, model.size(), cap); if (ok) model += v; verify("insert"); break; }
      case 8: { unsigned char v = 0; bool ok = r.remove(v); seq::note("remove one"); SEQ_CHECK(ok == !model.empty(), "remove(value) returned %d on %zu elements", ok, model.size()); if (ok) { SEQ_CHECK(v == (unsigned char)model[0], "remove(value) gave %d, expected %d", v, (unsigned char)model[0]); model.erase(0, 1); } verify("remove one"); break; }
      case 9: { seq::note("clear"); r.consumer_clear(); model.clear(); verify("clear"); break; }
    }
    seq::state(seq::hash(model, r.size()));
  }
}
SEQ_SCENARIO(ring_fixed, "all operation sequences on a fixed ring of 4 against a FIFO") { ring_program<FixedRing<unsigned char, 4>, false>(seq::thorough() ? 7 : 5, {1, 3, 6}); }
SEQ_SCENARIO(ring_dynamic, "all operation sequences on a growing ring of 4 against a FIFO") { ring_program<DynamicRing<unsigned char, 4>, true>(seq::thorough() ? 7 : 5, {1, 3, 6, 17}); }

// ------------------------------------------------------------------ stream: buffer + socket
static S pattern(size_t n, int &c) { S s; for (size_t i = 0; i < n; ++i) s += (char)(c = (c * 37 + 11) & 0xff); return s; }
SEQ_SCENARIO(stream_buffer, "all sequences of stream writes, reads, peeks and removes around the growth boundaries") {
  stream::Basic st{nullptr};
  S model; int c = 1;
  const size_t W[] = {1, 40, 100, 128, 300}, R[] = {1, 60, 200, 1000};
  int depth = seq::thorough() ? 6 : 5;
  for (int d = 0; d < depth; ++d) {
    int op = seq::choose(12, "op"); seq::step();
    if (op < 5) { S v = pattern(W[op], c); seq::note("write %zu", v.size()); size_t w = op & 1 ? st.write(v) : st.write(as_const_bytes(v)); SEQ_CHECK(w == v.size(), "write of %zu bytes took %zu", v.size(), w); model += v; }
    else if (op < 9) { S b(R[op - 5], 'x'); seq::note("read %zu", b.size()); size_t g = st.read(b); size_t want = std::min(b.size(), model.size()); SEQ_CHECK(g == want && b.substr(0, g) == model.substr(0, g), "read of %zu gave %zu bytes, not the next %zu in order", b.size(), g, want); model.erase(0, g); }
    else if (op == 9) { S b(70, 'x'); size_t g = st.peek((std::byte *)b.data(), b.size()); seq::note("peek 70"); SEQ_CHECK(g == std::min<size_t>(70, model.size()) && b.substr(0, g) == model.substr(0, g), "peek shows other bytes than the next ones"); }
    else if (op == 10) { size_t g = st.remove(50); seq::note("remove 50"); SEQ_CHECK(g == std::min<size_t>(50, model.size()), "remove count"); model.erase(0, g); }
    else { st.clear(); seq::note("clear"); model.clear(); }
    SEQ_CHECK(st.size() == model.size() && st.empty() == model.empty(), "stream holds %zu bytes, expected %zu", st.size(), model.size());
    S all(model.size(), 0); SEQ_CHECK(st.peek((std::byte *)all.data(), all.size()) == model.size() && all == model, "stream contents differ from what was written and not yet read");
    seq::state(seq::hash(model));
  }
}
SEQ_SCENARIO(stream_pull, "socket -> stream under every short read, would-block, reset and wrong FIONREAD: nothing lost, doubled or reordered") {
  vs::Sock s; vs::s = &s;
  { auto sock = std::make_shared<socket::Basic>(vs::FD); stream::Basic st{sock};
    S sent, got; int c = 3;
    s.faults = seq::thorough() ? 3 : 2; s.avail_mode = seq::choose(3, "FIONREAD");
    const size_t L[] = {1, 16, 130, 21000};
    int n = seq::thorough() ? 5 : 4;
    for (int d = 0; d < n; ++d) {
      int op = seq::choose(6, "event"); seq::step();
      if (op < 4) { if (s.eof) seq::skip(); S v = pattern(L[op], c); seq::note("peer sends %zu", v.size()); sent += v; s.in += v; }
      else if (op == 4) { if (s.eof) seq::skip(); s.eof = true; seq::note("peer closes"); }
      else { S b(77, 0); size_t g = st.read(b); seq::note("read %zu", g); got += b.substr(0, g); }
      if (op < 5) { bool waiting = !s.in.empty(); size_t before = st.size(), inb = s.in.size(); int r = st.pull();
        seq::note("pull=%d", r);
        size_t moved = inb - s.in.size();
        SEQ_CHECK(r > 0 ? (size_t)r == moved : moved == 0, "pull returned %d but took %zu bytes from the socket", r, moved);
        SEQ_CHECK(st.size() == before + moved, "pull took %zu bytes from the socket, the stream grew by %zu", moved, st.size() - before);
        if (s.reset) SEQ_CHECK(r < 0 || r > 0, "a reset connection is not reported by pull (returned %d)", r);
        if (!s.reset && !waiting && s.eof && s.faults == (seq::thorough() ? 3 : 2)) SEQ_CHECK(r < 0, "end of stream is not reported by pull (returned %d)", r);
      }
    }
    // drain: the rest arrives
    for (int k = 0; k < 40000 && !s.in.empty() && !s.reset; ++k) { s.faults = 0; int r = st.pull(); if (r <= 0) seq::fail("pull returned %d with %zu bytes waiting", r, s.in.size()); }
    S rest(st.size(), 0); st.read(rest); got += rest;
    SEQ_CHECK(got == (s.reset ? sent.substr(0, got.size()) : sent), "bytes read from the stream differ from the bytes received: %zu of %zu", got.size(), sent.size());
    s.faults = 0; if (!s.reset) { s.eof = true; int r = st.pull(); SEQ_CHECK(r < 0, "end of stream is not reported by pull (returned %d)", r); }
    seq::state(seq::hash(got, s.eof * 2 + s.reset));
  }
  vs::s = nullptr;
}
SEQ_SCENARIO(stream_push, "stream -> socket under every short write, would-block and reset: the wire carries exactly the written bytes in order") {
  vs::Sock s; vs::s = &s;
  { auto sock = std::make_shared<socket::Basic>(vs::FD); stream::Basic st{sock};
    S written; int c = 5; const int F = seq::thorough() ? 4 : 3;
    s.faults = F;
    const size_t L[] = {1, 90, 129, 2000};
    int n = seq::thorough() ? 5 : 4;
    for (int d = 0; d < n; ++d) {
      int op = seq::choose(5, "op"); seq::step();
      if (op < 4) { S v = pattern(L[op], c); seq::note("write %zu", v.size()); st.write(v); written += v; }
      else {
        size_t before = s.out.size(); int r = st.push(); seq::note("push=%d", r);
        size_t sent = s.out.size() - before;
        if (r >= 0) SEQ_CHECK((size_t)r == sent, "push returned %d, the socket accepted %zu bytes", r, sent);
        else SEQ_CHECK(s.reset, "push reports an error (%d) on a healthy connection", r);
      }
      SEQ_CHECK(s.out == written.substr(0, s.out.size()), "the wire carries other bytes than were written (after %zu)", s.out.size());
      SEQ_CHECK(st.size() == written.size() - s.out.size(), "%zu bytes written, %zu on the wire, but %zu pending", written.size(), s.out.size(), st.size());
    }
    if (!s.reset) {
      s.faults = 0;
      for (int k = 0; k < 50 && !st.empty(); ++k) st.push();
      SEQ_CHECK(s.out == written, "after pushing until empty the wire carries %zu bytes of %zu (or other ones)", s.out.size(), written.size());
    } else { s.faults = 0; int r = st.push(); if (!st.empty()) SEQ_CHECK(r < 0, "push to a reset connection returned %d", r); }
    seq::state(seq::hash(written, s.out.size()));
  }
  vs::s = nullptr;
}

// ------------------------------------------------------------------ codecs
struct Dec {
  error_or_t<std::shared_ptr<packet::Basic>> v;
  explicit operator bool() const { return v.index() == 0; }
  bool operator!() const { return v.index() != 0; }
  auto &value() { return std::get<0>(v); }
  struct E { ErrorCode c; ErrorCode code() const { return c; } };
  E error() const { return {(ErrorCode)std::get<1>(v).code()}; }
};
static std::shared_ptr<packet::Basic> mk(int id, std::string_view d) {
  auto p = std::make_shared<packet::Basic>(); p->set_id(id); p->set_writeable(true);
  p->write((const std::byte *)d.data(), d.size()); p->set_writeable(false); p->set_readable(true); return p;
}
static S str(const_byte_span_t d) { return S((const char *)d.data(), d.size()); }
static S str(const bytes_t &d) { return S((const char *)d.data(), d.size()); }
static packet::limit_t lim(uint32_t id, uint32_t len) { packet::limit_t l; l.max_id = id; l.max_length = len; return l; }

SEQ_SCENARIO(codec_framing, "default codec: any packet sequence, cut into any pieces, decodes to the same packets; incomplete input consumes nothing") {
  const int IDS[] = {1, 0x1234, 0xfffe, 0xfffd, 0xfffc}; const size_t LEN[] = {0, 1, 7, 130};
  int np = seq::thorough() ? 3 : 2; S wire; std::vector<std::pair<int, S>> sent; int c = 9;
  for (int i = 0; i < np; ++i) {
    int id = IDS[seq::choose(5, "id")]; S d = pattern(LEN[seq::choose(4, "len")], c);
    auto e = stream::encode(mk(id, d)); wire += str(e); sent.push_back({id, d});
    SEQ_CHECK(e.size() == d.size() + 6, "frame of a %zu byte packet has %zu bytes", d.size(), e.size());
    seq::note("packet id=%d len=%zu", id, d.size());
  }
  auto l = lim(0xffff, 130);
  stream::Basic st{nullptr};
  // misalign the ring first: the framing must not depend on where in the buffer a frame starts
  int skew = seq::choose(4, "skew") * 41; { S x(skew, 'z'); st.write(x); S y(1, 'q'); st.write(y); st.remove(skew); }
  bool started = false; size_t pos = 0, k = 0;
  // cut positions: two cuts anywhere
  size_t cut1 = seq::choose((int)wire.size() + 1, "cut1");
  size_t cut2 = seq::thorough() && wire.size() < 40 ? cut1 + seq::choose((int)(wire.size() - cut1) + 1, "cut2") : wire.size();
  st.remove(1);
  size_t cuts[] = {cut1, cut2, wire.size()};
  for (size_t upto : cuts) {
    st.write(std::string_view(wire).substr(pos, upto - pos)); pos = upto; seq::step();
    for (;;) {
      size_t before = st.size();
      Dec r{stream::decode(&st, l)}; seq::step();
      // where do complete frames end?
      size_t end = 0; for (size_t i = 0; i <= k && i < sent.size(); ++i) end += 6 + sent[i].second.size();
      bool complete = k < sent.size() && end <= pos;
      if (!r) {
        SEQ_CHECK(!complete, "packet %zu is complete but was not decoded", k);
        auto ec = r.error().code();
        SEQ_CHECK(ec == ErrorCode::NetPacketNeedRecv || ec == ErrorCode::NetPacketCantFill, "an incomplete packet is reported as error %d", (int)ec);
        SEQ_CHECK(st.size() == before, "decoding an incomplete packet consumed %zu bytes", before - st.size());
        break;
      }
      SEQ_CHECK(complete, "a packet was decoded from incomplete input");
      auto &p = *r.value(); auto &[id, d] = sent[k];
      SEQ_CHECK(p.id() == id, "packet %zu decoded with id %d, was %d", k, p.id(), id);
      SEQ_CHECK(str(p.data()) == d, "packet %zu decoded with other data (%zu bytes, were %zu)", k, p.data().size(), d.size());
      SEQ_CHECK(p.is_call_request() == (id == packet::kRpcRequestId) && p.is_call_response() == (id == packet::kRpcResponseId) && p.is_call_notify() == (id == packet::kRpcNotifyId), "packet %zu decoded with the wrong call kind", k);
      S rd(d.size(), 0); SEQ_CHECK(p.read((std::byte *)rd.data(), rd.size()) == rd.size() && rd == d, "the decoded packet cannot be read back");
      SEQ_CHECK(p.write("x") == 0, "a decoded packet is writeable");
      ++k; (void)started;
    }
  }
  SEQ_CHECK(k == sent.size() && st.empty(), "%zu of %zu packets decoded, %zu bytes left", k, sent.size(), st.size());
  seq::state(seq::hash(wire, cut1));
}
SEQ_SCENARIO(codec_limits, "default codec: ids and lengths outside the limit are refused whatever else arrives, those inside are accepted") {
  int maxid = 1 + seq::choose(3, "maxid") * 5, maxlen = seq::choose(4, "maxlen") * 3;
  int id = seq::choose(13, "id"), len = seq::choose(12, "len");
  S d(len, 'x'); int extra = seq::choose(3, "extra");
  S wire; wire += (char)(id >> 8); wire += (char)id; wire += S("\0\0\0", 3) + (char)len; wire += d + S(extra, 'y');
  size_t have = seq::choose((int)wire.size() + 1, "received");
  seq::note("id=%d/%d len=%d/%d received=%zu", id, maxid, len, maxlen, have);
  stream::Basic st{nullptr}; st.write(std::string_view(wire).substr(0, have));
  Dec r{stream::decode(&st, lim(maxid, maxlen))}; seq::step();
  bool bad = id == 0 || id > maxid || len > maxlen;
  if (have < 6) { SEQ_CHECK(!r && st.size() == have && (r.error().code() == ErrorCode::NetPacketCantFill || r.error().code() == ErrorCode::NetPacketNeedRecv), "a partial header is not reported as incomplete"); }
  else if (bad) { SEQ_CHECK(!r, "a packet with id %d of %d and length %d of %d was accepted", id, maxid, len, maxlen);
    SEQ_CHECK(r.error().code() == ErrorCode::NetPacketInvalid, "a packet outside the limits is reported as error %d, not as invalid", (int)r.error().code()); }
  else if (have < 6u + len) SEQ_CHECK(!r && r.error().code() == ErrorCode::NetPacketNeedRecv && st.size() == have, "an incomplete packet within limits is not reported as incomplete");
  else { SEQ_CHECK(bool(r), "a packet with id %d of %d and length %d of %d was refused", id, maxid, len, maxlen); SEQ_CHECK(r.value()->data().size() == (size_t)len && r.value()->id() == id && st.size() == have - 6 - len, "decoded packet differs"); }
  seq::state(seq::hash(wire, have * 1000 + maxid * 20 + maxlen));
}
SEQ_SCENARIO(codec_hostile, "default codec: every header value over the boundary lengths, no read outside the input, no crash") {
  static const uint32_t LENS[] = {0, 1, 5, 6, 127, 128, 0x7fffffff, 0x80000000u, 0xfffffff9u, 0xfffffffau, 0xfffffffeu, 0xffffffffu};
  uint32_t len = LENS[seq::choose(12, "len")]; static const uint32_t MAXL[] = {0, 5, 204800, 0xffffffffu}; uint32_t ml = MAXL[seq::choose(4, "max")];
  int id = (int[]){0, 1, 0x7fff, 0xffff}[seq::choose(4, "id")]; size_t have = (size_t[]){0, 1, 5, 6, 7, 12, 140}[seq::choose(7, "body")];
  S wire; wire += (char)(id >> 8); wire += (char)id; for (int i = 3; i >= 0; --i) wire += (char)(len >> (8 * i)); wire += S(140, 'b'); wire.resize(have);
  seq::note("id=%d len=%u max=%u received=%zu", id, len, ml, have);
  stream::Basic st{nullptr}; st.write(wire); Dec r{stream::decode(&st, lim(0xffff, ml))}; seq::step();
  if (r) SEQ_CHECK(have >= 6 && len <= ml && id && r.value()->data().size() == len && have >= 6ull + len, "accepted a packet that is not completely there (length %u, %zu bytes received)", len, have);
  else SEQ_CHECK(st.size() == have || have >= 6, "refused input was consumed");
  seq::state(seq::hash(wire, ml));
}
SEQ_SCENARIO(line_framing, "line codec: any sequence of lines, with \\n or \\r\\n, cut anywhere, comes back line by line") {
  static const S LINES[] = {"", "a", "hello", "cr", "\r", "x\ry", S(129, 'w'), S("a\0b", 3)};
  int n = seq::thorough() ? 3 : 2; S wire; std::vector<S> sent;
  for (int i = 0; i < n; ++i) { S l = LINES[seq::choose(8, "line")]; bool crlf = seq::flag("crlf"); wire += l + (crlf ? "\r\n" : "\n");
    if (!crlf && !l.empty() && l.back() == '\r') l.pop_back();
    sent.push_back(l); seq::note("line %zu bytes%s", l.size(), crlf ? " crlf" : ""); }
  auto l = lim(0xffff, 200 + seq::choose(2, "max"));
  stream::Basic st{nullptr};
  int skew = seq::choose(3, "skew") * 60; { S x(skew, 'z'); st.write(x); st.write(S("q")); st.remove(skew); st.remove(0); }
  size_t cut = seq::choose((int)wire.size() + 1, "cut"), pos = 0, k = 0;
  st.remove(1);
  for (size_t upto : {cut, wire.size()}) {
    st.write(std::string_view(wire).substr(pos, upto - pos)); pos = upto;
    for (;;) {
      size_t before = st.size(); Dec r{stream::line_decode(&st, l)}; seq::step();
      size_t nl = std::count(wire.begin(), wire.begin() + pos, '\n');
      if (!r) { SEQ_CHECK(k == nl, "line %zu is complete but was not decoded (error %d)", k, (int)r.error().code()); SEQ_CHECK(r.error().code() == ErrorCode::NetPacketNeedRecv, "an incomplete line is reported as error %d", (int)r.error().code()); SEQ_CHECK(st.size() == before, "an incomplete line was consumed"); break; }
      SEQ_CHECK(k < nl, "a line was decoded before its end arrived");
      SEQ_CHECK(str(r.value()->data()) == sent[k], "line %zu is %s, was %s", k, seq::hex(str(r.value()->data())).c_str(), seq::hex(sent[k]).c_str());
      auto &p = *r.value(); SEQ_CHECK(!p.is_call_request() && !p.is_call_response() && !p.is_call_notify(), "a plain line is taken for a call");
      ++k;
    }
  }
  SEQ_CHECK(k == sent.size() && st.empty(), "%zu of %zu lines decoded", k, sent.size());
  seq::state(seq::hash(wire, cut));
}
SEQ_SCENARIO(line_limit, "line codec: a line longer than the limit is refused, never buffered forever; shorter ones pass") {
  int max = 1 + seq::choose(seq::thorough() ? 64 : 48, "max"); int len = seq::choose(max + 4, "len"); bool nl = seq::flag("newline"); int extra = seq::choose(3, "extra") * 20;
  S wire = S(len, 'x') + (nl ? "\n" : "") ; if (nl) wire += S(extra, 'y'); else if (extra) seq::skip();
  stream::Basic st{nullptr}; st.write(wire); Dec r{stream::line_decode(&st, lim(0xffff, max))}; seq::step();
  seq::note("max=%d len=%d newline=%d", max, len, nl);
  if (nl && len + 1 <= max) SEQ_CHECK(bool(r) && str(r.value()->data()) == S(len, 'x'), "a line of %d bytes was refused with a limit of %d", len, max);
  else if (len >= max && !(nl && len + 1 <= max)) SEQ_CHECK(!r && r.error().code() != ErrorCode::NetPacketNeedRecv, "a line of %d bytes is not refused with a limit of %d (%s)", len, max, r ? "accepted" : "asks for more");
  else if (!nl) SEQ_CHECK(!r && r.error().code() == ErrorCode::NetPacketNeedRecv, "an incomplete line within the limit is not waited for");
  seq::state(max * 1000 + len * 10 + nl + extra * 100000);
}
SEQ_SCENARIO(line_encode_rt, "line codec: every kind of packet without a line feed in it survives encode/decode with its kind") {
  int kind = seq::choose(4, "kind"); int len = seq::choose(seq::thorough() ? 12 : 9, "len");
  S d; static const char AL[] = {'c', 'r', 'o', 'n', 'a', '\r', 0}; for (int i = 0; i < len; ++i) d += i < 2 || i >= len - 2 ? AL[seq::choose(7, "byte")] : 'm';
  auto p = mk(1, d); if (kind == 1) p->set_call_request(true); if (kind == 2) p->set_call_response(true); if (kind == 3) p->set_call_notify(true);
  // shortest well-formed calls: request 5, response 9, notify 1 bytes of payload
  if (kind == 1 && len < 5) seq::skip(); if (kind == 2 && len < 9) seq::skip(); if (kind == 3 && len < 1) seq::skip();
  if (kind == 0) { // a plain line that looks like a call, or ends in CR, is not representable
    if (!d.empty() && d.back() == '\r') seq::skip();
    if (d.size() >= 4 && d[0] == 'c' && d.back() == 'c' && (d[1] == 'r' || d[1] == 'o' || d[1] == 'n')) seq::skip();
  }
  stream::Basic st{nullptr}; auto e = stream::line_encode(p); st.write(e);
  SEQ_CHECK(e.back() == std::byte{'\n'}, "no line end");
  Dec r{stream::line_decode(&st, lim(0xffff, 100))}; seq::step(2);
  SEQ_CHECK(bool(r) && st.empty(), "an encoded line does not decode");
  auto &q = *r.value();
  SEQ_CHECK(q.is_call_request() == (kind == 1) && q.is_call_response() == (kind == 2) && q.is_call_notify() == (kind == 3), "kind %d became request=%d response=%d notify=%d", kind, q.is_call_request(), q.is_call_response(), q.is_call_notify());
  S got = str(q.data());
  SEQ_CHECK(got.substr(0, d.size()) == d && (kind || got.size() == d.size()), "payload %s became %s", seq::hex(d).c_str(), seq::hex(got).c_str());
  seq::state(seq::hash(d, kind));
}

// ------------------------------------------------------------------ packet
SEQ_SCENARIO(packet_values, "packets: any sequence of typed writes reads back as the same values, short reads take nothing") {
  packet::Basic p; p.set_writeable(true);
  struct V { int t; uint64_t u; double d; S s; }; std::vector<V> vs_; S raw;
  int n = seq::thorough() ? 4 : 3;
  static const uint64_t U[] = {0, 1, 0x8000000000000001ull, ~0ull};
  static const double D[] = {0.0, -1.5, 3.25e30};
  static const S ST[] = {"", "k", S("a\0b", 3), S(300, 'L')};
  for (int i = 0; i < n; ++i) {
    int t = seq::choose(9, "type"); V v{t, 0, 0, {}};
    switch (t) {
      case 0: v.u = (uint8_t)U[seq::choose(4)]; p << (uint8_t)v.u; break;
      case 1: v.u = (uint16_t)U[seq::choose(4)]; p << (uint16_t)v.u; break;
      case 2: v.u = (uint32_t)U[seq::choose(4)]; p << (int32_t)v.u; break;
      case 3: v.u = U[seq::choose(4)]; p << (uint64_t)v.u; break;
      case 4: v.d = (float)D[seq::choose(3)]; p << (float)v.d; break;
      case 5: v.d = D[seq::choose(3)]; p << (double)v.d; break;
      case 6: v.s = ST[1 + seq::choose(3)]; p << std::string_view(v.s); break;
      case 7: v.s = ST[seq::choose(4)]; { bytes_t b{(const std::byte *)v.s.data(), v.s.size()}; p << b; } break;
      case 8: v.s = ST[1 + seq::choose(3)]; { std::vector<uint8_t> b(v.s.begin(), v.s.end()); p << b; } break;
    }
    seq::step(); seq::note("type %d", t); vs_.push_back(v);
  }
  p.set_writeable(false); p.set_readable(true);
  size_t before = p.data().size(); p << (uint32_t)7; SEQ_CHECK(p.data().size() == before, "a packet that is not writeable was written to");
  for (auto &v : vs_) {
    seq::step();
    switch (v.t) {
      case 0: { uint8_t x; p >> x; SEQ_CHECK(x == v.u, "uint8 %u read as %u", (unsigned)v.u, x); break; }
      case 1: { uint16_t x; p >> x; SEQ_CHECK(x == v.u, "uint16 %u read as %u", (unsigned)v.u, x); break; }
      case 2: { int32_t x; p >> x; SEQ_CHECK((uint32_t)x == v.u, "int32 %u read as %u", (unsigned)v.u, (unsigned)x); break; }
      case 3: { uint64_t x; p >> x; SEQ_CHECK(x == v.u, "uint64 %llx read as %llx", (unsigned long long)v.u, (unsigned long long)x); break; }
      case 4: { float x; p >> x; SEQ_CHECK(x == (float)v.d, "float %g read as %g", v.d, x); break; }
      case 5: { double x; p >> x; SEQ_CHECK(x == v.d, "double %g read as %g", v.d, x); break; }
      case 6: { S x; p >> x; SEQ_CHECK(x == v.s, "string of %zu read as %zu bytes", v.s.size(), x.size()); break; }
      case 7: { bytes_t x; p >> x; SEQ_CHECK(str(x) == v.s, "bytes of %zu read as %zu", v.s.size(), x.size()); break; }
      case 8: { S x(v.s.size(), 0); SEQ_CHECK(p.read((std::byte *)x.data(), x.size()) == x.size() && x == v.s, "raw bytes differ"); break; }
    }
  }
  SEQ_CHECK(p.offset() == p.data().size(), "%zu of %zu bytes read", p.offset(), p.data().size());
  size_t o = p.offset(); uint32_t z = 5; p >> z; SEQ_CHECK(p.offset() == o && z == 0, "reading past the end moved the position or gave a value");
  seq::state(seq::hash(p.data().data(), p.data().size()));
}
SEQ_SCENARIO(packet_flags, "packets: readable, writeable and call flags are independent of each other; no operation without its permission") {
  packet::Basic p; bool rd = false, wr = false, rq = false, rs = false, nt = false; S content; size_t off = 0;
  int n = seq::thorough() ? 6 : 5;
  for (int i = 0; i < n; ++i) {
    int op = seq::choose(12, "op"); bool on = !(op & 1); seq::step();
    switch (op / 2) {
      case 0: p.set_readable(on); rd = on; break;
      case 1: p.set_writeable(on); wr = on; break;
      case 2: p.set_call_request(on); rq = on; break;
      case 3: p.set_call_response(on); rs = on; break;
      case 4: p.set_call_notify(on); nt = on; break;
      case 5: if (on) { size_t w = p.write((const std::byte *)"ab", 2); SEQ_CHECK(w == (wr ? 2u : 0u), "write took %zu with writeable=%d", w, wr); if (wr) content += "ab"; }
        else { char b[2] = {0, 0}; size_t g = p.read((std::byte *)b, 2); bool can = rd && content.size() - off >= 2; SEQ_CHECK(g == (can ? 2u : 0u), "read gave %zu with readable=%d and %zu bytes left", g, rd, content.size() - off); if (can) { SEQ_CHECK(!memcmp(b, "ab", 2), "read other bytes"); off += 2; } }
        break;
    }
    seq::note("op %d", op);
    SEQ_CHECK(p.is_call_request() == rq && p.is_call_response() == rs && p.is_call_notify() == nt, "call flags are request=%d response=%d notify=%d, expected %d %d %d", p.is_call_request(), p.is_call_response(), p.is_call_notify(), rq, rs, nt);
    SEQ_CHECK(str(p.data()) == content && p.offset() == off, "content or position changed");
    seq::state((rd | wr << 1 | rq << 2 | rs << 3 | nt << 4) + content.size() * 32 + off * 4096);
  }
}
SEQ_SCENARIO(packet_hostile, "packets: length prefixes pointing past the end read nothing and never outside the packet") {
  static const uint32_t LEN[] = {0, 1, 3, 4, 5, 0x7fffffff, 0x80000000u, 0xfffffffcu, 0xffffffffu};
  uint32_t len = LEN[seq::choose(9)]; size_t body = seq::choose(6, "body"); int kind = seq::choose(2, "kind"); bool pre = seq::flag("already has data");
  packet::Basic p; p.set_writeable(true); p.set_readable(true); p << len; p.write((const std::byte *)"QRSTUV", body);
  bool ok = len && len <= body; seq::note("prefix=%u body=%zu", len, body); seq::step();
  if (kind == 0) { S s = pre ? "old" : ""; size_t g = p.read(s); SEQ_CHECK(ok ? (s == S(pre ? "old" : "") + S("QRSTUV", len)) : s == (pre ? "old" : ""), "string read gave %s", seq::hex(s).c_str()); if (!ok) SEQ_CHECK(g == 0, "refused read returned %zu", g); }
  else { bytes_t s; if (pre) s = bytes_t{(const std::byte *)"old", 3}; size_t g = p.read(s); SEQ_CHECK(ok ? str(s) == S(pre ? "old" : "") + S("QRSTUV", len) : str(s) == (pre ? "old" : ""), "bytes read gave %s", seq::hex(str(s)).c_str()); if (!ok) SEQ_CHECK(g == 0, "refused read returned %zu", g); }
  SEQ_CHECK(p.offset() <= p.data().size(), "position past the end");
  size_t r = p.remove(100); SEQ_CHECK(p.offset() == p.data().size() && r <= 100, "remove past the end");
  seq::state(len * 10ull + body + kind * 1000003ull + pre * 7000003ull);
}
