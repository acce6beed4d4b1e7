// Virtual in-process network for scenarios: sockets, socketpairs, epoll and select
// implemented on plain tables under the controlled scheduler.  Linked only into
// network scenarios.  Every operation is one atomic step of the schedule; a
// descriptor number is reused lowest-first, exactly like the kernel does.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include "mc_int.h"
#include "vnet.h"
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>

extern "C" void __tsan_read_range(void *, size_t);
extern "C" void __tsan_write_range(void *, size_t);

constexpr int BASE = 300, NF = 64, BUF = 8192, NEP = 32;
enum { K_FREE, K_SOCK, K_LISTEN, K_EPOLL };
struct Ep { int fd, gen; uint32_t events; uint64_t data; bool edge; };
struct VF {
  int kind, gen, type, family;
  bool nb, conn, rd_shut, wr_shut, eof;
  int err, peer, peergen;
  uint16_t port, pport;
  uint8_t *rx; int rxn;
  int msg[64]; int nmsg;          // message boundaries (SEQPACKET)
  int backlog[16]; int nback;     // listening: endpoints not yet accepted
  Ep ep[NEP]; int nep;
  uint64_t total_rx; int again;
};
static VF F[NF];
static uint16_t next_port;
static int opens, closes, max_read;
static int badfd, snd_cap, eintr;

void mc_net_reset() { memset(F, 0, sizeof F); next_port = 40000; opens = closes = 0; max_read = 0; badfd = 0; snd_cap = 0; eintr = 0; }

static inline bool isv(int fd) { return fd >= BASE && fd < BASE + NF; }
static VF *get(int fd) { if (!isv(fd)) return nullptr; VF *f = &F[fd - BASE]; return f->kind == K_FREE ? nullptr : f; }
static int num(VF *f) { return BASE + (int)(f - F); }
static int fail(int e) { errno = e; return -1; }
static int bad() { ++badfd; return fail(EBADF); }
static VF *alloc(int kind) {
  for (int i = 0; i < NF; ++i) if (F[i].kind == K_FREE) {
    int g = F[i].gen; memset(&F[i], 0, sizeof(VF)); F[i].gen = g + 1; F[i].kind = kind; F[i].peer = -1; ++opens; return &F[i]; }
  mc_fail("INTERNAL: virtual descriptors exhausted");
}
static void step(const char *tag) { mc_yield_point(tag); }
static void touch(VF *f, bool wr = true) { mc_event_on(f, wr, f->kind * 131 + f->rxn); mc_hb_full(f); }
static uint32_t pollmask(VF *f) {
  uint32_t m = 0;
  if (f->kind == K_LISTEN) { if (f->nback) m |= EPOLLIN; }
  else if (f->kind == K_SOCK) {
    if (f->rxn || f->nmsg) m |= EPOLLIN;
    if (f->eof || f->rd_shut) m |= EPOLLIN | EPOLLRDHUP;
    if ((f->eof || f->rd_shut) && f->wr_shut) m |= EPOLLHUP;
    if (f->err) m |= EPOLLERR | EPOLLHUP | EPOLLIN;
    if (!f->conn && !f->err && f->peer < 0 && f->type == SOCK_STREAM) m |= EPOLLHUP;
    if (f->conn) m |= EPOLLOUT;
  }
  return m;
}
// something happened on f: every epoll set watching it gets an edge
static void edge(VF *f) {
  int fd = num(f);
  for (auto &e : F) if (e.kind == K_EPOLL) for (int i = 0; i < e.nep; ++i) if (e.ep[i].fd == fd && e.ep[i].gen == f->gen) { e.ep[i].edge = true; mc_event_on(&e, true, fd); }
}
static VF *peer_of(VF *f) { if (f->peer < 0) return nullptr; VF *p = &F[f->peer]; return p->kind == K_SOCK && p->gen == f->peergen ? p : nullptr; }
static void link2(VF *a, VF *b) { a->peer = b - F; a->peergen = b->gen; b->peer = a - F; b->peergen = a->gen; a->conn = b->conn = true; }
static void setname(sockaddr *sa, socklen_t *len, int family, uint16_t port) {
  if (!sa || !len) return;
  if (family == AF_INET6) { sockaddr_in6 s{}; s.sin6_family = AF_INET6; s.sin6_port = htons(port); s.sin6_addr.s6_addr[15] = 1; memcpy(sa, &s, *len < sizeof s ? *len : sizeof s); *len = sizeof s; }
  else { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(sa, &s, *len < sizeof s ? *len : sizeof s); *len = sizeof s; }
}
static uint16_t getport(const sockaddr *sa) { return ntohs(sa->sa_family == AF_INET6 ? ((const sockaddr_in6 *)sa)->sin6_port : ((const sockaddr_in *)sa)->sin_port); }
static long raw(long n, long a, long b = 0, long c = 0) {
  long r; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }

static void reap(VF *f) { f->kind = K_FREE; ++closes; }
static void do_close(VF *f) {
  if (f->kind == K_LISTEN) for (int i = 0; i < f->nback; ++i) { VF *b = &F[f->backlog[i]]; if (VF *p = peer_of(b)) { p->eof = true; p->peer = -1; touch(p); edge(p); } reap(b); }
  if (VF *p = peer_of(f)) { p->eof = true; p->peer = -1; touch(p); edge(p); }
  int fd = num(f);
  for (auto &e : F) if (e.kind == K_EPOLL) for (int i = 0; i < e.nep; ++i) if (e.ep[i].fd == fd) { e.ep[i--] = e.ep[--e.nep]; mc_event_on(&e, true, fd); }
  reap(f);
}

extern "C" {
int socket(int d, int t, int) {
  if (!mc_tracked()) return fail(EINVAL);
  step("socket"); mc_event_on(&next_port, true, 0);
  VF *f = alloc(K_SOCK); f->family = d; f->type = t & 0xf; f->nb = t & SOCK_NONBLOCK; touch(f); return num(f);
}
int socketpair(int d, int t, int, int v[2]) {
  step("socketpair"); mc_event_on(&next_port, true, 0);
  VF *a = alloc(K_SOCK), *b = alloc(K_SOCK); a->type = b->type = t & 0xf; a->family = b->family = d; link2(a, b);
  v[0] = num(a); v[1] = num(b); touch(a); touch(b); return 0;
}
int bind(int fd, const sockaddr *sa, socklen_t) {
  VF *f = get(fd); if (!f) return bad();
  uint16_t p = sa->sa_family == AF_INET || sa->sa_family == AF_INET6 ? getport(sa) : 0;
  if (p) for (auto &x : F) if (x.kind == K_LISTEN && x.port == p) return fail(EADDRINUSE);
  f->port = p ? p : next_port++; mc_event_on(&next_port, true, 1); touch(f); return 0;
}
int listen(int fd, int) { step("listen"); VF *f = get(fd); if (!f) return bad(); f->kind = K_LISTEN; touch(f); return 0; }
static int take(VF *f, sockaddr *sa, socklen_t *len) {
  int b = f->backlog[0]; for (int i = 1; i < f->nback; ++i) f->backlog[i - 1] = f->backlog[i]; --f->nback;
  VF *x = &F[b]; if (sa) setname(sa, len, x->family, x->pport); touch(f); touch(x); return num(x);
}
static int p_back(void *a) { VF *f = (VF *)a; return f->kind != K_LISTEN || f->nback > 0; }
int accept(int fd, sockaddr *sa, socklen_t *len) {
  step("accept"); VF *f = get(fd); if (!f) return bad(); if (f->kind != K_LISTEN) return fail(EINVAL);
  touch(f);
  if (!f->nback) { if (f->nb) return fail(EAGAIN); mc_block_until(p_back, f, "accept"); if (f->kind != K_LISTEN) return bad(); }
  return take(f, sa, len);
}
int accept4(int fd, sockaddr *sa, socklen_t *len, int fl) { int r = accept(fd, sa, len); if (r >= 0 && (fl & SOCK_NONBLOCK)) get(r)->nb = true; return r; }
int connect(int fd, const sockaddr *sa, socklen_t) {
  step("connect"); VF *f = get(fd); if (!f) return bad();
  if (f->conn) return fail(EISCONN);
  mc_event_on(&next_port, true, 2); touch(f);
  uint16_t p = getport(sa); VF *l = nullptr;
  for (auto &x : F) if (x.kind == K_LISTEN && x.port == p) l = &x;
  f->pport = p;
  if (!l || l->nback >= 16) { if (f->nb) { f->err = ECONNREFUSED; return fail(EINPROGRESS); } return fail(ECONNREFUSED); }
  if (!f->port) f->port = next_port++;
  VF *s = alloc(K_SOCK); s->type = f->type; s->family = f->family; s->port = p; s->pport = f->port;
  link2(f, s); l->backlog[l->nback++] = s - F; touch(s); touch(l); edge(l); edge(f);
  if (f->nb) return fail(EINPROGRESS);
  return 0;
}
static int p_room(void *a) { VF *f = (VF *)a; if (f->kind != K_SOCK || f->wr_shut) return 1; VF *p = peer_of(f); return !p || p->rd_shut || p->rxn < snd_cap; }
static ssize_t vsend(int fd, const void *b, size_t n, int) {
  step("send"); VF *f = get(fd); if (!f) return bad(); if (f->kind != K_SOCK) return fail(ENOTSOCK);
  __tsan_read_range((void *)b, n); touch(f);
  if (f->wr_shut) return fail(EPIPE);
  if (!f->conn) return fail(ENOTCONN);
  VF *p = peer_of(f);
  if (!p || p->rd_shut) return n;      // bytes to a closed peer vanish
  if (snd_cap && f->type == SOCK_STREAM && p->rxn >= snd_cap) {
    // full: EAGAIN once, a retry without progress waits for room (retrying is stuttering)
    if (f->nb && !f->again) { f->again = 1; return fail(EAGAIN); }
    int g = f->gen; mc_block_until(p_room, f, "send-room"); if (f->kind != K_SOCK || f->gen != g) return bad();
    touch(f); if (f->wr_shut) return fail(EPIPE); p = peer_of(f); if (!p || p->rd_shut) return n;
  }
  f->again = 0;
  if (snd_cap && f->type == SOCK_STREAM && (size_t)(snd_cap - p->rxn) < n) n = snd_cap - p->rxn;
  if (p->rxn + n > BUF || (f->type == SOCK_SEQPACKET && p->nmsg >= 64)) { if (f->nb) return fail(EAGAIN); mc_fail("INTERNAL: virtual socket buffer full"); }
  if (!p->rx) p->rx = (uint8_t *)malloc(BUF);
  memcpy(p->rx + p->rxn, b, n); p->rxn += n; p->total_rx += n;
  if (f->type == SOCK_SEQPACKET) p->msg[p->nmsg++] = n;
  touch(p); edge(p); return n;
}
static int p_rx(void *a) { VF *f = (VF *)a; return f->kind != K_SOCK || f->rxn || f->nmsg || f->eof || f->rd_shut || f->err; }
static ssize_t vrecv(int fd, void *b, size_t n, int flags) {
  step("recv"); VF *f = get(fd); if (!f) return bad(); if (f->kind != K_SOCK) return fail(ENOTSOCK);
  int g = f->gen;
  if (!p_rx(f)) { touch(f); if (f->nb || (flags & MSG_DONTWAIT)) return fail(EAGAIN); mc_block_until(p_rx, f, "recv"); if (f->kind != K_SOCK || f->gen != g) return bad(); }
  touch(f);
  if (f->err) { int e = f->err; f->err = 0; return fail(e); }
  size_t k = (size_t)f->rxn < n ? f->rxn : n, drop;
  if (f->nmsg) { if (k > (size_t)f->msg[0]) k = f->msg[0]; drop = f->msg[0]; if (!(flags & MSG_PEEK)) { memmove(f->msg, f->msg + 1, 63 * sizeof(int)); --f->nmsg; } }
  else { if (max_read && k > (size_t)max_read) k = max_read; drop = k; }
  if (k) { __tsan_write_range(b, k); memcpy(b, f->rx, k); }
  if (!(flags & MSG_PEEK)) { memmove(f->rx, f->rx + drop, f->rxn - drop); f->rxn -= drop; }
  return k;
}
ssize_t send(int fd, const void *b, size_t n, int fl) { return vsend(fd, b, n, fl); }
ssize_t recv(int fd, void *b, size_t n, int fl) { return vrecv(fd, b, n, fl); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const sockaddr *, socklen_t) { return vsend(fd, b, n, fl); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, sockaddr *, socklen_t *) { return vrecv(fd, b, n, fl); }
int shutdown(int fd, int how) {
  step("shutdown"); VF *f = get(fd); if (!f) return bad(); touch(f);
  if (!f->conn) return fail(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) { f->rd_shut = true; edge(f); }
  if (how == SHUT_WR || how == SHUT_RDWR) { f->wr_shut = true; edge(f); if (VF *p = peer_of(f)) { p->eof = true; touch(p); edge(p); } }
  return 0;
}
int close(int fd) {
  if (!isv(fd)) return raw(SYS_close, fd);
  step("close"); VF *f = get(fd); if (!f) return bad();
  mc_event_on(&next_port, true, 3); touch(f); do_close(f); return 0;
}
int getsockopt(int fd, int lv, int name, void *v, socklen_t *l) {
  VF *f = get(fd); mc_event_on(f ? f : &F[0], false, 9); if (!f) return bad();
  if (f->kind == K_EPOLL) return fail(ENOTSOCK);
  if (lv == SOL_SOCKET && name == SO_ERROR) { *(int *)v = f->err; f->err = 0; *l = sizeof(int); return 0; }
  memset(v, 0, *l); return 0;
}
int setsockopt(int fd, int, int, const void *, socklen_t) { VF *f = get(fd); return f ? (f->kind == K_EPOLL ? fail(ENOTSOCK) : 0) : bad(); }
int getsockname(int fd, sockaddr *sa, socklen_t *l) { VF *f = get(fd); if (!f) return bad(); setname(sa, l, f->family, f->port); return 0; }
int getpeername(int fd, sockaddr *sa, socklen_t *l) { VF *f = get(fd); if (!f) return bad(); if (!f->conn) return fail(ENOTCONN); setname(sa, l, f->family, f->pport); return 0; }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
  if (!isv(fd)) return raw(SYS_ioctl, fd, req, (long)p);
  if (req == FIONREAD) { step("fionread"); VF *f = get(fd); if (!f) return bad(); touch(f, false); *(int *)p = f->nmsg ? f->msg[0] : f->rxn; return 0; }
  VF *f = get(fd); if (!f) return bad();
  if (req == FIONBIO) { f->nb = *(int *)p; touch(f); return 0; }
  return fail(ENOTTY);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (!isv(fd)) return raw(SYS_fcntl, fd, cmd, a);
  VF *f = get(fd); if (!f) return bad();
  if (cmd == F_GETFL) return O_RDWR | (f->nb ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { f->nb = a & O_NONBLOCK; touch(f); return 0; }
  return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
int epoll_create(int n) { if (n <= 0) return fail(EINVAL); mc_event_on(&next_port, true, 4); VF *f = alloc(K_EPOLL); touch(f); return num(f); }
int epoll_create1(int) { return epoll_create(1); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  step("epoll_ctl"); VF *e = get(ep), *f = get(fd); if (!e || !f) return bad();
  if (e->kind != K_EPOLL) return fail(EINVAL);
  touch(e); touch(f);
  int i = 0; while (i < e->nep && e->ep[i].fd != fd) ++i;
  if (op == EPOLL_CTL_ADD) {
    if (i < e->nep) return fail(EEXIST);
    if (e->nep >= NEP) mc_fail("INTERNAL: epoll set full");
    e->ep[e->nep++] = {fd, f->gen, ev->events, ev->data.u64, true};
  } else if (op == EPOLL_CTL_MOD) { if (i == e->nep) return fail(ENOENT); e->ep[i].events = ev->events; e->ep[i].data = ev->data.u64; e->ep[i].edge = true; }
  else { if (i == e->nep) return fail(ENOENT); e->ep[i] = e->ep[--e->nep]; }
  return 0;
}
static bool ep_ready(VF *e, Ep &x) {
  VF *f = &F[x.fd - BASE];
  if ((x.events & EPOLLET) && !x.edge) return false;
  return pollmask(f) & (x.events | EPOLLERR | EPOLLHUP);
}
static int p_ep(void *a) { VF *e = (VF *)a; if (e->kind != K_EPOLL) return 1; for (int i = 0; i < e->nep; ++i) if (ep_ready(e, e->ep[i])) return 1; return 0; }
int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
  VF *e = get(ep); if (!e) return bad(); if (e->kind != K_EPOLL || max <= 0) return fail(EINVAL);
  if (eintr > 0) { step("epoll_wait"); --eintr; return fail(EINTR); }
  if (timeout < 0) mc_block_until(p_ep, e, "epoll_wait");
  else if (timeout > 0) mc_block_until_for(p_ep, e, timeout * 1000000ull, "epoll_wait");
  else step("epoll_wait");
  if (e->kind != K_EPOLL) return bad();
  touch(e);
  int n = 0;
  for (int i = 0; i < e->nep && n < max; ++i) if (ep_ready(e, e->ep[i])) {
    Ep &x = e->ep[i]; VF *f = &F[x.fd - BASE]; mc_hb_full(f); mc_event_on(f, false, 77);
    __tsan_write_range(&evs[n], sizeof evs[n]);
    evs[n].events = pollmask(f) & (x.events | EPOLLERR | EPOLLHUP); evs[n].data.u64 = x.data; ++n; x.edge = false;
  }
  return n;
}
struct Sel { fd_set *r, *w, *e; int n; };
static int sel_scan(Sel *s, fd_set *r, fd_set *w) {
  int c = 0;
  for (int fd = BASE; fd < s->n && fd < BASE + NF; ++fd) {
    bool wr = s->w && FD_ISSET(fd, s->w), rd = s->r && FD_ISSET(fd, s->r);
    if (!wr && !rd) continue;
    VF *f = get(fd); if (!f) continue;
    uint32_t m = pollmask(f);
    if (rd && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) { if (r) FD_SET(fd, r); ++c; }
    if (wr && (m & (EPOLLOUT | EPOLLERR))) { if (w) FD_SET(fd, w); ++c; }
  }
  return c;
}
static bool sel_bad(Sel *s) { for (int fd = BASE; fd < s->n && fd < BASE + NF; ++fd) if (((s->r && FD_ISSET(fd, s->r)) || (s->w && FD_ISSET(fd, s->w)) || (s->e && FD_ISSET(fd, s->e))) && !get(fd)) return true; return false; }
static int p_sel(void *a) { return sel_scan((Sel *)a, nullptr, nullptr) > 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  Sel s{r, w, e, n};
  step("select");
  if (eintr > 0) { --eintr; return fail(EINTR); }
  if (sel_bad(&s)) return bad();
  if (!tv) mc_block_until(p_sel, &s, "select");
  else if (tv->tv_sec || tv->tv_usec) mc_block_until_for(p_sel, &s, (tv->tv_sec * 1000000ull + tv->tv_usec) * 1000ull, "select");
  fd_set ro, wo; FD_ZERO(&ro); FD_ZERO(&wo);
  int c = sel_scan(&s, &ro, &wo);
  for (int fd = BASE; fd < n && fd < BASE + NF; ++fd) if ((r && FD_ISSET(fd, r)) || (w && FD_ISSET(fd, w))) if (VF *f = get(fd)) touch(f, false);
  if (r) *r = ro; if (w) *w = wo; if (e) FD_ZERO(e);
  return c;
}
int dup(int fd) { if (isv(fd)) mc_fail("INTERNAL: dup of a virtual descriptor"); return raw(SYS_dup, fd); }
}

// ---- scenario side
void vnet_max_read(int n) { max_read = n; }
void vnet_eintr(int n) { eintr = n; }
void vnet_send_cap(int n) { snd_cap = n; }
int vnet_open_fds() { int c = 0; for (auto &f : F) c += f.kind != K_FREE; return c; }
int vnet_bad_fd_ops() { return badfd; }
void vnet_reset_peer(int fd) { step("rst"); VF *f = get(fd); if (!f) return; if (VF *p = peer_of(f)) { p->err = ECONNRESET; p->eof = true; p->peer = -1; touch(p); edge(p); } mc_event_on(&next_port, true, 3); f->peer = -1; do_close(f); }
int vnet_pending(int fd) { VF *f = get(fd); if (!f) return -1; touch(f, false); return f->rxn; }
bool vnet_eof(int fd) { VF *f = get(fd); if (!f) return true; touch(f, false); return f->eof; }
#include <sys/resource.h>
extern "C" int setrlimit(__rlimit_resource_t r, const struct rlimit *l) noexcept { if (mc_tracked()) return 0; return raw(SYS_setrlimit, r, (long)l); }
