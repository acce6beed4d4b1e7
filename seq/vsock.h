// A scripted socket for sequential scenarios: fd VS_FD is served by the
// functions below (which override libc's), every other fd goes to the kernel.
#pragma once
#include "seq.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <deque>
namespace vs {
constexpr int FD = 900;
struct Buf {                 // byte queue with cheap removal at the front
  std::string s; size_t p = 0;
  size_t size() const { return s.size() - p; }
  bool empty() const { return size() == 0; }
  const char *data() const { return s.data() + p; }
  void erase(size_t, size_t k) { p += k; }
  Buf &operator+=(const std::string &x) { s += x; return *this; }
};
struct Sock {
  Buf in;            // bytes the peer has sent and recv has not handed out
  std::string out;           // bytes send accepted
  bool eof = false, reset = false, open = true;
  int avail_mode = 0;        // what FIONREAD says: 0 exact, 1 zero, 2 more than there is
  int faults = 0;            // faults left to inject
  int closes = 0;
  bool fault_send = true, fault_recv = true;
};
inline Sock *s = nullptr;
}
extern "C" {
ssize_t recv(int fd, void *b, size_t n, int fl) {
  if (fd != vs::FD || !vs::s) return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
  auto &s = *vs::s;
  if (!s.open) { errno = EBADF; return -1; }
  if (!s.reset && s.faults && s.fault_recv) {
    int c = seq::choose_noexcept(4, "recv fault");   // 0 none, 1 short, 2 would block, 3 reset
    if (c) --s.faults;
    if (c == 2) { errno = EAGAIN; return -1; }
    if (c == 3) { s.reset = true; }
    if (c == 1 && n > 1) n = 1;
  }
  if (s.reset) { errno = ECONNRESET; return -1; }
  if (s.in.empty()) { if (s.eof) return 0; errno = EAGAIN; return -1; }
  size_t k = std::min(n, s.in.size());
  memcpy(b, s.in.data(), k); s.in.erase(0, k);
  return k;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
  if (fd != vs::FD || !vs::s) return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
  auto &s = *vs::s;
  if (!s.open) { errno = EBADF; return -1; }
  if (!s.reset && s.faults && s.fault_send) {
    int c = seq::choose_noexcept(5, "send fault");   // 0 none, 1 one byte, 2 half, 3 would block, 4 reset
    if (c) --s.faults;
    if (c == 3) { errno = EAGAIN; return -1; }
    if (c == 4) s.reset = true;
    if (c == 1 && n > 1) n = 1;
    if (c == 2 && n > 1) n = (n + 1) / 2;
  }
  if (s.reset) { errno = EPIPE; return -1; }
  s.out.append((const char *)b, n);
  return n;
}
int getsockopt(int fd, int l, int o, void *v, socklen_t *n) noexcept {
  if (fd != vs::FD || !vs::s) return syscall(SYS_getsockopt, fd, l, o, v, n);
  if (o == SO_ERROR) { *(int *)v = 0; *n = 4; }
  return 0;
}
int ioctl(int fd, unsigned long rq, ...) noexcept {
  va_list a; va_start(a, rq); void *p = va_arg(a, void *); va_end(a);
  if (fd != vs::FD || !vs::s) return syscall(SYS_ioctl, fd, rq, p);
  if (rq == FIONREAD) *(int *)p = vs::s->avail_mode == 1 ? 0 : vs::s->avail_mode == 2 ? (int)vs::s->in.size() + 9 : (int)vs::s->in.size();
  return 0;
}
int close(int fd) {
  if (fd != vs::FD || !vs::s) return syscall(SYS_close, fd);
  vs::s->open = false; vs::s->closes++;
  return 0;
}
int shutdown(int fd, int h) noexcept {
  if (fd != vs::FD || !vs::s) return syscall(SYS_shutdown, fd, h);
  return 0;
}
}
