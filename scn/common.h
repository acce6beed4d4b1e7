#pragma once
#include "mc.h"
#include "plain/all.h"
#include <thread>
#include <vector>
#include <string>
#include <memory>
#include <cstring>
using namespace plain;
using namespace plain::concurrency;
using namespace std::chrono_literals;

// Counter slots
enum { C_RUN = 0, C_DEAD = 16, C_MISC = 32, C_DONE = 48 };

// Move-only token carried by a task: knows whether the callable that owned it
// was executed and that it is destroyed exactly once.
struct Token {
  int id;
  explicit Token(int i) : id(i) {}
  Token(Token &&o) noexcept : id(o.id) { o.id = -1; }
  Token &operator=(Token &&o) noexcept { std::swap(id, o.id); return *this; }
  Token(const Token &) = delete;
  ~Token() { if (id >= 0) { if (mc_cnt_add(C_DEAD + id, 1) != 1) mc_fail("callable of task %d destroyed twice", id); } }
  void run() const {
    if (id < 0) mc_fail("a moved-from task was executed");
    if (mc_cnt_add(C_RUN + id, 1) != 1) mc_fail("task %d executed more than once", id);
  }
};
inline auto task_fn(int id) { return [id, t = Token(id)]() mutable { t.run(); mc_log(id); mc_cnt_add(C_DONE, 1); }; }

// Block the scenario thread until counter idx reaches n: a hang is a deadlock.
inline void wait_cnt(int idx, int64_t n, const char *what) { mc_wait_cnt(idx, n, what); }
template <class F> inline bool throws_runtime(F &&f) {
  try { f(); return false; } catch (const std::runtime_error &) { return true; }
}
