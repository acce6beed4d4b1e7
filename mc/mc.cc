// Controlled-scheduler runtime + explorer. See mc.h and DESIGN.md.
//
// The library and the scenarios are compiled with -fsanitize=thread, but linked
// against this file instead of libtsan: every std::atomic operation arrives in
// a __tsan_atomic* call, every plain access in __tsan_read/write*, and the
// pthread/futex/clock/sleep entry points of libc are interposed below.  Exactly
// one thread runs at a time; which one is a recorded choice.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include "mc_int.h"
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <climits>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <semaphore.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <linux/futex.h>
#include <unistd.h>
#include <atomic>
#include <exception>
#include <initializer_list>
#include <typeinfo>

// ---------------------------------------------------------------- raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

// ---------------------------------------------------------------- configuration
struct Config {
  int maxP = 2, maxT = 1, maxS = 0;
  int maxF = 1000000;    // deviations from round-robin at blocking points
  int races = 1, uaf = 1, refpoints = 0;
  int workers = 8;
  double budget = 60;
  int maxsteps = 20000;
  bool nocache = false;
  const char *scenario = nullptr, *replay = nullptr, *out = nullptr, *replay_out = nullptr;
  bool verbose = false;
} cfg;

// ---------------------------------------------------------------- shared memory
constexpr int MAXREC = 30000;
struct Rec { uint32_t dp, dt, df; uint8_t n, chosen, kind, tid; };
enum Status : int { ST_RUNNING, ST_OK, ST_PRUNED, ST_VIOL, ST_DIVERGE, ST_OVERFLOW };
struct WorkerShm {
  volatile int status;
  int nrec;
  uint64_t steps;
  int nprefix;
  uint8_t prefix[MAXREC];
  Rec rec[MAXREC];
  char msg[4000];
};
struct Stack {
  uint64_t top;      // bytes used
  uint64_t count;
};
constexpr int MAXLEVEL = 64;
constexpr uint64_t SLAB = 3ull << 30;
constexpr uint64_t VTAB = 1ull << 26;
struct Shared { int sample_lvl; uint64_t sample_cnt; char sample[700];
  volatile int lock;
  volatile int active;
  volatile int stop;
  volatile int level_open;
  Stack st[MAXLEVEL];
  uint64_t execs, pruned, okexecs, steps, decisions, maxdepth, diverge, overflow, dropped;
  uint64_t visited_n;
  volatile int viol;
  int viol_status;
  int viol_nrec;
  uint8_t viol_choice[MAXREC];
  char viol_msg[4000];
  int viol_confirmed;
  uint64_t execs_at_level[MAXLEVEL];
};
static Shared *G;
static uint8_t *slab[MAXLEVEL];
static std::atomic<uint64_t> *vkey;
static WorkerShm *W;            // this worker's

// ---------------------------------------------------------------- per-execution state
constexpr int MAXT = 24;
constexpr uint64_t HEAP_PER_T = 16ull << 20;
constexpr uint64_t STACK_PER_T = 512ull << 10;
constexpr uintptr_t ARENA = 0x200000000000ull;
constexpr uintptr_t STACKS = ARENA + MAXT * HEAP_PER_T;
constexpr uintptr_t ARENA_END = STACKS + MAXT * STACK_PER_T;
constexpr uintptr_t BIGA = 0x280000000000ull;
constexpr uint64_t BIGSZ = 8ull << 30;
constexpr uintptr_t SHADOW = 0x300000000000ull;
constexpr uintptr_t GSHADOW = 0x380000000000ull;
constexpr uintptr_t GRAN = 0x3a0000000000ull;   // heap state byte per 16B
extern "C" char __data_start, _end;

struct VC { uint32_t c[MAXT]; };
struct RdE { uint32_t clk, pc; uint8_t tid, mask; };
struct Cell { uint32_t w_clk, w_pc; uint8_t w_tid, w_mask, nr, pad; RdE r[3]; };

enum OpKind : int { OP_NONE, OP_START, OP_ATOMIC, OP_LOCK, OP_RDLOCK, OP_COND, OP_JOIN, OP_FUTEX, OP_SLEEP,
  OP_NOTIFY, OP_PRED, OP_YIELD, OP_QUIESCE, OP_CREATE, OP_MISC, OP_GUARD };
static const char *opname[] = {"none","start","atomic","lock","rdlock","cond-wait","join","futex-wait","sleep",
  "notify","block","yield","quiesce","create","misc","guard"};

struct Obj {
  uintptr_t addr;
  VC vc; bool has_vc;
  int owner;        // mutex/guard owner tid+1, 0 = free
  int count;        // recursion / readers
  uint64_t h, rs;
};
struct T {
  int id;
  bool used, finished, detached;
  OpKind op;
  Obj *obj;
  uintptr_t addr;
  int jt;
  bool woken, timed, timedout;
  uint64_t deadline;
  int (*pred)(void *); void *parg;
  bool yielded;
  VC vc, frel, apend; bool has_frel, has_apend;
  uint64_t h;
  volatile int go;
  pthread_t real;
  void *(*fn)(void *); void *arg; void *ret;
  int quiet;
  const char *tag;
  uint64_t pc;
  char *brk;
};
static T th[MAXT];
static int nth;
static __thread int self_id = -1;
static volatile bool in_exec;
static volatile int curtid;
static uint64_t vnow;
static uint64_t steps;
static int used_p, used_t, used_f, used_s;
static int consec;
static bool replaying;
static bool prefix_phase_done;
static char *bigbrk;
constexpr int OTAB = 1 << 15;   // objects are kept densely, so that an execution touches few pages
static Obj otab[OTAB]; static int nobj;
static uint16_t oidx[OTAB];
static int64_t logv[4096]; static int nlog;
static int64_t cnts[64];
static uint64_t h_log, h_cnt[64];
static Obj clock_obj;
static FILE *tracef;

static inline T &me() { return th[self_id]; }
static inline bool tracked() { return in_exec && self_id >= 0; }
bool mc_tracked() { return tracked(); }

static inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
  x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 29; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32;
  return x;
}

static Obj *getobj(uintptr_t a) {
  uint64_t i = mix(a, 77) & (OTAB - 1);
  for (int k = 0; k < OTAB; ++k, i = (i + 1) & (OTAB - 1)) {
    if (!oidx[i]) { if (nobj >= OTAB - 2) break; oidx[i] = ++nobj; otab[nobj].addr = a; return &otab[nobj]; }
    if (otab[oidx[i]].addr == a) return &otab[oidx[i]];
  }
  mc_fail("INTERNAL: object table full");
}

static void vc_join(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void rel_join(Obj *o) { T &t = me(); if (!o->has_vc) { o->vc = t.vc; o->has_vc = true; } else vc_join(o->vc, t.vc); t.vc.c[t.id]++; }
static void rel_store(Obj *o) { T &t = me(); o->vc = t.vc; o->has_vc = true; t.vc.c[t.id]++; }
static void acq(Obj *o) { if (o->has_vc) vc_join(me().vc, o->vc); }

static void ev(T &t, int kind, Obj *o, bool wr, uint64_t extra = 0) {
  t.h = mix(mix(mix(t.h, kind), o->addr), mix(o->h, extra));
  if (wr) { t.h = mix(t.h, o->rs); o->h = t.h; o->rs = 0; }
  else o->rs += mix(t.h, 5);
}

extern "C" void mc_hb_release(void *p) { if (tracked()) rel_join(getobj((uintptr_t)p ^ 0x5ull << 56)); }
extern "C" void mc_hb_acquire(void *p) { if (tracked()) acq(getobj((uintptr_t)p ^ 0x5ull << 56)); }

// ---------------------------------------------------------------- ending an execution
static void finish(int status) __attribute__((noreturn));
static void finish(int status) {
  W->steps = steps;
  W->status = status;
  if (tracef) fflush(tracef);
  raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
static void trace(const char *fmt, ...) {
  if (!tracef) return;
  va_list ap; va_start(ap, fmt); char b[600]; int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  raw6(SYS_write, fileno(tracef), (long)b, n, 0, 0, 0);
}
extern "C" void mc_note(const char *fmt, ...) {
  if (!tracef) return;
  va_list ap; va_start(ap, fmt); char b[600]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  trace("T%d NOTE %s\n", self_id, b);
}
static void describe_threads(char *b, size_t n) {
  size_t o = 0;
  for (int i = 0; i < nth; ++i) {
    if (th[i].finished) continue;
    int w = snprintf(b + o, n - o, " T%d:%s%s%s", i, opname[th[i].op], th[i].tag ? ":" : "", th[i].tag ? th[i].tag : "");
    if (w < 0 || o + w >= n) break;
    o += w;
  }
}
extern "C" void mc_fail(const char *fmt, ...) {
  if (!in_exec) { va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fputc('\n', stderr); abort(); }
  va_list ap; va_start(ap, fmt); vsnprintf(W->msg, sizeof W->msg, fmt, ap); va_end(ap);
  trace("VIOLATION %s\n", W->msg);
  finish(ST_VIOL);
}

// ---------------------------------------------------------------- choices
static void note_rec(int n, int c, uint32_t dp, uint32_t dt, uint32_t df, int kind, int tid) {
  if (W->nrec >= MAXREC) { snprintf(W->msg, sizeof W->msg, "too many decisions"); finish(ST_OVERFLOW); }
  Rec &r = W->rec[W->nrec++];
  r.n = n; r.chosen = c; r.dp = dp; r.dt = dt; r.df = df; r.kind = kind; r.tid = tid;
}

static bool visit(uint64_t key, int cost) {   // true = prune; an entry is 56 bits of the key and the cost it was reached at
  if (cfg.nocache) return false;
  uint64_t i = mix(key, 99) & (VTAB - 1), want = (key & ~255ull) | (uint64_t)(cost & 255);
  if (want < 256) want |= 256;
  for (int k = 0; k < 64; ++k, i = (i + 1) & (VTAB - 1)) {
    uint64_t cur = vkey[i].load(std::memory_order_relaxed);
    if (cur == 0) {
      if (vkey[i].compare_exchange_strong(cur, want)) { __atomic_fetch_add(&G->visited_n, 1, __ATOMIC_RELAXED); return false; }
    }
    while ((cur ^ want) < 256) {
      if ((cur & 255) <= (want & 255)) return true;
      if (vkey[i].compare_exchange_strong(cur, want)) return false;
    }
  }
  return false;
}

static uint64_t state_hash() {
  uint64_t s = 0;
  for (int i = 0; i < nth; ++i) s += mix(th[i].h, i + 1);
  s = mix(s, h_log);
  s = mix(s, vnow);
  return s;
}

static int decide(int n, uint32_t dp, uint32_t dt, uint32_t df, uint64_t keyx, int kind, int tid) {
  int i = W->nrec;
  int c;
  if (i < W->nprefix) {
    c = W->prefix[i];
    if (c >= n) { snprintf(W->msg, sizeof W->msg, "divergence at decision %d: choice %d of %d (kind %d tid %d)", i, c, n, kind, tid); finish(ST_DIVERGE); }
  } else {
    if (!replaying) {
      uint64_t key = mix(mix(state_hash(), keyx), mix(used_t, used_s * 64 + (cfg.maxF < 1000 ? used_f : 0)));
      if (visit(key, used_p)) finish(ST_PRUNED);
    }
    c = 0;
  }
  note_rec(n, c, dp, dt, df, kind, tid);
  return c;
}

extern "C" int mc_choose(int n, const char *tag) {
  if (!tracked()) return 0;
  if (n <= 1) return 0;
  if (n > 32) mc_fail("INTERNAL: mc_choose n>32");
  T &t = me();
  int c = decide(n, 0, 0, 0, mix(0xC0FFEE, self_id), 100, self_id);
  t.h = mix(t.h, mix(0xABCD, c));
  if (tracef) trace("T%d choose %s -> %d/%d\n", self_id, tag ? tag : "", c, n);
  return c;
}
extern "C" void mc_log(int64_t v) {
  if (!tracked()) return;
  T &t = me();
  if (nlog < 4096) logv[nlog++] = v; else mc_fail("INTERNAL: log full");
  h_log = mix(mix(h_log, t.h), v);
  t.h = mix(t.h, h_log);
  if (tracef) trace("T%d log %lld\n", self_id, (long long)v);
}
extern "C" int mc_log_size(void) { if (tracked()) me().h = mix(me().h, h_log); return nlog; }
extern "C" int64_t mc_log_at(int i) { return i >= 0 && i < nlog ? logv[i] : 0; }
extern "C" int64_t mc_cnt_add(int idx, int64_t v) {
  if (!tracked()) return 0;
  T &t = me();
  cnts[idx] += v;
  h_cnt[idx] = mix(mix(h_cnt[idx], t.h), cnts[idx]);
  t.h = mix(t.h, h_cnt[idx]);
  return cnts[idx];
}
extern "C" int64_t mc_cnt(int idx) { if (tracked()) me().h = mix(me().h, h_cnt[idx]); return cnts[idx]; }
extern "C" int mc_tid(void) { return self_id; }
extern "C" int mc_thread_count(void) { return nth; }
extern "C" int mc_thread_finished(int i) { return i < nth && th[i].finished; }
extern "C" int mc_is_replay(void) { return replaying; }
extern "C" void mc_quiet_begin(void) { if (tracked()) me().quiet++; }
extern "C" void mc_quiet_end(void) { if (tracked()) me().quiet--; }

// ---------------------------------------------------------------- the scheduler
static bool enabled(T &t);
static bool quiesced(T &t) {
  for (int i = 0; i < nth; ++i) {
    T &o = th[i];
    if (&o == &t || o.finished || o.op == OP_QUIESCE) continue;
    if (enabled(o)) return false;
    if (t.jt && o.timed) return false;
  }
  return true;
}
static bool enabled(T &t) {
  if (t.finished) return false;
  switch (t.op) {
    case OP_LOCK: case OP_GUARD:
      if (t.timed && t.timedout) return true;
      return t.obj->owner == 0 && t.obj->count <= 0;
    case OP_RDLOCK: return t.obj->owner == 0;
    case OP_COND: case OP_FUTEX: return t.woken || t.timedout;
    case OP_JOIN: return th[t.jt].finished;
    case OP_SLEEP: return t.timedout;
    case OP_PRED: return t.timedout || t.pred(t.parg);
    case OP_QUIESCE: return quiesced(t);
    default: return true;
  }
}

static void give(T &t) {
  curtid = t.id;
  t.go = 1;
  raw6(SYS_futex, (long)&t.go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void take(T &t) {
  while (!t.go) raw6(SYS_futex, (long)&t.go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  t.go = 0;
}

// Called by the running thread with its pending op set. exiting: never resumes.
static void run_scheduler(bool exiting) {
  T &t = me();
  for (;;) {
    if (++steps > (uint64_t)cfg.maxsteps) {
      char b[800] = ""; describe_threads(b, sizeof b);
      mc_fail("livelock: no termination within %d steps; threads:%s", cfg.maxsteps, b);
    }
    struct Cand { int tid; int type; } cd[80]; int n = 0;   // type 0 run, 1 timeout, 2 spurious
    uint32_t dp = 0, dt = 0, df = 0;
    bool cur_en = !exiting && enabled(t);
    bool fair = consec > 3000;
    bool yielding = (t.op == OP_YIELD || t.op == OP_QUIESCE || fair);
    if (fair) consec = 0;
    if (cur_en && !yielding) { cd[n++] = {t.id, 0}; }
    for (int k = 1; k <= nth; ++k) {
      int i = (t.id + k) % nth;
      if (i == t.id) continue;
      if (!enabled(th[i])) continue;
      if (cur_en && !yielding) dp |= 1u << n;
      else if (n > 0) df |= 1u << n;
      cd[n++] = {i, 0};
    }
    if (cur_en && yielding && n == 0) cd[n++] = {t.id, 0};
    bool anyrun = n > 0;
    uint64_t mind = UINT64_MAX;
    for (int i = 0; i < nth; ++i)
      if (!th[i].finished && !(exiting && i == t.id) && th[i].timed && !th[i].timedout && !enabled(th[i]) && th[i].deadline < mind) mind = th[i].deadline;
    if (mind != UINT64_MAX)
      for (int i = 0; i < nth; ++i)
        if (!th[i].finished && !(exiting && i == t.id) && th[i].timed && !th[i].timedout && !enabled(th[i]) && th[i].deadline == mind) {
          if (anyrun) { if (used_t >= cfg.maxT) continue; dt |= 1u << n; }
          cd[n++] = {i, 1};
        }
    if (cfg.maxS > 0)
      for (int i = 0; i < nth; ++i)
        if (!th[i].finished && !(exiting && i == t.id) && (th[i].op == OP_COND || th[i].op == OP_FUTEX) && !enabled(th[i])) {
          if (!anyrun) continue;
          if (used_s >= cfg.maxS) continue;
          cd[n++] = {i, 2};
        }
    if (n == 0) {
      char b[800] = ""; describe_threads(b, sizeof b);
      mc_fail("deadlock: no thread can make progress; blocked:%s", b);
    }
    int c = 0;
    if (n > 1) {
      uint64_t keyx = (cur_en && !yielding) ? mix(1, t.id) : (yielding && cur_en ? mix(2, t.id) : 3);
      c = decide(n, dp, dt, df, keyx, 0, t.id);
    }
    if (dp >> c & 1) used_p++;
    if (dt >> c & 1) used_t++;
    if (df >> c & 1) used_f++;
    T &x = th[cd[c].tid];
    if (cd[c].type == 1) {
      x.timedout = true;
      uint64_t nv = (x.deadline > vnow ? x.deadline : vnow) + 1000;
      vnow = nv;
      x.h = mix(mix(mix(x.h, 0x71), clock_obj.h), mix(clock_obj.rs, vnow));
      clock_obj.h = x.h; clock_obj.rs = 0;
      if (tracef) trace("   -- timeout of T%d (%s), now=%.6fs\n", x.id, opname[x.op], vnow / 1e9);
      continue;
    }
    if (cd[c].type == 2) {
      used_s++;
      x.woken = true;
      x.h = mix(x.h, 0x5917);
      if (tracef) trace("   -- spurious wakeup of T%d (%s)\n", x.id, opname[x.op]);
      continue;
    }
    if (x.id == t.id) { consec++; return; }
    consec = 0;
    give(x);
    if (exiting) { for (;;) raw6(SYS_futex, (long)&t.go, FUTEX_WAIT_PRIVATE, t.go, 0, 0, 0); }
    take(t);
    return;
  }
}

static void point(OpKind k, uintptr_t addr, Obj *o, const char *tag = nullptr) {
  T &t = me();
  t.op = k; t.addr = addr; t.obj = o; t.tag = tag;
  if (t.quiet && k == OP_ATOMIC) return;
  if (t.quiet && enabled(t)) return;
  run_scheduler(false);
}

extern "C" void mc_yield_point(const char *tag) { if (tracked()) { point(OP_MISC, 0, nullptr, tag); me().h = mix(me().h, 0x71e1d); if (tracef) trace("T%d %s\n", self_id, tag ? tag : "yield"); } }
extern "C" void mc_block_until(int (*pred)(void *), void *arg, const char *tag) {
  T &t = me(); t.pred = pred; t.parg = arg; t.timed = false; t.timedout = false;
  point(OP_PRED, 0, nullptr, tag);
  t.h = mix(t.h, 0xb10c);
  if (tracef) trace("T%d resumed: %s\n", self_id, tag ? tag : "");
}
struct CW { int idx; int64_t n; };
static int cw_pred(void *a) { CW *w = (CW *)a; return cnts[w->idx] >= w->n; }
extern "C" void mc_wait_cnt(int idx, int64_t n, const char *what) { CW w{idx, n}; mc_block_until(cw_pred, &w, what); mc_cnt(idx); }
extern "C" int mc_block_until_for(int (*pred)(void *), void *arg, uint64_t ns, const char *tag) {
  T &t = me(); t.pred = pred; t.parg = arg; t.timed = true; t.timedout = false; t.deadline = vnow + ns;
  point(OP_PRED, 0, nullptr, tag);
  t.timed = false;
  bool to = t.timedout; t.timedout = false;
  t.h = mix(t.h, 0xb10d + to);
  if (to && pred(arg)) return 1;
  return !to;
}
extern "C" void mc_quiesce(int adv) { T &t = me(); t.jt = adv; point(OP_QUIESCE, 0, nullptr, "quiesce");
  for (int i = 0; i < nth; ++i) t.h = mix(t.h, th[i].h);
  t.jt = 0; }
void mc_event_on(void *addr, bool wr, uint64_t extra) { if (tracked()) ev(me(), 40, getobj((uintptr_t)addr ^ 0x6ull << 56), wr, extra); }
void mc_hb_full(void *addr) { if (tracked()) { Obj *o = getobj((uintptr_t)addr ^ 0x6ull << 56); acq(o); rel_join(o); } }

// ---------------------------------------------------------------- memory
#define LIBC(x) __libc_##x
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }

struct Hdr { uint64_t size; uint32_t magic; uint32_t state; };
constexpr uint32_t MAGIC = 0x4d434845;
static inline bool in_heap(uintptr_t a) { return a >= ARENA && a < STACKS; }
static inline uint8_t *gran(uintptr_t a) { return (uint8_t *)(GRAN + ((a - ARENA) >> 4)); }

static void *mc_alloc(size_t sz, size_t al) {
  T &t = me();
  if (sz > (1u << 19)) {
    uintptr_t p = ((uintptr_t)bigbrk + 64 + al - 1) & ~(uintptr_t)(al - 1);
    if (p + sz > BIGA + BIGSZ) mc_fail("out of memory in execution: request of %zu bytes", sz);
    Hdr *h = (Hdr *)(p - sizeof(Hdr)); h->size = sz; h->magic = MAGIC; h->state = 1;
    bigbrk = (char *)((p + sz + 63) & ~63ull);
    return (void *)p;
  }
  uintptr_t p = ((uintptr_t)t.brk + sizeof(Hdr) + al - 1) & ~(uintptr_t)(al - 1);
  uintptr_t e = (p + sz + 15) & ~15ull;
  if (e > ARENA + (t.id + 1) * HEAP_PER_T) mc_fail("out of memory in execution (thread heap)");
  Hdr *h = (Hdr *)(p - sizeof(Hdr)); h->size = sz; h->magic = MAGIC; h->state = 1;
  if (sz == 0) e = p;
  memset(gran(p), 1, (e - p) >> 4);
  t.brk = (char *)(e == p ? p + 16 : e);
  return (void *)p;
}
static Cell *cell_of(uintptr_t a);
static void access(uintptr_t a, size_t n, bool wr, uintptr_t pc, bool isfree = false);
static void mc_dealloc(void *p) {
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic != MAGIC) mc_fail("free of invalid pointer %p", p);
  if (h->state != 1) mc_fail("double free of heap block %p (size %llu)", p, (unsigned long long)h->size);
  h->state = 2;
  if (!in_heap((uintptr_t)p)) return;
  if (tracked() && cfg.races && h->size) access((uintptr_t)p, h->size > 4096 ? 4096 : h->size, true, (uintptr_t)__builtin_return_address(0), true);
  uintptr_t e = ((uintptr_t)p + h->size + 15) & ~15ull;
  memset(gran((uintptr_t)p), 2, (e - (uintptr_t)p) >> 4);
}
static inline bool ours(void *p) { uintptr_t a = (uintptr_t)p; return (a >= ARENA && a < STACKS) || (a >= BIGA && a < BIGA + BIGSZ); }

extern "C" void *malloc(size_t n) { if (tracked()) return mc_alloc(n, 16); return __libc_malloc(n); }
extern "C" void free(void *p) { if (!p) return; if (ours(p)) { if (in_exec) mc_dealloc(p); return; } __libc_free(p); }
extern "C" void *calloc(size_t a, size_t b) {
  if (tracked()) return mc_alloc(a * b, 16);   // fresh pages are zero, never reused
  return __libc_calloc(a, b);
}
extern "C" void *realloc(void *p, size_t n) {
  if (p && ours(p)) {
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    void *q = mc_alloc(n, 16);
    memcpy(q, p, h->size < n ? h->size : n);
    mc_dealloc(p);
    return q;
  }
  if (tracked()) {
    void *q = mc_alloc(n, 16);
    if (p) { size_t old = *((size_t *)p - 1) & ~7ull; memcpy(q, p, old - 8 < n ? old - 8 : n); }
    return q;
  }
  return __libc_realloc(p, n);
}
extern "C" void *memalign(size_t al, size_t n) { if (tracked()) return mc_alloc(n, al < 16 ? 16 : al); return __libc_memalign(al, n); }
extern "C" void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" int posix_memalign(void **o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }
extern "C" size_t malloc_usable_size(void *p) { if (ours(p)) return ((Hdr *)((char *)p - sizeof(Hdr)))->size; return p ? (*((size_t *)p - 1) & ~7ull) - 8 : 0; }

// ---------------------------------------------------------------- race + lifetime checking
static inline Cell *cell_of(uintptr_t a) {
  if (a >= ARENA && a < ARENA_END) return (Cell *)SHADOW + ((a - ARENA) >> 3);
  uintptr_t ds = (uintptr_t)&__data_start & ~7ull;
  if (a >= ds && a < (uintptr_t)&_end) return (Cell *)GSHADOW + ((a - ds) >> 3);
  return nullptr;
}
static void race(uintptr_t a, bool wr, uintptr_t pc, bool owr, int otid, uint32_t opc, bool isfree) {
  mc_fail("data race on 0x%llx: %s by T%d at pc=0x%llx vs %s by T%d at pc=0x%x", (unsigned long long)a,
          isfree ? "free" : wr ? "write" : "read", self_id, (unsigned long long)pc, owr ? "write" : "read", otid, opc);
}
static void access(uintptr_t a, size_t n, bool wr, uintptr_t pc, bool isfree) {
  T &t = me();
  if (cfg.uaf && in_heap(a)) {
    uint8_t g1 = *gran(a), g2 = *gran(a + n - 1);
    if (g1 != 1 || g2 != 1)
      mc_fail("%s of %s heap memory 0x%llx (%zu bytes) by T%d at pc=0x%llx", wr ? "write" : "read",
              (g1 == 2 || g2 == 2) ? "freed" : "out-of-bounds", (unsigned long long)a, n, self_id, (unsigned long long)pc);
  }
  if (!cfg.races || (a >= BIGA && a < BIGA + BIGSZ)) return;
  while (n > 0) {
    uintptr_t w = a & ~7ull; size_t off = a - w; size_t k = 8 - off; if (k > n) k = n;
    uint8_t mask = ((1u << k) - 1) << off;
    Cell *c = cell_of(w);
    if (c) {
      if (c->w_mask & mask) if (c->w_tid != t.id && c->w_clk > t.vc.c[c->w_tid]) race(a, wr, pc, true, c->w_tid, c->w_pc, isfree);
      if (wr) {
        for (int i = 0; i < c->nr; ++i) { RdE &r = c->r[i];
          if ((r.mask & mask) && r.tid != t.id && r.clk > t.vc.c[r.tid]) race(a, wr, pc, false, r.tid, r.pc, isfree); }
        c->w_clk = t.vc.c[t.id]; c->w_tid = t.id; c->w_mask = mask; c->w_pc = (uint32_t)pc;
        if (mask == 0xff) c->nr = 0;
      } else {
        int i = 0;
        for (; i < c->nr; ++i) if (c->r[i].tid == t.id) break;
        if (i == c->nr) { if (c->nr < 3) c->nr++; else i = 2; c->r[i].mask = 0; c->r[i].clk = 0; }
        RdE &r = c->r[i];
        uint32_t ck = t.vc.c[t.id];
        r.mask = (r.tid == t.id && r.clk == ck) ? (r.mask | mask) : mask;
        r.tid = t.id; r.clk = ck; r.pc = (uint32_t)pc;
      }
    }
    a += k; n -= k;
  }
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { if (tracked()) access((uintptr_t)p, n, false, PC); } \
  void __tsan_write##n(void *p) { if (tracked()) access((uintptr_t)p, n, true, PC); } \
  void __tsan_unaligned_read##n(void *p) { if (tracked()) access((uintptr_t)p, n, false, PC); } \
  void __tsan_unaligned_write##n(void *p) { if (tracked()) access((uintptr_t)p, n, true, PC); } \
  void __tsan_volatile_read##n(void *p) { if (tracked()) access((uintptr_t)p, n, false, PC); } \
  void __tsan_volatile_write##n(void *p) { if (tracked()) access((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (tracked() && n) access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (tracked() && n) access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (tracked() && *p != v) access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { if (tracked()) access((uintptr_t)p, 8, false, PC); }
}

// The instrumented objects' calls of memcpy & co. come here (bin/build.py renames them).
extern "C" {
void *mc_memcpy(void *p, const void *q, size_t n) { if (tracked() && n) { access((uintptr_t)q, n, false, PC); access((uintptr_t)p, n, true, PC); } return memcpy(p, q, n); }
void *mc_memmove(void *p, const void *q, size_t n) { if (tracked() && n) { access((uintptr_t)q, n, false, PC); access((uintptr_t)p, n, true, PC); } return memmove(p, q, n); }
int mc_memcmp(const void *p, const void *q, size_t n) { if (tracked() && n) { access((uintptr_t)p, n, false, PC); access((uintptr_t)q, n, false, PC); } return memcmp(p, q, n); }
void *mc_memset(void *p, int c, size_t n) {
  if (tracked() && n) access((uintptr_t)p, n, true, PC);
  uintptr_t a = (uintptr_t)p;
  if (c == 0 && n > (1u << 17) && a >= BIGA && a < BIGA + BIGSZ) {  // untouched pages are zero: do not touch them
    uintptr_t b = (a + 4095) & ~4095ull, e = (a + n) & ~4095ull;
    memset(p, 0, b - a); memset((void *)e, 0, a + n - e);
    if (raw6(SYS_madvise, b, e - b, MADV_DONTNEED, 0, 0, 0)) memset((void *)b, 0, e - b);
    return p;
  }
  return memset(p, c, n);
}
}

// ---------------------------------------------------------------- atomics
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static Obj *apoint(volatile void *p, uintptr_t pc, size_t n) {
  T &t = me();
  t.pc = pc;
  Obj *o = getobj((uintptr_t)p);
  point(OP_ATOMIC, (uintptr_t)p, o);
  if (cfg.uaf && in_heap((uintptr_t)p)) {
    uint8_t g = *gran((uintptr_t)p);
    if (g != 1) mc_fail("atomic access to %s heap memory %p by T%d at pc=0x%llx", g == 2 ? "freed" : "out-of-bounds", p, self_id, (unsigned long long)pc);
  }
  return o;
}
static void a_load(Obj *o, int mo) {
  T &t = me();
  ev(t, 1, o, false);
  if (o->has_vc) { if (is_acq(mo)) vc_join(t.vc, o->vc); else { if (!t.has_apend) { memset(&t.apend, 0, sizeof t.apend); t.has_apend = true; } vc_join(t.apend, o->vc); } }
}
static void a_store(Obj *o, int mo) {
  T &t = me();
  ev(t, 2, o, true);
  if (is_rel(mo)) rel_store(o);
  else if (t.has_frel) { o->vc = t.frel; o->has_vc = true; }
  else o->has_vc = false;
}
static void a_rmw(Obj *o, int mo) {
  T &t = me();
  ev(t, 3, o, true);
  if (o->has_vc) { if (is_acq(mo)) vc_join(t.vc, o->vc); else { if (!t.has_apend) { memset(&t.apend, 0, sizeof t.apend); t.has_apend = true; } vc_join(t.apend, o->vc); } }
  if (is_rel(mo)) rel_join(o);
  else if (t.has_frel) { if (!o->has_vc) { o->vc = t.frel; o->has_vc = true; } else vc_join(o->vc, t.frel); }
}
#define TRA(fmt, ...) do { if (tracef) trace("T%d pc=0x%llx " fmt "\n", self_id, (unsigned long long)PC, __VA_ARGS__); } while (0)
#define ATOMICS(N, TY) \
extern "C" TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { \
  if (!tracked()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
  Obj *o = apoint((volatile void *)p, PC, sizeof(TY)); TY v = *p; a_load(o, mo); TRA("load %p = %lld", (void *)p, (long long)v); return v; } \
extern "C" void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { \
  if (!tracked()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } \
  Obj *o = apoint(p, PC, sizeof(TY)); *p = v; a_store(o, mo); TRA("store %p = %lld", (void *)p, (long long)v); } \
extern "C" TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int mo) { \
  if (!tracked()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
  Obj *o = apoint(p, PC, sizeof(TY)); TY old = *p; *p = v; a_rmw(o, mo); TRA("xchg %p %lld -> %lld", (void *)p, (long long)old, (long long)v); return old; } \
extern "C" bool __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int mo, int fmo) { \
  if (!tracked()) return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  Obj *o = apoint(p, PC, sizeof(TY)); TY old = *p; bool ok = old == *c; \
  TRA("cas %p cur=%lld exp=%lld new=%lld", (void *)p, (long long)old, (long long)*c, (long long)v); \
  if (ok) { *p = v; a_rmw(o, mo); } else { a_load(o, fmo); *c = old; } return ok; } \
extern "C" bool __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int mo, int fmo) { \
  if (!tracked()) return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  Obj *o = apoint(p, PC, sizeof(TY)); TY old = *p; bool ok = old == *c; \
  TRA("casw %p cur=%lld exp=%lld new=%lld", (void *)p, (long long)old, (long long)*c, (long long)v); \
  if (ok) { *p = v; a_rmw(o, mo); } else { a_load(o, fmo); *c = old; } return ok; } \
extern "C" TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int fmo) { \
  __tsan_atomic##N##_compare_exchange_strong(p, &c, v, mo, fmo); return c; } \
RMW(N, TY, fetch_add, old + v, __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST)) \
RMW(N, TY, fetch_sub, old - v, __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST)) \
RMW(N, TY, fetch_and, old & v, __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST)) \
RMW(N, TY, fetch_or, old | v, __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST)) \
RMW(N, TY, fetch_xor, old ^ v, __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST)) \
RMW(N, TY, fetch_nand, ~(old & v), __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST))
#define RMW(N, TY, name, expr, nat) \
extern "C" TY __tsan_atomic##N##_##name(volatile TY *p, TY v, int mo) { \
  if (!tracked()) return nat; \
  Obj *o = apoint(p, PC, sizeof(TY)); TY old = *p; *p = (TY)(expr); a_rmw(o, mo); \
  TRA(#name " %p %lld (%lld)", (void *)p, (long long)old, (long long)v); return old; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int mo) {
  if (!tracked()) return;
  T &t = me();
  if (is_acq(mo) && t.has_apend) vc_join(t.vc, t.apend);
  if (is_rel(mo)) { t.frel = t.vc; t.has_frel = true; t.vc.c[t.id]++; }
}
extern "C" void __tsan_atomic_signal_fence(int) {}
// shared_ptr reference counts (shadow ext/atomicity.h): happens-before, no schedule point
// shared_ptr reference counts: steps of the schedule only with --refcounts (they
// are almost always irrelevant to the interleaving and numerous)
extern "C" int mc_refcnt_add(volatile int *p, int v) {
  if (tracked() && cfg.refpoints && !me().quiet) {
    Obj *o = getobj((uintptr_t)p); point(OP_ATOMIC, (uintptr_t)p, o); ev(me(), 30, o, true, v);
    if (tracef) trace("T%d refcount %p %+d\n", self_id, (void *)p, v);
  }
  int old = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);
  if (tracked()) {
    if (cfg.uaf && in_heap((uintptr_t)p) && *gran((uintptr_t)p) != 1) mc_fail("shared_ptr control block %p used after free by T%d", (void *)p, self_id);
    Obj *o = getobj((uintptr_t)p); T &t = me(); acq(o); rel_join(o); (void)t;
  }
  return old;
}

// ---------------------------------------------------------------- pthread interposition
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__) = real<ret (*)(__VA_ARGS__)>(#name)

static void do_lock(void *m, OpKind k = OP_LOCK) {
  Obj *o = getobj((uintptr_t)m);
  point(k, (uintptr_t)m, o);
  T &t = me();
  if (k == OP_RDLOCK) { o->count++; } else o->owner = self_id + 1;
  ev(t, 4, o, true);
  acq(o);
}
static void do_unlock(void *m) {
  Obj *o = getobj((uintptr_t)m);
  if (o->owner == 0 && o->count > 0) o->count--;
  else {
    if (o->owner != self_id + 1) mc_fail("unlock of mutex %p not owned by T%d (owner T%d)", m, self_id, o->owner - 1);
    o->owner = 0;
  }
  ev(me(), 5, o, true);
  rel_join(o);
}
static bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP; }
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!tracked()) { REAL(int, pthread_mutex_lock, pthread_mutex_t *); return in_exec ? 0 : r(m); }
  if (is_recursive(m)) { Obj *o = getobj((uintptr_t)m); if (o->owner == self_id + 1) { m->__data.__count++; return 0; } }
  me().timed = false;
  me().pc = PC;
  do_lock(m);
  if (tracef) trace("T%d pc=0x%llx lock %p\n", self_id, (unsigned long long)PC, (void *)m);
  return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!tracked()) { REAL(int, pthread_mutex_trylock, pthread_mutex_t *); return r(m); }
  Obj *o = getobj((uintptr_t)m);
  me().timed = false;
  if (is_recursive(m) && o->owner == self_id + 1) { m->__data.__count++; return 0; }
  point(OP_MISC, (uintptr_t)m, o, "trylock");
  ev(me(), 6, o, true);
  if (o->owner || o->count > 0) return EBUSY;
  o->owner = self_id + 1; acq(o);
  return 0;
}
static int timedlock(void *m, uint64_t dl) {
  T &t = me(); Obj *o = getobj((uintptr_t)m);
  t.timed = true; t.timedout = false; t.deadline = dl;
  point(OP_LOCK, (uintptr_t)m, o);
  t.timed = false; bool to = t.timedout; t.timedout = false;
  ev(t, 4, o, true);
  if (to && (o->owner || o->count > 0)) return ETIMEDOUT;
  o->owner = self_id + 1; acq(o);
  return 0;
}
static uint64_t ts_abs(clockid_t c, const timespec *ts);
extern "C" int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) {
  if (!tracked()) { REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const timespec *); return r(m, ts); }
  return timedlock(m, ts_abs(CLOCK_REALTIME, ts));
}
extern "C" int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts) {
  if (!tracked()) { REAL(int, pthread_mutex_clocklock, pthread_mutex_t *, clockid_t, const timespec *); return r(m, c, ts); }
  return timedlock(m, ts_abs(c, ts));
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!tracked()) { REAL(int, pthread_mutex_unlock, pthread_mutex_t *); return in_exec ? 0 : r(m); }
  if (is_recursive(m) && m->__data.__count > 0) { m->__data.__count--; return 0; }
  if (tracef) trace("T%d pc=0x%llx unlock %p\n", self_id, (unsigned long long)PC, (void *)m);
  do_unlock(m);
  return 0;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!tracked()) { REAL(int, pthread_mutex_destroy, pthread_mutex_t *); return in_exec ? 0 : r(m); }
  Obj *o = getobj((uintptr_t)m);
  if (o->owner) mc_fail("destroying locked mutex %p (owner T%d)", (void *)m, o->owner - 1);
  return 0;
}
// rwlocks (std::shared_mutex)
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!tracked()) { REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *); return r(m); }
  Obj *o = getobj((uintptr_t)m); me().timed = false; point(OP_RDLOCK, (uintptr_t)m, o); o->count++; ev(me(), 4, o, true); acq(o); return 0; }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!tracked()) { REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *); return r(m); }
  me().timed = false; do_lock(m); return 0; }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!tracked()) { REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *); return r(m); }
  Obj *o = getobj((uintptr_t)m); point(OP_MISC, (uintptr_t)m, o); ev(me(), 6, o, true); if (o->owner) return EBUSY; o->count++; acq(o); return 0; }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!tracked()) { REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *); return r(m); }
  Obj *o = getobj((uintptr_t)m); point(OP_MISC, (uintptr_t)m, o); ev(me(), 6, o, true); if (o->owner || o->count > 0) return EBUSY; o->owner = self_id + 1; acq(o); return 0; }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!tracked()) { REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *); return r(m); }
  do_unlock(m); return 0; }

// condition variables
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t dl) {
  T &t = me();
  Obj *o = getobj((uintptr_t)c);
  // entering the wait is a step of its own: a notifier that does not hold the mutex can
  // come between the caller's test of its predicate and here
  t.timed = false;
  point(OP_MISC, (uintptr_t)c, o, "cond-wait-enter");
  ev(t, 7, o, true);
  do_unlock(m);
  t.woken = false; t.timed = timed; t.timedout = false; t.deadline = dl;
  if (tracef) trace("T%d pc=0x%llx cond-wait %p%s\n", self_id, (unsigned long long)PC, (void *)c, timed ? " (timed)" : "");
  point(OP_COND, (uintptr_t)c, o);
  bool to = t.timedout && !t.woken;
  t.woken = false; t.timed = false; t.timedout = false;
  ev(t, 8, o, true);
  do_lock(m);
  if (tracef) trace("T%d cond-wait %p returns %s\n", self_id, (void *)c, to ? "timeout" : "woken");
  return to ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!tracked()) { REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *); return r(c, m); }
  return cond_wait(c, m, false, 0);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
  if (!tracked()) { REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const timespec *); return r(c, m, ts); }
  return cond_wait(c, m, true, ts_abs(CLOCK_REALTIME, ts));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) {
  if (!tracked()) { REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *); return r(c, m, k, ts); }
  return cond_wait(c, m, true, ts_abs(k, ts));
}
static void cond_wake(void *c, bool all) {
  Obj *o = getobj((uintptr_t)c);
  point(OP_NOTIFY, (uintptr_t)c, o);
  int w[MAXT], n = 0;
  for (int i = 0; i < nth; ++i) if (!th[i].finished && th[i].op == OP_COND && th[i].addr == (uintptr_t)c && !th[i].woken && !th[i].timedout) w[n++] = i;
  ev(me(), 9, o, true, n);
  if (tracef) trace("T%d pc=0x%llx notify_%s %p (%d waiters)\n", self_id, (unsigned long long)PC, all ? "all" : "one", c, n);
  if (!n) return;
  if (all) { for (int i = 0; i < n; ++i) th[w[i]].woken = true; }
  else th[w[n > 1 ? mc_choose(n, "which waiter") : 0]].woken = true;
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
  if (!tracked()) { REAL(int, pthread_cond_signal, pthread_cond_t *); return in_exec ? 0 : r(c); }
  cond_wake(c, false); return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!tracked()) { REAL(int, pthread_cond_broadcast, pthread_cond_t *); return in_exec ? 0 : r(c); }
  cond_wake(c, true); return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t *c) {
  if (!tracked()) { REAL(int, pthread_cond_destroy, pthread_cond_t *); return in_exec ? 0 : r(c); }
  return 0;
}
// once
extern "C" int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!tracked()) { REAL(int, pthread_once, pthread_once_t *, void (*)(void)); return r(o, fn); }
  Obj *ob = getobj((uintptr_t)o);
  T &t = me(); t.timed = false;
  point(OP_GUARD, (uintptr_t)o, ob);
  ev(t, 10, ob, true); acq(ob);
  if (*o == 2) return 0;
  ob->owner = self_id + 1;
  try { fn(); } catch (...) { ob->owner = 0; throw; }
  *o = 2; ob->owner = 0; ev(me(), 11, ob, true); rel_join(ob);
  return 0;
}
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(int64_t *g) {
  volatile char *b = (volatile char *)g;
  if (!tracked()) { if (*b) return 0; return 1; }
  Obj *o = getobj((uintptr_t)g ^ 0x7ull << 56);
  if (*b) { acq(o); return 0; }
  T &t = me(); t.timed = false;
  point(OP_GUARD, (uintptr_t)g, o);
  ev(t, 10, o, true); acq(o);
  if (*b) return 0;
  o->owner = self_id + 1;
  return 1;
}
extern "C" void __cxa_guard_release(int64_t *g) {
  *(volatile char *)g = 1;
  if (!tracked()) return;
  Obj *o = getobj((uintptr_t)g ^ 0x7ull << 56);
  o->owner = 0; ev(me(), 11, o, true);
  Obj *a = getobj((uintptr_t)g); rel_join(o); rel_join(a);
}
extern "C" void __cxa_guard_abort(int64_t *g) {
  if (!tracked()) return;
  Obj *o = getobj((uintptr_t)g ^ 0x7ull << 56); o->owner = 0; rel_join(o);
}
}
// semaphores (POSIX) are not used by libstdc++ 13 on Linux; interpose minimally
// threads
static void *thread_main(void *a) {
  T &t = *(T *)a;
  self_id = t.id;
  take(t);
  if (tracef) trace("T%d start\n", t.id);
  t.ret = t.fn(t.arg);
  if (tracef) trace("T%d exit\n", t.id);
  Obj *o = getobj((uintptr_t)&t);
  ev(t, 12, o, true); rel_join(o);
  t.finished = true; t.op = OP_NONE;
  run_scheduler(true);
  return nullptr;
}
static int spawn(T &t) {
  REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  pthread_attr_t at; pthread_attr_init(&at);
  uintptr_t st = STACKS + t.id * STACK_PER_T;
  pthread_attr_setstack(&at, (void *)st, STACK_PER_T);
  pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  int e = r(&t.real, &at, thread_main, &t);
  pthread_attr_destroy(&at);
  return e;
}
static T &new_thread() {
  if (nth >= MAXT) mc_fail("INTERNAL: too many threads (%d)", MAXT);
  T &t = th[nth]; memset(&t, 0, sizeof t); t.id = nth; t.used = true; t.op = OP_START;
  t.brk = (char *)(ARENA + t.id * HEAP_PER_T);
  t.vc.c[t.id] = 1;
  nth++;
  return t;
}
extern "C" int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!tracked()) { REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); return r(out, at, fn, arg); }
  point(OP_CREATE, 0, nullptr);
  T &t = new_thread();
  t.fn = fn; t.arg = arg;
  T &m = me();
  for (int i = 0; i < MAXT; ++i) if (i != t.id) t.vc.c[i] = m.vc.c[i];
  m.vc.c[m.id]++;
  m.h = mix(m.h, 0xC4EA7E + t.id);
  t.h = mix(m.h, t.id);
  if (spawn(t)) mc_fail("INTERNAL: pthread_create failed");
  *out = t.real;
  if (tracef) trace("T%d pc=0x%llx create T%d\n", self_id, (unsigned long long)PC, t.id);
  return 0;
}
static T *find_thread(pthread_t p) { for (int i = 0; i < nth; ++i) if (th[i].real == p) return &th[i]; return nullptr; }
extern "C" int pthread_join(pthread_t p, void **ret) {
  if (!tracked()) { REAL(int, pthread_join, pthread_t, void **); return r(p, ret); }
  T *x = find_thread(p);
  if (!x) mc_fail("join of unknown thread");
  if (x->id == self_id) return EDEADLK;
  T &t = me();
  t.jt = x->id; t.timed = false;
  point(OP_JOIN, (uintptr_t)x, nullptr);
  t.jt = 0;
  Obj *o = getobj((uintptr_t)x);
  ev(t, 13, o, true); acq(o);
  if (ret) *ret = x->ret;
  if (tracef) trace("T%d join T%d\n", self_id, x->id);
  return 0;
}
extern "C" int pthread_detach(pthread_t p) {
  if (!tracked()) { REAL(int, pthread_detach, pthread_t); return r(p); }
  T *x = find_thread(p); if (x) x->detached = true; return 0;
}
extern "C" int pthread_setname_np(pthread_t, const char *) { return 0; }
extern "C" int sched_yield() { if (tracked()) { point(OP_YIELD, 0, nullptr); me().op = OP_MISC; return 0; } return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }

// ---------------------------------------------------------------- time
constexpr uint64_t RT_BASE = 1700000000ull * 1000000000ull;
constexpr uint64_t MONO_BASE = 1000ull * 1000000000ull;
static uint64_t clk_base(clockid_t c) { return (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? RT_BASE : MONO_BASE; }
static uint64_t ts_abs(clockid_t c, const timespec *ts) {
  uint64_t b = clk_base(c);
  if (ts->tv_sec < 0) return 0;
  __uint128_t v = (__uint128_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if (v > (__uint128_t)1 << 62) return (uint64_t)1 << 61;
  return v <= b ? 0 : (uint64_t)(v - b);
}
static uint64_t ts_rel(const timespec *ts) {
  __uint128_t v = (__uint128_t)ts->tv_sec * 1000000000ull + ts->tv_nsec + vnow;
  if (ts->tv_sec < 0) return vnow;
  if (v > (__uint128_t)1 << 62) return (uint64_t)1 << 61;
  return (uint64_t)v;
}
static void clock_read() { T &t = me(); t.h = mix(mix(t.h, 0xC10C), clock_obj.h); clock_obj.rs += mix(t.h, 3); }
extern "C" uint64_t mc_now_ns(void) { if (tracked()) clock_read(); return vnow; }
extern "C" int mc_early_timeouts(void) { return used_t; }
extern "C" void mc_advance_ns(uint64_t ns) { T &t = me(); vnow += ns; t.h = mix(mix(t.h, clock_obj.h), mix(clock_obj.rs, vnow)); clock_obj.h = t.h; clock_obj.rs = 0; }
extern "C" int clock_gettime(clockid_t c, timespec *ts) noexcept {
  if (!tracked()) return (int)raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  clock_read();
  uint64_t v = vnow + clk_base(c);
  ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
  return 0;
}
extern "C" time_t time(time_t *o) noexcept {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec;
}
// localtime() fills a buffer shared by all threads.
extern "C" struct tm *localtime(const time_t *t) noexcept {
  REAL(struct tm *, localtime, const time_t *);
  if (!tracked()) return r(t);
  static uint64_t shared;   // stands for libc's buffer in the race detector
  access((uintptr_t)&shared, sizeof shared, true, PC);
  return r(t);
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
static int do_sleep(uint64_t dl) {
  T &t = me(); t.timed = true; t.timedout = false; t.deadline = dl;
  point(OP_SLEEP, 0, nullptr);
  t.timed = false; t.timedout = false;
  return 0;
}
extern "C" int nanosleep(const timespec *ts, timespec *) {
  if (!tracked()) return (int)raw6(SYS_nanosleep, (long)ts, 0, 0, 0, 0, 0);
  return do_sleep(ts_rel(ts));
}
extern "C" int clock_nanosleep(clockid_t c, int fl, const timespec *ts, timespec *) {
  if (!tracked()) return (int)raw6(SYS_clock_nanosleep, c, fl, (long)ts, 0, 0, 0);
  return do_sleep((fl & TIMER_ABSTIME) ? ts_abs(c, ts) : ts_rel(ts));
}
extern "C" int usleep(useconds_t us) { timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
extern "C" unsigned sleep(unsigned s) { timespec ts{(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }

// ---------------------------------------------------------------- futex via syscall()
static long do_futex(uint32_t *addr, int op, uint32_t val, const timespec *ts) {
  T &t = me();
  int cmd = op & 127;
  bool rt = op & FUTEX_CLOCK_REALTIME;
  Obj *q = getobj((uintptr_t)addr ^ 0x9ull << 56);
  Obj *o = getobj((uintptr_t)addr);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    t.timed = false;
    point(OP_MISC, (uintptr_t)addr, q, "futex-wait-enter");
    ev(t, 20, q, true); ev(t, 21, o, false);
    if (cfg.uaf && in_heap((uintptr_t)addr) && *gran((uintptr_t)addr) != 1) mc_fail("futex wait on freed memory %p", (void *)addr);
    if (*(volatile uint32_t *)addr != val) { errno = EAGAIN; return -1; }
    t.woken = false; t.timedout = false; t.timed = ts != nullptr;
    if (ts) t.deadline = cmd == FUTEX_WAIT ? ts_rel(ts) : ts_abs(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
    if (tracef) trace("T%d futex-wait %p val=%u\n", self_id, (void *)addr, val);
    point(OP_FUTEX, (uintptr_t)addr, q);
    bool to = t.timedout && !t.woken;
    t.timed = false; t.timedout = false; t.woken = false;
    ev(t, 22, q, true);
    if (to) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    t.timed = false;
    point(OP_NOTIFY, (uintptr_t)addr, q, "futex-wake");
    int w[MAXT], n = 0;
    for (int i = 0; i < nth; ++i) if (!th[i].finished && th[i].op == OP_FUTEX && th[i].addr == (uintptr_t)addr && !th[i].woken && !th[i].timedout) w[n++] = i;
    ev(t, 23, q, true, n);
    int k = 0;
    if (tracef) trace("T%d futex-wake %p n=%u (%d waiters)\n", self_id, (void *)addr, val, n);
    while (n > 0 && (uint32_t)k < val) {
      int i = ((uint32_t)n > val - k && n > 1) ? mc_choose(n, "which futex waiter") : 0;
      th[w[i]].woken = true; w[i] = w[--n]; ++k;
    }
    return k;
  }
  mc_fail("INTERNAL: unsupported futex op %d", op);
}
extern "C" long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (tracked() && n == SYS_futex) return do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const timespec *)d);
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ---------------------------------------------------------------- crash capture
extern "C" void __assert_fail(const char *ex, const char *file, unsigned line, const char *fn) noexcept {
  if (in_exec) mc_fail("assertion failed: %s (%s:%u %s)", ex, file, line, fn);
  fprintf(stderr, "assert %s %s:%u\n", ex, file, line); abort();
}
static void on_terminate() {
  if (!in_exec) abort();
  const char *w = "?";
  static char b[512];
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception &x) { snprintf(b, sizeof b, "%s: %s", typeid(x).name(), x.what()); w = b; }
    catch (...) { w = "non-std exception"; }
  } else w = "no active exception";
  mc_fail("std::terminate called in T%d (%s)", self_id, w);
}
static void on_sig(int s) {
  if (in_exec) {
    if (s == SIGPROF || s == SIGALRM) { char b[800] = ""; describe_threads(b, sizeof b); mc_fail("hang: a thread computes without reaching a synchronisation step; current T%d; threads:%s", curtid, b); }
    mc_fail("crash: signal %d in T%d", s, self_id);
  }
  signal(s, SIG_DFL); raise(s);
}
// exception_ptr reference counts live in libstdc++.so: add the happens-before edges by hand
extern "C" void __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *);
extern "C" void __wrap__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *p) {
  void *x = *(void **)p;
  if (tracked() && x) { Obj *o = getobj((uintptr_t)x ^ 0xbull << 56); rel_join(o); acq(o); }
  __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(p);
}

extern "C" void __cxa_end_catch() {
  static void (*re)() = real<void (*)()>("__cxa_end_catch");
  if (tracked()) { std::exception_ptr e = std::current_exception(); }   // its release adds the edges
  re();
}

// ---------------------------------------------------------------- scenarios
struct Scn { const char *name; mc_scenario_fn fn; const char *doc; };
static Scn scns[512]; static int nscn;
mc_scenario_reg::mc_scenario_reg(const char *n, mc_scenario_fn f, const char *d) { scns[nscn++] = {n, f, d}; }
static Scn *the;
void mc_net_reset() __attribute__((weak));

static void *scenario_main(void *) {
  the->fn();
  // joined or not, the scenario is over
  trace("scenario end\n");
  finish(ST_OK);
}

static void mapfix(uintptr_t a, uint64_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { perror("mmap fixed"); exit(2); }
}

static void child_exec() {
  struct rlimit rl; getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl);
  stack_t ss{}; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  struct itimerval it{}; it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr);
  std::set_terminate(on_terminate);
  W->status = ST_RUNNING; W->nrec = 0; W->msg[0] = 0; W->steps = 0;
  clock_obj.addr = 1;
  bigbrk = (char *)BIGA;
  T &t = new_thread();
  t.fn = scenario_main;
  t.go = 1;
  curtid = 0;
  if (mc_net_reset) mc_net_reset();
  in_exec = true;
  if (spawn(t)) { fprintf(stderr, "spawn failed\n"); _exit(3); }
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

static void glock() { while (__atomic_exchange_n(&G->lock, 1, __ATOMIC_ACQUIRE)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static void gunlock() { __atomic_store_n(&G->lock, 0, __ATOMIC_RELEASE); }
static double nowd() { timespec ts; raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0); return ts.tv_sec + ts.tv_nsec / 1e9; }

static void push(int lvl, const uint8_t *p, int n) {
  Stack &s = G->st[lvl];
  if (s.top + n + 8 > SLAB) { G->dropped++; return; }
  memcpy(slab[lvl] + s.top, p, n); s.top += n;
  memcpy(slab[lvl] + s.top, &n, 4); s.top += 4;
  s.count++;
}
static bool pop(uint8_t *p, int *n, int *lvl) {
  for (int l = 0; l < MAXLEVEL; ++l) {
    Stack &s = G->st[l];
    if (!s.count) continue;
    s.top -= 4; memcpy(n, slab[l] + s.top, 4);
    s.top -= *n; memcpy(p, slab[l] + s.top, *n);
    s.count--; *lvl = l;
    return true;
  }
  return false;
}
static int run_one() {
  W->status = ST_RUNNING; W->nrec = 0;
  pid_t pid = fork();
  if (pid < 0) { usleep(1000); return -1; }
  if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); child_exec(); }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (W->status == ST_RUNNING) {
    if (WIFSIGNALED(st)) snprintf(W->msg, sizeof W->msg, "crash: execution killed by signal %d", WTERMSIG(st));
    else snprintf(W->msg, sizeof W->msg, "crash: process exited with status %d inside the execution", WEXITSTATUS(st));
    W->status = ST_VIOL;
  }
  return 0;
}

static void worker(int id, double deadline) {
  cpu_set_t cs; CPU_ZERO(&cs);
  long nc = sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(id % (nc > 0 ? nc : 1), &cs); sched_setaffinity(0, sizeof cs, &cs);
  W = W + id;
  static uint8_t buf[MAXREC];
  for (;;) {
    if (G->stop) break;
    int n, lvl;
    glock();
    bool got = pop(W->prefix, &n, &lvl);
    if (got) G->active++;
    bool done = !got && G->active == 0;
    gunlock();
    if (!got) { if (done) break; usleep(300); continue; }
    if (nowd() > deadline) { glock(); G->stop = 2; G->active--; push(lvl, W->prefix, n); gunlock(); break; }
    W->nprefix = n;
    while (run_one() < 0) {}
    int st = W->status;
    if (st == ST_VIOL) {
      // determinism: the same choices must fail again
      static uint8_t ch[MAXREC]; int nr = W->nrec; char msg[4000]; strcpy(msg, W->msg);
      for (int i = 0; i < nr; ++i) ch[i] = W->rec[i].chosen;
      memcpy(W->prefix, ch, nr); W->nprefix = nr;
      bool ok = true;
      for (int k = 0; k < 2; ++k) { while (run_one() < 0) {} if (W->status != ST_VIOL) ok = false; }
      glock();
      if (!G->viol && ok) {
        G->viol = 1; G->viol_nrec = nr; memcpy(G->viol_choice, ch, nr); strcpy(G->viol_msg, msg); G->viol_confirmed = ok;
        G->stop = 1;
      }
      if (!ok) { G->diverge++; if (!G->viol_msg[0]) strcpy(G->viol_msg, msg); }
      G->active--; G->execs++;
      gunlock();
      continue;
    }
    glock();
    G->execs++; G->execs_at_level[lvl]++;
    G->steps += W->steps;
    if (st == ST_OK) {
      G->okexecs++;
      if (lvl >= G->sample_lvl && G->sample_cnt++ % 7 == 0) {
        G->sample_lvl = lvl; int o = snprintf(G->sample, sizeof G->sample, "%d decisions, %llu steps; non-default choices (decision:choice/alternatives by thread):", W->nrec, (unsigned long long)W->steps);
        for (int i = 0; i < W->nrec && o < (int)sizeof G->sample - 40; ++i) if (W->rec[i].chosen) o += snprintf(G->sample + o, sizeof G->sample - o, " %d:%d/%d@t%d", i, W->rec[i].chosen, W->rec[i].n, W->rec[i].tid);
      }
    }
    if (st == ST_PRUNED) G->pruned++;
    if (st == ST_DIVERGE) { G->diverge++; if (!G->viol_msg[0]) strcpy(G->viol_msg, W->msg); }
    if (st == ST_OVERFLOW) G->overflow++;
    if ((uint64_t)W->nrec > G->maxdepth) G->maxdepth = W->nrec;
    if (st != ST_DIVERGE) {
      int p = 0, t = 0, f = 0;
      for (int i = 0; i < W->nrec; ++i) {
        Rec &r = W->rec[i];
        if (i >= n) {
          G->decisions++;
          for (int j = r.n - 1; j >= 0; --j) {
            if (j == r.chosen) continue;
            int np = p + (r.dp >> j & 1), nt = t + (r.dt >> j & 1), nf = f + (r.df >> j & 1);
            if (np > cfg.maxP || nt > cfg.maxT || nf > cfg.maxF) continue;
            memcpy(buf, W->prefix, n < i ? n : i);
            for (int k = n; k < i; ++k) buf[k] = W->rec[k].chosen;
            buf[i] = j;
            int L = np + nt; if (L >= MAXLEVEL) L = MAXLEVEL - 1;
            push(L, buf, i + 1);
          }
        }
        p += r.dp >> r.chosen & 1; t += r.dt >> r.chosen & 1; f += r.df >> r.chosen & 1;
      }
    }
    G->active--;
    gunlock();
  }
  _exit(0);
}

static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); }
  fputc('"', f);
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    auto is = [&](const char *n) { return !strcmp(argv[i], n); };
    if (is("--list")) { for (int k = 0; k < nscn; ++k) printf("%s\t%s\n", scns[k].name, scns[k].doc); return 0; }
    else if (is("-p")) cfg.maxP = atoi(argv[++i]);
    else if (is("-t")) cfg.maxT = atoi(argv[++i]);
    else if (is("-s")) cfg.maxS = atoi(argv[++i]);
    else if (is("-f")) cfg.maxF = atoi(argv[++i]);
    else if (is("-w")) cfg.workers = atoi(argv[++i]);
    else if (is("-b")) cfg.budget = atof(argv[++i]);
    else if (is("--steps")) cfg.maxsteps = atoi(argv[++i]);
    else if (is("--no-races")) cfg.races = 0;
    else if (is("--no-uaf")) cfg.uaf = 0;
    else if (is("--refcounts")) cfg.refpoints = 1;
    else if (is("--no-cache")) cfg.nocache = true;
    else if (is("--out")) cfg.out = argv[++i];
    else if (is("--replay-out")) cfg.replay_out = argv[++i];
    else if (is("--replay")) cfg.replay = argv[++i];
    else if (is("-v")) cfg.verbose = true;
    else cfg.scenario = argv[i];
  }
  static char scbuf[200];
  static uint8_t rch[MAXREC]; int nr = 0;
  if (cfg.replay) {
    FILE *f = fopen(cfg.replay, "r"); if (!f) { perror(cfg.replay); return 2; }
    char line[65536];
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "scenario ", 9)) { sscanf(line + 9, "%199s", scbuf); cfg.scenario = scbuf; }
      if (!strncmp(line, "bounds ", 7)) sscanf(line + 7, "p=%d t=%d s=%d f=%d races=%d uaf=%d ref=%d", &cfg.maxP, &cfg.maxT, &cfg.maxS, &cfg.maxF, &cfg.races, &cfg.uaf, &cfg.refpoints);
      if (!strncmp(line, "choices", 7)) { char *q = line + 7; int v, c; while (sscanf(q, "%d%n", &v, &c) == 1) { rch[nr++] = v; q += c; } }
    }
    fclose(f);
  }
  if (!cfg.scenario) { fprintf(stderr, "usage: %s SCENARIO [-p N] [-t N] [-s N] [-b SEC] [--replay FILE] | --list\n", argv[0]); return 2; }
  for (int k = 0; k < nscn; ++k) if (!strcmp(scns[k].name, cfg.scenario)) the = &scns[k];
  if (!the) { fprintf(stderr, "no scenario %s\n", cfg.scenario); return 2; }

  auto shm = [](uint64_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; };
  G = (Shared *)shm(sizeof(Shared));
  W = (WorkerShm *)shm(sizeof(WorkerShm) * 64);
  vkey = (std::atomic<uint64_t> *)shm(VTAB * 8);
  for (int l = 0; l < MAXLEVEL; ++l) slab[l] = (uint8_t *)shm(SLAB);
  mapfix(ARENA, ARENA_END - ARENA);
  mapfix(BIGA, BIGSZ);
  mapfix(SHADOW, ((ARENA_END - ARENA) >> 3) * sizeof(Cell));
  mapfix(GSHADOW, (((uintptr_t)&_end - (uintptr_t)&__data_start) / 8 + 16) * sizeof(Cell));
  mapfix(GRAN, (STACKS - ARENA) / 16);
  // preload what lazily allocates
  { try { throw 1; } catch (...) {} }
  if (!cfg.replay && !cfg.verbose) { int dn = open("/dev/null", O_WRONLY); fflush(stdout); dup2(dn, 3); }
  double t0 = nowd();
  if (cfg.replay) {
    replaying = true;
    tracef = stdout;
    W->nprefix = nr; memcpy(W->prefix, rch, nr);
    run_one();
    printf("status=%d decisions=%d steps=%llu %s\n", W->status, W->nrec, (unsigned long long)W->steps, W->msg);
    return W->status == ST_VIOL ? 1 : W->status == ST_OK ? 0 : 3;
  }
  int so = dup(1), se = dup(2);
  if (!cfg.verbose) { int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2); }
  push(0, nullptr, 0);
  pid_t pids[64];
  for (int i = 0; i < cfg.workers; ++i) { pids[i] = fork(); if (!pids[i]) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(i, t0 + cfg.budget); } }
  for (int i = 0; i < cfg.workers; ++i) { int st; waitpid(pids[i], &st, 0); }
  dup2(so, 1); dup2(se, 2);
  uint64_t pending = 0; int lowest = -1;
  for (int l = 0; l < MAXLEVEL; ++l) { pending += G->st[l].count; if (G->st[l].count && lowest < 0) lowest = l; }
  bool complete = !G->viol && !pending && !G->dropped && !G->overflow && !G->diverge && G->active == 0;
  if (G->viol && cfg.replay_out) {
    FILE *f = fopen(cfg.replay_out, "w");
    if (f) {
      fprintf(f, "scenario %s\nbounds p=%d t=%d s=%d f=%d races=%d uaf=%d ref=%d\nmessage %s\nchoices", cfg.scenario, cfg.maxP, cfg.maxT, cfg.maxS, cfg.maxF, cfg.races, cfg.uaf, cfg.refpoints, G->viol_msg);
      for (int i = 0; i < G->viol_nrec; ++i) fprintf(f, " %d", G->viol_choice[i]);
      fputc('\n', f); fclose(f);
    }
  }
  FILE *f = cfg.out ? fopen(cfg.out, "w") : stdout;
  fprintf(f, "{\"scenario\":\"%s\",\"doc\":", cfg.scenario); json_str(f, the->doc);
  fprintf(f, ",\"bounds\":{\"preemptions\":%d,\"early_timeouts\":%d,\"spurious\":%d,\"free_switch_deviations\":%d},", cfg.maxP, cfg.maxT, cfg.maxS, cfg.maxF);
  fprintf(f, "\"executions\":%llu,\"completed_executions\":%llu,\"pruned_executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"decisions\":%llu,\"max_depth\":%llu,",
          (unsigned long long)G->execs, (unsigned long long)G->okexecs, (unsigned long long)G->pruned, (unsigned long long)G->visited_n, (unsigned long long)G->steps, (unsigned long long)G->decisions, (unsigned long long)G->maxdepth);
  fprintf(f, "\"complete\":%s,\"completed_cost_level\":%d,\"pending\":%llu,\"diverged\":%llu,\"overflow\":%llu,\"wall_s\":%.2f,\"violation\":%s",
          complete ? "true" : "false", complete ? cfg.maxP + cfg.maxT : lowest - 1, (unsigned long long)pending, (unsigned long long)G->diverge, (unsigned long long)G->overflow, nowd() - t0, G->viol ? "true" : "false");
  if (G->viol || G->viol_msg[0]) { fprintf(f, ",\"message\":"); json_str(f, G->viol_msg); }
  fprintf(f, ",\"samples\":["); json_str(f, G->sample); fprintf(f, "]}\n");
  if (cfg.out) fclose(f);
  return G->viol ? 1 : 0;
}
