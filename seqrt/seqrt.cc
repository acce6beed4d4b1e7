// Driver of the sequential enumerator: see seq/seq.h.
#include "seq.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <typeinfo>
#include <unistd.h>
#include <ftw.h>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=4:hard_rss_limit_mb=3000"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }

namespace {
constexpr int MAXC = 4096, MAXW = 16;
constexpr uint64_t VT = 1ull << 26;
struct WS {                                   // one per worker, shared
  volatile uint64_t cases, skipped, steps, transitions;
  volatile int running, done, fin;
  int nc; uint32_t ch[MAXC], n[MAXC];
  char msg[6000]; volatile int viol;
};
struct GS { std::atomic<uint64_t> states; std::atomic<int> stop; char sample[4][600]; int nsample; };
WS *W, *me; GS *G; std::atomic<uint64_t> *vt;
struct Sc { const char *name; void (*fn)(); const char *doc; };
Sc scs[256]; int nsc;
uint32_t script[MAXC]; int nscript;           // choices to follow
int pos; uint64_t shard_prod, shard_idx; bool shard_done;
bool skip_pending; int nw = 8, wid; bool replaying, thor;
std::string scratch_dir; char notebuf[600];
struct Skip {}; struct Fail {};
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int rmf(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
}

namespace seq {
Reg::Reg(const char *n, void (*f)(), const char *d) { scs[nsc++] = {n, f, d}; }
bool thorough() { return thor; }
const std::string &scratch() { return scratch_dir; }
uint64_t hash(const void *p, size_t n, uint64_t h) { auto b = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; } return h; }
std::string hex(std::string_view s) { std::string r; char t[4]; for (unsigned char c : s) { snprintf(t, sizeof t, "%02x", c); r += t; } return r; }
int choose(int n, const char *tag) {
  if (n <= 1) return 0;
  if (pos >= MAXC) fail("harness: too many choices");
  uint32_t c = pos < nscript ? script[pos] : 0;
  if (c >= (uint32_t)n) { if (replaying) { fprintf(stderr, "replay out of range\n"); exit(3); } fail("harness: nondeterministic choice count at %d (%s)", pos, tag); }
  me->ch[pos] = c; me->n[pos] = n; me->nc = ++pos;
  if (!shard_done && !replaying) {
    shard_idx = shard_idx * n + c; shard_prod *= n;
    if (shard_prod >= 256) { shard_done = true; uint64_t x = shard_idx * 0x9e3779b97f4a7c15ull; if ((int)((x >> 40) % nw) != wid) throw Skip{}; }
  }
  if (replaying) fprintf(stderr, "choice %d/%d %s\n", c, n, tag);
  return c;
}
int choose_noexcept(int n, const char *tag) {
  try { return choose(n, tag); } catch (Skip &) { skip_pending = true; return me->ch[pos - 1]; }
}
bool flag(const char *t) { return choose(2, t); }
void step(uint64_t n) { me->transitions += n; if (skip_pending) throw Skip{}; }
bool first_visit(uint64_t h) {
  if (h == 0) h = 1;
  uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 38;
  for (int k = 0; k < 4096; ++k, i = (i + 1) & (VT - 1)) {
    uint64_t v = vt[i].load(std::memory_order_relaxed);
    if (v == h) return false;
    if (v == 0 && vt[i].compare_exchange_strong(v, h)) { G->states++; return true; }
    if (v == h) return false;
  }
  return true;
}
void state(uint64_t h) { first_visit(h); }
void skip() { throw Skip{}; }
void note(const char *fmt, ...) {
  char b[400]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (replaying) fprintf(stderr, "%s\n", b);
  size_t l = strlen(notebuf); if (l + strlen(b) + 3 < sizeof notebuf) { strcat(notebuf, b); strcat(notebuf, "; "); }
}
void fail(const char *fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(me->msg, sizeof me->msg, fmt, a); va_end(a);
  if (notebuf[0]) { strncat(me->msg, " | ", sizeof me->msg - strlen(me->msg) - 1); strncat(me->msg, notebuf, sizeof me->msg - strlen(me->msg) - 1); }
  me->viol = 1;
  _exit(9);
}
}

static void on_term() {
  const char *what = ""; const char *ty = "?";
  try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (std::exception &e) { what = e.what(); ty = typeid(e).name(); } catch (...) { ty = "non-std"; }
  seq::fail("std::terminate called (%s: %s)", ty, what);
}

static void run_case(Sc *s) {
  pos = 0; skip_pending = false; shard_prod = 1; shard_idx = 0; shard_done = false; notebuf[0] = 0; me->nc = 0;
  bool ok = true;
  try { s->fn(); if (skip_pending) ok = false; }
  catch (Skip &) { ok = false; }
  catch (std::exception &e) { seq::fail("uncaught exception %s: %s", typeid(e).name(), e.what()); }
  if (ok && !shard_done && !replaying && wid != 0) ok = false;   // shorter than a shard: only worker 0 counts it
  if (ok) {
    me->cases = me->cases + 1;
    uint64_t c = me->cases;
    if (notebuf[0] && wid < 4 && (c & (c - 1)) == 0) { strncpy(G->sample[wid], notebuf, 599); }
  } else me->skipped = me->skipped + 1;
}
static bool next() {                            // depth-first successor of the last run
  int i = me->nc - 1;
  while (i >= 0 && me->ch[i] + 1 >= me->n[i]) --i;
  if (i < 0) return false;
  for (int k = 0; k < i; ++k) script[k] = me->ch[k];
  script[i] = me->ch[i] + 1; nscript = i + 1;
  return true;
}
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

int main(int argc, char **argv) {
  const char *scn = nullptr, *out = nullptr, *rep = nullptr, *repout = nullptr; double budget = 60; bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    auto is = [&](const char *x) { return !strcmp(argv[i], x); };
    if (is("--list")) { for (int k = 0; k < nsc; ++k) printf("%s\t%s\n", scs[k].name, scs[k].doc); return 0; }
    else if (is("-b")) budget = atof(argv[++i]);
    else if (is("-w")) nw = atoi(argv[++i]);
    else if (is("--out")) out = argv[++i];
    else if (is("--replay")) rep = argv[++i];
    else if (is("--replay-out")) repout = argv[++i];
    else if (is("--thorough")) thor = true;
    else if (is("-v")) verbose = true;
    else scn = argv[i];
  }
  Sc *s = nullptr;
  for (int k = 0; k < nsc; ++k) if (scn && !strcmp(scs[k].name, scn)) s = &scs[k];
  if (!s) { fprintf(stderr, "no scenario %s\n", scn ? scn : ""); return 2; }
  auto shm = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
  W = (WS *)shm(sizeof(WS) * MAXW); G = (GS *)shm(sizeof(GS)); vt = (std::atomic<uint64_t> *)shm(VT * 8);
  char tmpl[] = "/tmp/vpseq.XXXXXX"; std::string root = mkdtemp(tmpl);
  double t0 = now();
  if (rep) {
    FILE *f = fopen(rep, "r"); if (!f) { perror(rep); return 2; }
    static char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "thorough", 8)) thor = true;
      if (!strncmp(line, "choices", 7)) { char *q = line + 7; int v, c; while (sscanf(q, "%d%n", &v, &c) == 1) { script[nscript++] = v; q += c; } }
    }
    fclose(f); replaying = true; nw = 1;
  }
  fflush(stdout);
  pid_t pid[MAXW];
  std::string errf[MAXW];
  for (int i = 0; i < nw; ++i) {
    errf[i] = root + "/err" + std::to_string(i);
    pid[i] = fork();
    if (pid[i] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      wid = i; me = W + i; me->running = 1;
      struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      scratch_dir = root + "/w" + std::to_string(i); mkdir(scratch_dir.c_str(), 0700);
      if (!replaying) {
        int dn = open("/dev/null", O_RDWR); dup2(dn, 0); if (!verbose) dup2(dn, 1);
        int ef = open(errf[i].c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); if (!verbose) dup2(ef, 2);
      }
      std::set_terminate(on_term);
      for (uint64_t k = 0;; ++k) {
        run_case(s);
        if (replaying) { me->fin = 1; _exit(0); }
        if ((k & 63) == 0 && (G->stop || now() > t0 + budget)) _exit(0);
        if (!next()) break;
      }
      me->fin = 1;
      _exit(0);
    }
  }
  uint64_t last[MAXW] = {}; double lastt[MAXW] = {}, lastc[MAXW] = {}, tprev = now(); bool gone[MAXW] = {};
  auto cpu_of = [](pid_t p) { char b[64]; snprintf(b, sizeof b, "/proc/%d/stat", (int)p); unsigned long u = 0, k = 0; if (FILE *f = fopen(b, "r")) { char l[600] = ""; if (fgets(l, sizeof l, f)) if (char *q = strrchr(l, ')')) { if (sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &k) != 2) u = k = 0; } fclose(f); } return (double)(u + k) / sysconf(_SC_CLK_TCK); };
  int left = nw, viol = -1; bool complete = true; char msg[9000] = "";
  while (left) {
    bool any = false;
    double tn = now(), tick = std::min(tn - tprev, 0.05); tprev = tn;
    for (int i = 0; i < nw; ++i) {
      if (gone[i]) continue;
      int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
      if (r == pid[i]) {
        gone[i] = true; --left; any = true;
        if (W[i].viol || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          if (viol < 0 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
            viol = i;
            if (W[i].viol) snprintf(msg, sizeof msg, "%s", W[i].msg);
            else {
              std::string t; if (FILE *f = fopen(errf[i].c_str(), "r")) { char b[3000]; size_t n = fread(b, 1, sizeof b, f); t.assign(b, n); fclose(f); }
              size_t p = t.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = t.find("runtime error"); if (p == std::string::npos) p = 0;
              else { size_t q = t.rfind('\n', p); p = q == std::string::npos ? 0 : q + 1; }
              if (WIFSIGNALED(st)) snprintf(msg, sizeof msg, "crash (signal %d): %s", WTERMSIG(st), t.substr(p, 1500).c_str());
              else snprintf(msg, sizeof msg, "process exited with status %d inside a run: %s", WEXITSTATUS(st), t.substr(p, 1500).c_str());
            }
            G->stop = 1;
          } else if (viol < 0) { complete = false; viol = -2; snprintf(msg, sizeof msg, "worker killed"); viol = -1; }
          complete = false;
        } else if (!W[i].fin) complete = false;
        continue;
      }
      uint64_t c = W[i].cases + W[i].skipped + W[i].transitions;
      // 30 s of its own processor time, or 150 s asleep (a paused or starved machine does not count)
      if (c != last[i]) { last[i] = c; lastt[i] = 0; lastc[i] = -1; }
      else if ((lastt[i] += tick) > 10 && viol < 0) {
        double cpu = cpu_of(pid[i]); if (lastc[i] < 0) lastc[i] = cpu;
        if (cpu - lastc[i] < 30 && lastt[i] < 150) continue;
        viol = i; snprintf(msg, sizeof msg, "the code under test does not return (no progress in %.0f s of processor time)", cpu - lastc[i]); G->stop = 1; complete = false; kill(pid[i], SIGKILL);
      }
    }
    if (!any) usleep(2000);
    if (viol >= 0) for (int i = 0; i < nw; ++i) if (!gone[i]) kill(pid[i], SIGKILL);
  }
  nftw(root.c_str(), rmf, 32, FTW_DEPTH | FTW_PHYS);
  if (rep) { if (msg[0]) printf("%s\n", msg); return viol >= 0 ? 1 : 0; }
  if (viol >= 0 && repout) if (FILE *f = fopen(repout, "w")) {
    fprintf(f, "scenario %s\n%smessage ", s->name, thor ? "thorough\n" : ""); for (char *p = msg; *p; ++p) fputc(*p == '\n' ? ' ' : *p, f);
    fprintf(f, "\nchoices"); for (int k = 0; k < W[viol].nc; ++k) fprintf(f, " %u", W[viol].ch[k]); fprintf(f, "\n"); fclose(f);
  }
  uint64_t cases = 0, tr = 0; for (int i = 0; i < nw; ++i) { cases += W[i].cases; tr += W[i].transitions; }
  FILE *f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"scenario\":\"%s\",\"doc\":", s->name); jstr(f, s->doc);
  fprintf(f, ",\"bounds\":{\"tier\":\"%s\"},\"executions\":%llu,\"completed_executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"complete\":%s,\"diverged\":0,\"wall_s\":%.2f,\"violation\":%s,\"samples\":[", thor ? "thorough" : "quick",
          (unsigned long long)cases, (unsigned long long)cases, (unsigned long long)G->states, (unsigned long long)tr, complete && viol < 0 ? "true" : "false", now() - t0, viol >= 0 ? "true" : "false");
  bool c1 = false; for (auto &x : G->sample) if (x[0]) { if (c1) fputc(',', f); c1 = true; jstr(f, x); }
  fprintf(f, "]"); if (msg[0]) { fprintf(f, ",\"message\":"); jstr(f, msg); } fprintf(f, "}\n");
  if (out) fclose(f);
  return viol >= 0 ? 1 : 0;
}
