// Stateless model checker for real multi-threaded C++ code: scenario API.
// A scenario is an ordinary C++ function that uses the library under test.
// Every synchronisation operation it (and the library) performs is a visible
// step of a controlled scheduler; the driver enumerates all schedules within
// the configured bounds.
#pragma once
#include <cstdint>
#include <cstddef>
#ifdef __cplusplus
extern "C" {
#endif

// Nondeterministic data choice in [0,n): the explorer enumerates every value.
int mc_choose(int n, const char *tag);
// Report a violation of the property under check (does not return).
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
// Append to the global (totally ordered) observation log. Not a schedule point,
// but part of the state identity.
void mc_log(int64_t v);
int mc_log_size(void);
int64_t mc_log_at(int i);
// Shared counter usable from scenario code (ordered like mc_log, no schedule point).
int64_t mc_cnt_add(int idx, int64_t v);
int64_t mc_cnt(int idx);
// Block until counter idx >= n (a hang is reported as a deadlock).
void mc_wait_cnt(int idx, int64_t n, const char *what);
// Virtual time in nanoseconds; advances only when a timed wait expires.
uint64_t mc_now_ns(void);
void mc_advance_ns(uint64_t ns);
// Timeouts that fired although some thread could still run (bounded by -t).
int mc_early_timeouts(void);
// Current checker thread id (0 = scenario thread).
int mc_tid(void);
int mc_thread_count(void);        // threads created so far (incl. scenario)
int mc_thread_finished(int tid);
// A schedule point (always enabled).
void mc_yield_point(const char *tag);
// Block until pred(arg) is true; re-evaluated by the scheduler.
void mc_block_until(int (*pred)(void *), void *arg, const char *tag);
// Same with a timeout in virtual time; returns 1 if pred became true, 0 on timeout
int mc_block_until_for(int (*pred)(void *), void *arg, uint64_t ns, const char *tag);
// Run a region without any schedule points (scenario setup). Nestable.
void mc_quiet_begin(void);
void mc_quiet_end(void);
// Let every other thread run until none is enabled (quiescence) w/o advancing time
// when advance_time==0.
void mc_quiesce(int advance_time);
// A thread may legitimately be blocked forever when the scenario ends.
int mc_is_replay(void);
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// HB edge helpers for scenario code: release/acquire on a private object
void mc_hb_release(void *obj);
void mc_hb_acquire(void *obj);
#ifdef __cplusplus
}
#endif

typedef void (*mc_scenario_fn)(void);
struct mc_scenario_reg { mc_scenario_reg(const char *name, mc_scenario_fn fn, const char *doc); };
#define MC_SCENARIO(name, doc) static void mc_scn_##name(void); \
  static mc_scenario_reg mc_reg_##name(#name, mc_scn_##name, doc); \
  static void mc_scn_##name(void)
#define MC_CHECK(cond, ...) do { if (!(cond)) mc_fail(__VA_ARGS__); } while (0)
