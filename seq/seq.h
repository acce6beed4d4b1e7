// Exhaustive enumerator for single-threaded behaviours of the real code.
// A scenario is a function that draws its operations and data from choose();
// the driver re-runs it for every combination of choices (depth-first, split
// over worker processes) and checks each run against the scenario's oracle.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
namespace seq {
int choose(int n, const char *tag = "");             // enumerate 0..n-1
int choose_noexcept(int n, const char *tag = "");    // choose() for callbacks that must not throw
bool flag(const char *tag = "");                     // choose(2)
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void step(uint64_t n = 1);                           // an operation applied to the code under test
void state(uint64_t h);                              // a state reached (counted when distinct)
bool first_visit(uint64_t h);                        // same, true if not seen by any worker so far
[[noreturn]] void skip();                            // abandon this run (duplicate / outside the space)
bool thorough();
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // visible when replaying, in samples
uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(std::string_view s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
std::string hex(std::string_view s);
const std::string &scratch();                        // a private scratch directory, removed at the end
struct Reg { Reg(const char *, void (*)(), const char *); };
}
#define SEQ_SCENARIO(name, doc) static void seq_scn_##name(); \
  static seq::Reg seq_reg_##name(#name, seq_scn_##name, doc); static void seq_scn_##name()
#define SEQ_CHECK(cond, ...) do { if (!(cond)) seq::fail(__VA_ARGS__); } while (0)
