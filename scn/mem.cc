// The memory pool: blocks handed out and given back by several threads.
#include "common.h"
#include "plain/sys/memory/pool.h"
#include <cstdint>
using plain::memory::Pool;
// A block is its owner's alone: every owner fills it with plain writes, so a block handed out twice is a data race, a changed
// byte, or an overlap in the ledger.
typedef Pool<96, 2, 16, false, false> Small;    // at most 3 blocks of 16 bytes per leaf, no operating system behind it
typedef Pool<96, 1, 16, true, true> Backed;
template <class P> static void *take(P &p, int n, int tag) { auto *b = static_cast<unsigned char *>(p.malloc(n)); if (b) { MC_CHECK((uintptr_t)b % alignof(std::max_align_t) == 0, "block of %d bytes at an unaligned address", n); for (int i = 0; i < n; ++i) b[i] = tag; } return b; }
template <class P> static void give(P &p, void *b, int n, int tag) { if (!b) return; auto *c = static_cast<unsigned char *>(b); for (int i = 0; i < n; ++i) MC_CHECK(c[i] == tag, "byte %d of a block owned by %d was changed to %d", i, tag, c[i]); MC_CHECK(p.check_access(b, c, n), "the owner may not use its block"); p.free(b); }
// everything is back: the whole capacity can be handed out again
template <class P> static void all_back(P &p, int leaves) {
  std::vector<void *> v; int n = 0;
  while (void *b = p.malloc(16)) { for (void *o : v) MC_CHECK((char *)b >= (char *)o + 16 || (char *)o >= (char *)b + 16, "two blocks overlap"); v.push_back(b); memset(b, 7, 16); if (++n > 100) break; }
  MC_CHECK(n == 3 * leaves, "after everything was freed only %d of %d blocks are available", n, 3 * leaves);
  for (void *b : v) p.free(b);
}
MC_SCENARIO(mp_two, "two threads take and return blocks of several sizes") {
  Small p; int s = mc_choose(3, "size"); int n = s == 0 ? 16 : s == 1 ? 1 : 40;
  auto w = [&](int tag) { void *a = take(p, n, tag); void *b = take(p, 16, tag + 1); give(p, a, n, tag); void *c = take(p, 16, tag + 2); give(p, b, 16, tag + 1); give(p, c, 16, tag + 2); };
  std::thread t([&] { w(1); }); w(11); t.join();
  all_back(p, 2);
}
MC_SCENARIO(mp_three, "three threads, one leaf: each takes and returns twice") {
  Pool<96, 1, 16, false, false> p;
  auto w = [&](int tag, int k) { for (int i = 0; i < k; ++i) { void *a = take(p, 16, tag); give(p, a, 16, tag); } };
  std::thread t([&] { w(1, 2); }), u([&] { w(2, 1); }); w(3, 2); t.join(); u.join();
  all_back(p, 1);
}
MC_SCENARIO(mp_pass, "blocks are returned by another thread than the one that took them") {
  Pool<96, 1, 16, false, false> p; void *b[2]; std::atomic<int> ready{0};
  for (int i = 0; i < 2; ++i) b[i] = take(p, 16, i);
  std::thread t([&] { give(p, b[0], 16, 0); void *x = take(p, 16, 5); give(p, x, 16, 5); });
  give(p, b[1], 16, 1); void *y = take(p, 16, 6); void *z = take(p, 16, 7); give(p, y, 16, 6); t.join(); give(p, z, 16, 7);
  all_back(p, 1);
}
MC_SCENARIO(mp_full, "two threads ask for more than there is: exactly what fits is handed out, the rest comes from the system") {
  Backed p; void *a[3], *b[3];
  std::thread t([&] { for (int i = 0; i < 3; ++i) a[i] = take(p, 16, 1 + i); });
  for (int i = 0; i < 3; ++i) b[i] = take(p, 16, 11 + i);
  t.join();
  for (int i = 0; i < 3; ++i) MC_CHECK(a[i] && b[i], "no block");
  std::thread u([&] { for (int i = 0; i < 3; ++i) give(p, a[i], 16, 1 + i); });
  for (int i = 0; i < 3; ++i) give(p, b[i], 16, 11 + i);
  u.join();
}
