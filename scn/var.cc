#include "common.h"
#include "plain/basic/type/variable.h"
// variable_t shared between threads: every operation but _get and c_str is
// atomic (all reads and writes of a variable happen under its mutex).
using plain::variable_t;
static double d(variable_t &v) { return v.to_double(); }
MC_SCENARIO(va_count, "two threads change one variable by every operator") {
  variable_t v((int32_t)10);
  int k = mc_choose(5, "operation");
  std::thread t([&] { switch (k) { case 0: ++v; break; case 1: v++; break; case 2: v += 1; break; case 3: v += variable_t((int32_t)1); break; default: v -= -1; } });
  switch (mc_choose(4, "own")) { case 0: --v; v--; break; case 1: v -= 2; break; case 2: v -= variable_t((int32_t)2); break; default: v--; v -= 1; }
  t.join();
  MC_CHECK(d(v) == 9, "10 + 1 - 2 gives %g", d(v));
}
MC_SCENARIO(va_assign, "one thread assigns texts, the other copies, compares and prints") {
  const std::string A(40, 'a'), B(60, 'b');
  variable_t v(A), src(B);
  int k = mc_choose(6, "reader");
  std::thread t([&] { if (mc_choose(2, "move")) { variable_t tmp(B); v = std::move(tmp); } else v = src; });
  std::string s;
  switch (k) {
    case 0: { variable_t c(v); s = c.get<std::string>(); break; }
    case 1: { variable_t c; c = v; s = c.get<std::string>(); break; }
    case 2: s = v.get<std::string>(); break;
    case 3: { std::ostringstream o; o << v; s = o.str(); break; }
    case 4: { bool e = v == src; s = e ? B : A; MC_CHECK(!(v > src) && (v < src || v == src), "order of two texts"); break; }
    default: s = (std::string)v;
  }
  MC_CHECK(s == A || s == B, "a text that was never assigned");
  t.join();
  MC_CHECK(v.get<std::string>() == B, "the assignment was lost");
}
MC_SCENARIO(va_cross, "two threads combine two variables in opposite directions") {
  variable_t a(1.5), b(4.0);
  int k = mc_choose(4, "operation");
  auto op = [k](variable_t &x, variable_t &y) { switch (k) { case 0: x += y; break; case 1: x = y; break; case 2: x *= y; break; default: { variable_t t(y); x = std::move(t); } } };
  std::thread t([&] { op(a, b); });
  op(b, a);
  t.join();
  double x = d(a), y = d(b);
  // the values read are those before or after the other thread's change
  bool ok = k == 0 ? (x == 5.5 || x == 1.5 + 5.5) && (y == 5.5 || y == 4 + 5.5) : k == 2 ? (x == 6 || x == 1.5 * 6) && (y == 6 || y == 4 * 6.0) : (x == 4 || x == 1.5) && (y == 1.5 || y == 4);
  MC_CHECK(ok, "a = %g, b = %g", x, y);
}
MC_SCENARIO(va_swap, "move assignment between two variables from two threads") {
  variable_t a(std::string("left")), b(std::string("right"));
  std::thread t([&] { a = std::move(b); });
  b = std::move(a);
  t.join();
  auto x = a.get<std::string>(), y = b.get<std::string>();
  MC_CHECK((x == "left" && y == "right") || (x == "right" && y == "left"), "'%s' and '%s'", x.c_str(), y.c_str());
}
