// Duration algebra for all values in the non-overflowing range.
#include "vf.h"
#include <rmtld3/rmtld3.h>
#ifdef __riscv // durations are unsigned there
#define LOW -1
#else
#define LOW -LIM
#endif
static int64_t val() { int64_t v = (int64_t)nd(); ASSUME(v > LOW && v < LIM); return v; }
HARNESS {
  int64_t x = val(), y = val();
  bool ux = nd_bool(), uy = nd_bool();
  duration a = make_duration(x, ux), b = make_duration(y, uy);
  CHECK(a.first == x && a.second == ux);
#if SUM
  duration s = sum_dur(a, b);
  CHECK(s.second == (ux || uy));
  CHECK(s.first == x + y);
  OBS(s.first);
  const duration z = make_duration(0, false);
  CHECK(sum_dur(a, z) == a);
  three_valued_type r = b3_lessthan(a, b);
  CHECK(r == ((ux || uy) ? T_UNKNOWN : x < y ? T_TRUE : T_FALSE));
  r = b3_not(b3_lessthan(b, a));
  CHECK(r == ((ux || uy) ? T_UNKNOWN : x <= y ? T_TRUE : T_FALSE));
  r = b3_lessthan(sum_dur(a, b), make_duration(0, false));
  CHECK(r == ((ux || uy) ? T_UNKNOWN : x + y < 0 ? T_TRUE : T_FALSE));
  r = b3_or(b3_lessthan(a, b), b3_lessthan(b, a));
  CHECK(r == ((ux || uy) ? T_UNKNOWN : x != y ? T_TRUE : T_FALSE));
  if (r == T_UNKNOWN) REACH();
#ifndef __riscv
  if (x < 0 && y > 0 && r == T_TRUE) REACH();
#endif
  if (x == y && r == T_FALSE) REACH();
#else
  duration m = mult_dur(a, b);
  CHECK(m.second == (ux || uy));
  CHECK(m.first == x * y);
  OBS(m.first); OBS(m.second);
  if (m.second) REACH();
#ifndef __riscv
  if (m.first < 0) REACH();
#endif
#endif
  CHECK(a.first == x && a.second == ux && b.first == y && b.second == uy);
}
