// Connectives, nested directly as macros, against strong Kleene logic defined by completions of unknown.
#include "vf.h"
#include <rmtld3/rmtld3.h>
typedef three_valued_type V;
// reference: the set of classical values each operand may stand for, bit0 = true possible, bit1 = false possible
static unsigned poss(V v) { return v == T_TRUE ? 1 : v == T_FALSE ? 2 : 3; }
static V from(unsigned s) { return s == 1 ? T_TRUE : s == 2 ? T_FALSE : T_UNKNOWN; }
static V ref_or(V a, V b) {
  unsigned s = 0, x = poss(a), y = poss(b);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
    if ((x >> i & 1) && (y >> j & 1)) s |= (i == 0 || j == 0) ? 1 : 2;
  return from(s);
}
static V ref_and(V a, V b) {
  unsigned s = 0, x = poss(a), y = poss(b);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
    if ((x >> i & 1) && (y >> j & 1)) s |= (i == 0 && j == 0) ? 1 : 2;
  return from(s);
}
static V ref_not(V a) { return a == T_TRUE ? T_FALSE : a == T_FALSE ? T_TRUE : T_UNKNOWN; }
static V nd3() { return (V)nd_rng(0, 2); }
HARNESS {
  V a = nd3(), b = nd3(), c = nd3(), d = nd3();
  V r;
  r = b3_or(a, b); CHECK(r == ref_or(a, b)); OBS(r);
  r = b3_and(a, b); CHECK(r == ref_and(a, b)); OBS(r);
  r = b3_not(a); CHECK(r == ref_not(a)); OBS(r);
  // nestings, the macros applied to each other
  r = b3_or(b3_or(a, b), c); CHECK(r == ref_or(ref_or(a, b), c));
  r = b3_or(a, b3_or(b, c)); CHECK(r == ref_or(a, ref_or(b, c)));
  r = b3_and(b3_and(a, b), c); CHECK(r == ref_and(ref_and(a, b), c));
  r = b3_and(a, b3_and(b, c)); CHECK(r == ref_and(a, ref_and(b, c)));
  r = b3_or(b3_and(a, b), b3_and(c, d)); CHECK(r == ref_or(ref_and(a, b), ref_and(c, d)));
  r = b3_and(b3_or(a, b), b3_or(c, d)); CHECK(r == ref_and(ref_or(a, b), ref_or(c, d)));
  r = b3_not(b3_or(a, b)); CHECK(r == ref_not(ref_or(a, b)));
  r = b3_not(b3_and(a, b)); CHECK(r == ref_not(ref_and(a, b)));
  r = b3_or(b3_not(a), b3_and(b, b3_not(c))); CHECK(r == ref_or(ref_not(a), ref_and(b, ref_not(c))));
  r = b3_not(b3_not(a)); CHECK(r == a);
  // operands that are expressions
  r = b3_or(a == T_TRUE ? b : c, d); CHECK(r == ref_or(a == T_TRUE ? b : c, d));
  r = b3_and(d, a == T_TRUE ? b : c); CHECK(r == ref_and(d, a == T_TRUE ? b : c));
  r = b3_not(a == T_TRUE ? b : c); CHECK(r == ref_not(a == T_TRUE ? b : c));
  // used inside a larger expression
  bool q = b3_or(a, b) == T_TRUE; CHECK(q == (ref_or(a, b) == T_TRUE));
  q = b3_and(a, b) == T_FALSE; CHECK(q == (ref_and(a, b) == T_FALSE));
  // four-valued domain
  four_valued_type f = b3_to_b4(a);
  CHECK(f != FV_SYMBOL);
  V back = b4_to_b3(f);
  CHECK(back == a);
  four_valued_type g = b3_to_b4(b);
  CHECK((f == g) == (a == b));
  CHECK((f == FV_TRUE) == (a == T_TRUE) && (f == FV_FALSE) == (a == T_FALSE) && (f == FV_UNKNOWN) == (a == T_UNKNOWN));
  back = b4_to_b3((b3_to_b4(a))); CHECK(back == a);
  if (a == T_UNKNOWN && b == T_TRUE) REACH();
  if (a == T_FALSE && b == T_UNKNOWN && c == T_TRUE) REACH();
}
