// Evaluating an operator changes nothing observable and always returns, for every cursor position (also one past the last
// event), every window (also an empty one), operands of any value that leave the cursor anywhere.
#include "ref.h"
static V V1[LEN + 2], V2[LEN + 2];
static inline void mess(T_t &tr) {
  unsigned k = nd_rng(0, 3);
  if (k == 1) tr.increment_cursor();
  if (k == 2) tr.decrement_cursor();
  if (k == 3) tr.reset();
}
static int evals;
struct S {
  static V eval_phi1(T_t &tr, timespan &t) { V v = V1[at(tr)]; evals++; mess(tr); return v; }
  static V eval_phi2(T_t &tr, timespan &t) { V v = V2[at(tr)]; evals++; mess(tr); return v; }
};
static inline V ev(T_t &tr, timespan &t, timeabs &val) {
  val = 0;
#if OP == 1
  return until_less<T_t, S, (timespan)BND>(tr, t);
#elif OP == 2
  return always_less<T_t, S, (timespan)BND>(tr, t);
#elif OP == 3
  return eventually_equal<T_t, S, (timespan)BND>(tr, t);
#elif OP == 4
  return always_equal<T_t, S, (timespan)BND>(tr, t);
#elif OP == 5
  return eventually_less_unbounded<T_t, S>(tr, t);
#elif OP == 6
  return since_less<T_t, S, (timespan)BND>(tr, t);
#elif OP == 7
  return historically_less<T_t, S, (timespan)BND>(tr, t);
#elif OP == 8
  return pasteventually_equal<T_t, S, (timespan)BND>(tr, t);
#elif OP == 9
  return historically_equal<T_t, S, (timespan)BND>(tr, t);
#elif OP == 10
  duration d = duration_term<T_t, S, (timespan)BND>(tr, t);
  val = d.first;
  return d.second ? T_UNKNOWN : T_TRUE;
#elif OP == 11
  evals++;
  return prop(tr, (proposition)1, t);
#elif OP == 12
  return until_less<T_t, S, (timespan)BND, with_in_between>(tr, t);
#endif
}
HARNESS {
  B_t b;
  fill(b);
  int lm = 0;
  T_t tr(b, lm), fresh(b, lm);
  open(tr, LEN);
  int i0 = place(tr, LEN + 1);
  for (int i = 0; i < LEN + 2; i++) { V1[i] = nd3(); V2[i] = nd3(); }
  timespan t = (timespan)nd();
  ASSUME(t >= 0 && t < (timespan)TMAX);
  timespan tt = t;
  size_t c0 = tr.get_cursor(), l0 = tr.length(), k0 = tr.consumed(), b0, t0, b1, t1, bl = b.length();
  b.state(b0, t0);
  E_t s0[CAP + 1];
  for (int i = 0; i <= CAP; i++) b.read(s0[i], i);
  timeabs x1, x2;
  V r1 = ev(tr, tt, x1);
  CHECK(tt == t);
  CHECK(tr.get_cursor() == c0);
  CHECK(tr.length() == l0 && tr.consumed() == k0);
  V r2 = ev(tr, tt, x2);
  OBS(r1); OBS(r2);
  CHECK(r1 == r2);
  if (r1 != T_UNKNOWN) CHECK(x1 == x2);
  CHECK(tt == t);
  CHECK(tr.get_cursor() == c0);
  CHECK(tr.length() == l0 && tr.consumed() == k0);
  b.state(b1, t1);
  CHECK(b0 == b1 && t0 == t1 && b.length() == bl);
  for (int i = 0; i <= CAP; i++) {
    E_t e;
    CHECK(b.read(e, i) == b.OK);
    CHECK(e == s0[i]);
  }
  open(fresh, LEN); // what is in the buffer for others is still the same
  REACH();
#ifndef AT
  if (i0 == LEN) REACH();
#endif
  if (evals > 0) REACH();
}
