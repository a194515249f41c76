// One operator on arbitrary traces; operands are arbitrary three-valued tables over the events, read at the cursor, and
// leave the cursor wherever they like.
#include "ref.h"
static V V1[LEN], V2[LEN];
struct A1 { static V at(int i) { return V1[i]; } };
struct A2 { static V at(int i) { return V2[i]; } };
static inline void mess(T_t &tr) {
  unsigned k = nd_rng(0, 2);
  if (k == 1) tr.increment_cursor();
  if (k == 2) tr.decrement_cursor();
}
struct S {
  static V eval_phi1(T_t &tr, timespan &t) {
    int i = at(tr);
    CHECK(i < LEN);    // operands are only evaluated at events of the window
    CHECK(t == TM[i]); // at the event's own time
    mess(tr);
    return V1[i];
  }
  static V eval_phi2(T_t &tr, timespan &t) {
    int i = at(tr);
    CHECK(i < LEN);
    CHECK(t == TM[i]);
    mess(tr);
    return V2[i];
  }
};
#define UNTIL 1
#define ALWAYS 2
#define EVEQ 3
#define ALEQ 4
#define EVUNB 5
#define SINCE 6
#define HIST 7
#define PASTEQ 8
#define HISTEQ 9
#define DUR 10
HARNESS {
  B_t b;
  fill(b);
  int lm = 0;
  T_t tr(b, lm);
  open(tr, LEN);
  int i0 = place(tr, LEN);
  for (int i = 0; i < LEN; i++) { V1[i] = nd3(); V2[i] = nd3(); }
  timespan t = (timespan)nd();
  const timespan bnd = (timespan)BND;
  ASSUME(t >= 0 && t < (timespan)TMAX);
#if OP >= SINCE
  // the cursor is at an event at or before t
  for (int i = 0; i < LEN; i++) if (i == i0) ASSUME(TM[i] <= t);
#endif
  size_t c0 = tr.get_cursor();
  timespan tt = t;
#if OP == DUR
  duration d = duration_term<T_t, S, (timespan)BND>(tr, tt);
  OBS(d.second);
  CHECK(tr.get_cursor() == c0);
  CHECK(tt == t);
  Dur x = ref_dur<A1>(i0, t, bnd);
  if (!d.second) CHECK((timespan)d.first == x.v);
  if (x.must_unknown) CHECK(d.second);
  if (x.must_known) CHECK(!d.second);
  if (!d.second && d.first > 0 && d.first < bnd) REACH();
  if (d.second) REACH();
  if (!d.second && d.first == bnd) REACH();
#else
  V r, ref;
#if OP == UNTIL
  r = until_less<T_t, S, (timespan)BND>(tr, tt);
  ref = ref_until<A1, A2>(i0, t, bnd);
#elif OP == ALWAYS
  r = always_less<T_t, S, (timespan)BND>(tr, tt);
  ref = ref_always<A1>(i0, t, bnd);
#elif OP == EVEQ
  r = eventually_equal<T_t, S, (timespan)BND>(tr, tt);
  ref = ref_eveq<A1>(i0, t, bnd);
#elif OP == ALEQ
  r = always_equal<T_t, S, (timespan)BND>(tr, tt);
  ref = ref_eveq<A1>(i0, t, bnd);
#elif OP == EVUNB
  r = eventually_less_unbounded<T_t, S>(tr, tt);
  ref = ref_evunb<A1>(i0);
#elif OP == SINCE
  r = since_less<T_t, S, (timespan)BND>(tr, tt);
  ref = ref_since<A1, A2>(i0, t, bnd);
#elif OP == HIST
  r = historically_less<T_t, S, (timespan)BND>(tr, tt);
  ref = ref_hist<A1>(i0, t, bnd);
#elif OP == PASTEQ
  r = pasteventually_equal<T_t, S, (timespan)BND>(tr, tt);
  ref = ref_pasteq<A1>(i0, t, bnd);
#elif OP == HISTEQ
  r = historically_equal<T_t, S, (timespan)BND>(tr, tt);
  ref = ref_pasteq<A1>(i0, t, bnd);
#endif
  OBS(r);
  CHECK(tr.get_cursor() == c0);
  CHECK(tt == t);
  CHECK(r == ref);
#if BND > 1 || OP < SINCE || OP == PASTEQ || OP == HISTEQ // otherwise no event lies strictly between t-b and t
  if (r == T_TRUE) REACH();
  if (r == T_FALSE) REACH();
#if LEN > 1
  if (decided >= 0 && decided != i0 && r != T_UNKNOWN) REACH();
#endif
#endif
  if (r == T_UNKNOWN) REACH();
  if (decided < 0) REACH();
#endif
}
