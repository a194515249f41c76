// until with in-between sampling: every sample is taken at the event in force, and as long as the samples stay in the interval
// of their event the verdict is the one without sampling.
#include "ref.h"
static V V1[LEN], V2[LEN];
struct A1 { static V at(int i) { return V1[i]; } };
struct A2 { static V at(int i) { return V2[i]; } };
static int current, foreign, samples;
static timespan limit; // t + bound
static inline void mess(T_t &tr) {
  unsigned k = nd_rng(0, 2);
  if (k == 1) tr.increment_cursor();
  if (k == 2) tr.decrement_cursor();
}
static inline int look(T_t &tr, timespan t) {
  int i = at(tr);
  CHECK(i < LEN);
  CHECK(TM[i] <= t);
  if (i + 1 < LEN) CHECK(t < TM[i + 1]);
  if (TM[i] == t) {
    if (samples && (t >= limit || i > current + 1)) foreign = 1; // a sample that hits the time of a later event
    current = i;
  }
  else {
    CHECK(i + 1 < LEN); // samples only where the next event is known
    samples++;
    if (i != current) foreign = 1;
  }
  return i;
}
struct S {
  static V eval_phi1(T_t &tr, timespan &t) { int i = look(tr, t); mess(tr); return V1[i]; }
  static V eval_phi2(T_t &tr, timespan &t) { int i = look(tr, t); mess(tr); return V2[i]; }
};
HARNESS {
  B_t b;
  fill(b);
  int lm = 0;
  T_t tr(b, lm);
  open(tr, LEN);
  int i0 = place(tr, LEN);
  for (int i = 0; i < LEN; i++) { V1[i] = nd3(); V2[i] = nd3(); }
  timespan t = (timespan)nd();
  ASSUME(t >= 0 && t < (timespan)TMAX);
  limit = t + BND;
  size_t c0 = tr.get_cursor();
  timespan tt = t;
  V r = until_less<T_t, S, (timespan)BND, with_in_between>(tr, tt);
  OBS(r);
  CHECK(tr.get_cursor() == c0);
  CHECK(tt == t);
  if (!foreign) {
    V x = ref_until<A1, A2>(i0, t, (timespan)BND);
    CHECK(r == x);
    if (r == T_TRUE) REACH();
    if (r == T_FALSE) REACH();
    if (r == T_UNKNOWN) REACH();
#if AT + 2 < LEN
    if (samples > 0) REACH();
#endif
  }
#if AT + 3 < LEN
  if (foreign) REACH();
#endif
}
