// A definite verdict stays the same after further events.
#include "form.h"
HARNESS {
  B_t b;
  fill(b);
  int lm = 0;
  T_t tr(b, lm);
  open(tr, LEN);
  int i0 = place(tr, LEN);
  timespan t = (timespan)nd();
  ASSUME(t >= 0 && t < (timespan)TMAX);
#if FORM >= 4 // past operators and the duration: the cursor is at an event at or before t
  for (int i = 0; i < LEN; i++) if (i == i0) ASSUME(TM[i] <= t);
#endif
  size_t c0 = tr.get_cursor();
  timespan tt = t;
#if FORM == 7
  duration d1 = duration_term<T_t, Ops<IP, IP>, K1>(tr, tt);
  V r1 = d1.second ? T_UNKNOWN : T_TRUE;
#else
  V r1 = F::ev(tr, tt);
#endif
  more(b);
  CHECK(tr.synchronize() == tr.AVAILABLE);
#ifdef AT
  tr.pin(b);
#endif
  CHECK(tr.get_cursor() == c0);
#if FORM == 7
  duration d2 = duration_term<T_t, Ops<IP, IP>, K1>(tr, tt);
  V r2 = d2.second ? T_UNKNOWN : T_TRUE;
  if (r1 == T_TRUE) CHECK(r2 == T_TRUE && d1.first == d2.first);
#else
  V r2 = F::ev(tr, tt);
#endif
  OBS(r1); OBS(r2);
  if (r1 != T_UNKNOWN) CHECK(r2 == r1);
#ifdef WT
  if (r1 == T_TRUE) REACH();
#endif
#ifdef WF
  if (r1 == T_FALSE) REACH();
#endif
#ifdef WU
  if (r1 == T_UNKNOWN && r2 == T_UNKNOWN) REACH();
#endif
  REACH();
#ifdef WX
  if (r1 == T_UNKNOWN && r2 != T_UNKNOWN) REACH();
#endif
}
