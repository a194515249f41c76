// A nested formula against the composition of the reference semantics, on every trace.
#include "form.h"
HARNESS {
  B_t b;
  fill(b);
  int lm = 0;
  T_t tr(b, lm);
  open(tr, LEN);
  int i0 = place(tr, LEN);
  size_t c0 = tr.get_cursor();
  timespan t = TM[i0], tt = t;
  V r = F::ev(tr, tt);
  V x = RF::at(i0);
  OBS(r);
  CHECK(tt == t);
  CHECK(tr.get_cursor() == c0);
  CHECK(r == x);
#ifdef WT
  if (r == T_TRUE) REACH();
#endif
#ifdef WF
  if (r == T_FALSE) REACH();
#endif
#ifdef WU
  if (r == T_UNKNOWN) REACH();
#endif
  REACH();
}
