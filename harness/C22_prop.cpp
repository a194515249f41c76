// prop at every cursor position, time and proposition.
#include "trace.h"
HARNESS {
  B_t b;
  fill(b);
  int lm = 0;
  T_t tr(b, lm);
  open(tr, LEN);
  int i0 = place(tr, LEN + 1);
  timespan t = (timespan)nd(), tt = t;
  proposition p = (proposition)nd(), pp = p;
  size_t c0 = tr.get_cursor();
  three_valued_type r = prop<T_t>(tr, pp, tt), ref = T_UNKNOWN;
  for (int i = 0; i + 1 < LEN; i++)
    if (i == i0 && TM[i] <= t && t < TM[i + 1]) ref = (proposition)DT[i] == p ? T_TRUE : T_FALSE;
  OBS(r);
  CHECK(r == ref);
  CHECK(tt == t && pp == p && tr.get_cursor() == c0);
#if LEN > 1
  if (r == T_TRUE) REACH();
  if (r == T_FALSE) REACH();
#endif
  if (r == T_UNKNOWN) REACH();
}
