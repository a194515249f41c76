// set(t) from every starting position, for every 64-bit t.
#include "trace.h"
HARNESS {
  B_t b;
  fill(b);
  int lm = 0;
  T_t tr(b, lm);
  open(tr, LEN);
  int i0 = place(tr, LEN + 1);
  timespan t = (timespan)nd(), tt = t;
  T_t::error_t r = tr.set(tt);
  CHECK(tt == t);
  int hit = -1;
  for (int i = 0; i + 1 < LEN; i++)
    if (TM[i] <= t && t < TM[i + 1]) hit = i;
  OBS(r); OBS(tr.length());
  CHECK(tr.length() <= LEN);
  if (hit >= 0) {
    CHECK(r == tr.AVAILABLE);
    E_t e;
    CHECK(tr.read(e) == tr.AVAILABLE && e.getTime() == TM[hit]);
    CHECK(tr.length() == (size_t)(LEN - hit));
#if LEN > 1
    if (hit < i0) REACH();
    if (hit == i0) REACH();
#endif
  } else {
    CHECK(r == tr.UNAVAILABLE);
    if (t < TM[0]) REACH();
    if (t >= TM[LEN - 1]) REACH();
  }
#if LEN > 2
  if (hit > i0) REACH();
#endif
}
