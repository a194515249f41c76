// pop (mixed with pull and synchronize) on a synchronized reader.
#include "trace.h"
HARNESS {
  B_t b;
  fill(b);
  R_t r(b);
  r.synchronize();
  CHECK(r.length() == LEN);
  int lo = 0, hi = LEN;
  bool popped = false, pulled = false, empty = false;
  for (int i = 0; i < OPS; i++) {
    unsigned op = nd_rng(0, 2);
    E_t x(-7, -7);
    if (op == 0) {
      R_t::error_t e = r.pop(x);
      if (lo < hi) {
        hi--;
        CHECK(e == r.AVAILABLE && x.getTime() == TM[hi] && x.getData() == DT[hi]);
        popped = true;
      } else {
        CHECK(e == r.UNAVAILABLE && x.getTime() == -7 && x.getData() == -7);
        empty = true;
      }
    } else if (op == 1) {
      R_t::error_t e = r.pull(x);
      if (hi - lo > 1) {
        CHECK(e == r.AVAILABLE && x.getTime() == TM[lo] && x.getData() == DT[lo]);
        lo++;
        pulled = true;
      } else CHECK(e == r.UNAVAILABLE);
    } else { // popped events come back with the next synchronize
      r.synchronize();
      hi = LEN;
    }
    CHECK(r.length() == (size_t)(hi - lo));
    CHECK(r.gap() == r.NO_GAP);
    OBS(r.length());
  }
  if (popped && pulled) REACH();
#if OPS > LEN
  if (empty) REACH();
#endif
}
