// state()/length()/debug() against the pending events, in every history.
#include "vf.h"
#include <circularbuffer.h>
#ifndef DATA
#define DATA unsigned int
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef PREPULL
#define PREPULL 0
#endif
typedef Event<DATA> E;
typedef RTML_buffer<E, CAP> B;
static inline bool same(const E &a, const E &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
static E m[PRE + OPS + 1];
static int lo, hi;
static void look(const B &b) {
  size_t bo, to, b2, t2;
  timespanw tb, tt;
  CHECK(b.state(bo, to) == B::OK);
  CHECK(bo <= CAP && to <= CAP);
  CHECK(b.state(b2, t2, tb, tt) == B::OK);
  CHECK(b2 == bo && t2 == to);
  E eb, et;
  CHECK(b.read(eb, bo) == B::OK && b.read(et, to) == B::OK);
  CHECK(eb.getTime() == tb && et.getTime() == tt);
  CHECK(b.length() == (size_t)(hi - lo));
  size_t q = bo;
  int k = lo;
  for (int i = 0; i <= CAP; i++) {
    if (q == to) break;
    E x;
    CHECK(k < hi);
    CHECK(b.read(x, q) == B::OK && same(x, m[k]));
    k++;
    q = q == CAP ? 0 : q + 1;
  }
  CHECK(q == to && k == hi);
  OBS(bo); OBS(to);
}
HARNESS {
  B b;
  lo = hi = 0;
  for (int i = 0; i < PRE; i++) {
    E e((DATA)i, 1000 + i);
    m[hi++] = e;
    b.push(e);
    if (hi - lo > CAP) lo++;
  }
  for (int i = 0; i < PREPULL; i++) { E x; b.pull(x); lo++; }
  bool full = false;
  for (int i = 0; i < OPS; i++) {
    unsigned op = nd_rng(0, 2);
    E e((DATA)(i + 1), (timespan)(100 + i)), x;
    if (op == 0) {
      m[hi++] = e;
      b.push(e);
      if (hi - lo > CAP) { lo++; full = true; }
    } else if (op == 1) { b.pull(x); if (lo != hi) lo++; }
    else { b.pop(x); if (lo != hi) hi--; }
    CHECK(b.length() == (size_t)(hi - lo));
  }
  look(b);
  b.debug();
  look(b);
  if (full || CAP > OPS) REACH();
#if OPS >= PRE - PREPULL
  if (lo == hi) REACH();
#endif
  if (hi - lo == CAP) REACH();
}
