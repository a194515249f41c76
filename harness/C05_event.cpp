// Events: accessors and comparisons for all values.
#include "vf.h"
#include <event.h>
#ifndef DATA
#define DATA int
#endif
typedef DATA D_t;
typedef Event<D_t> E;
static D_t ndd() { return (D_t)nd(); }
HARNESS {
  D_t d1 = ndd(), d2 = ndd(), d3 = ndd();
  timespan t1 = (timespan)nd(), t2 = (timespan)nd(), t3 = (timespan)nd();
  const E a(d1, t1), b(d2, t2);
  CHECK(a.getData() == d1 && a.getTime() == t1 && b.getData() == d2 && b.getTime() == t2);
  E z;
  CHECK(z.getTime() == 0 && z.getData() == D_t());
  // event-event
  CHECK((a < b) == (t1 < t2));
  CHECK((a <= b) == (t1 <= t2));
  CHECK((a > b) == (t1 > t2));
  CHECK((a >= b) == (t1 >= t2));
  CHECK((a == b) == (t1 == t2 && d1 == d2));
  CHECK((a != b) == !(a == b));
  // event-time
  CHECK((a < t2) == (t1 < t2));
  CHECK((a <= t2) == (t1 <= t2));
  CHECK((a > t2) == (t1 > t2));
  CHECK((a >= t2) == (t1 >= t2));
  CHECK((a == t2) == (t1 == t2));
  CHECK((a != t2) == (t1 != t2));
#if FREE
  // time-event
  CHECK((t2 < a) == (t2 < t1));
  CHECK((t2 <= a) == (t2 <= t1));
  CHECK((t2 > a) == (t2 > t1));
  CHECK((t2 >= a) == (t2 >= t1));
  CHECK((t2 == a) == (t2 == t1));
  CHECK((t2 != a) == (t2 != t1));
#endif
  if (a == b) REACH();
  if (t1 == t2 && d1 != d2) REACH();
  // setters and assignment
  E c(d3, t3);
  c.set(d1, t1);
  CHECK(c.getData() == d1 && c.getTime() == t1 && c == a);
  c.setData(d2);
  CHECK(c.getData() == d2 && c.getTime() == t1);
  c.setTime(t3);
  CHECK(c.getData() == d2 && c.getTime() == t3);
  E d;
  d = &c;
  CHECK(d == c);
  d = b;
  CHECK(d.getData() == d2 && d.getTime() == t2 && b.getTime() == t2 && b.getData() == d2);
  E f(d);
  CHECK(f.getData() == d2 && f.getTime() == t2);
  d.setTime(t3);
  CHECK(f.getTime() == t2 && d.getTime() == t3 && d.getData() == d2);
  f = &d;
  CHECK(f.getTime() == t3 && f.getData() == d2 && d.getTime() == t3);
  OBS(f.getTime()); OBS(c.getTime());
  REACH();
}
