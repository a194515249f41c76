// Indexed read/write in every buffer state: CAP, OPS symbolic operations first, then one indexed write and one read at
// arbitrary 64-bit indices.
#include "vf.h"
#include <circularbuffer.h>
#ifndef DATA
#define DATA unsigned int
#endif
#ifndef PRE
#define PRE 0
#endif
typedef Event<DATA> E;
typedef RTML_buffer<E, CAP> B;
static inline bool same(const E &a, const E &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
static inline E nde() { DATA d = (DATA)nd(); timespan t = (timespan)nd(); return E(d, t); }
HARNESS {
  B b;
  for (int i = 0; i < PRE; i++) { E e((DATA)i, 1000 + i); b.push(e); }
  for (int i = 0; i < OPS; i++) {
    unsigned op = nd_rng(0, 2);
    E e((DATA)(i + 1), (timespan)(100 + i)), x;
    if (op == 0) b.push(e);
    else if (op == 1) b.pull(x);
    else b.pop(x);
  }
  size_t n = b.length(), bo, to, bo2, to2;
  b.state(bo, to);
  E s[CAP + 1];
  for (int i = 0; i <= CAP; i++) CHECK(b.read(s[i], (size_t)i) == B::OK);
  // an arbitrary indexed write
  E w = nde(), w0 = w;
  size_t ix = (size_t)nd();
  B::error_t r = b.write(w, ix);
  CHECK(same(w, w0));
  CHECK(r == (ix <= CAP ? B::OK : B::OUT_OF_BOUND));
  if (ix <= CAP) { for (int i = 0; i <= CAP; i++) if ((size_t)i == ix) s[i] = w; }
  CHECK(b.length() == n);
  b.state(bo2, to2);
  CHECK(bo2 == bo && to2 == to);
  // an arbitrary indexed read
  E g = nde(), g0 = g;
  size_t ir = (size_t)nd();
  r = b.read(g, ir);
  OBS(r); OBS(g.getTime());
  CHECK(r == (ir <= CAP ? B::OK : B::OUT_OF_BOUND));
  if (ir > CAP) CHECK(same(g, g0));
  for (int i = 0; i <= CAP; i++)
    if ((size_t)i == ir) CHECK(same(g, s[i]));
  CHECK(b.length() == n);
  b.state(bo2, to2);
  CHECK(bo2 == bo && to2 == to);
  for (int i = 0; i <= CAP; i++) {
    E x;
    CHECK(b.read(x, (size_t)i) == B::OK && same(x, s[i]));
  }
  if (r == B::OK && ix == ir) REACH();
  if (r == B::OUT_OF_BOUND && ix <= CAP) REACH();
  // the pending events are the slots from bottom on
  size_t q = bo;
  for (int i = 0; i <= CAP; i++) {
    E x;
    if (q == to) { CHECK(b.pull(x) == B::EMPTY); break; }
    CHECK(b.pull(x) == B::OK);
    for (int j = 0; j <= CAP; j++)
      if ((size_t)j == q) CHECK(same(x, s[j]));
    q = q == CAP ? 0 : q + 1;
  }
  REACH();
}
