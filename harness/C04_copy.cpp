// a = b: identical content, then independent.  WR: the source is fed by a writer as well.
#define SPINS 0
#include "vf.h"
#include <writer.h>
typedef Event<unsigned> E;
typedef RTML_buffer<E, CAP> B;
static inline bool same(const E &a, const E &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
struct M { // reference queue
  E e[PRE + OPS1 + OPS + 2];
  int lo, hi;
  M() : lo(0), hi(0) {}
};
#if WR
typedef RTML_writer<B> W;
static W *wr;
#endif
static void step(B &b, M &m, unsigned tag, bool bywriter) {
  unsigned op = nd_rng(0, 2);
  E e(tag, (timespan)(100 + tag)), x;
  if (op == 0) {
#if WR
    if (bywriter) wr->push_all(e); else
#endif
    b.push(e);
    m.e[m.hi++] = e; if (m.hi - m.lo > CAP) m.lo++;
  } else if (op == 1) { b.pull(x); if (m.lo != m.hi) { CHECK(same(x, m.e[m.lo])); m.lo++; } }
  else { b.pop(x); if (m.lo != m.hi) { m.hi--; CHECK(same(x, m.e[m.hi])); } }
}
static void drain(B &b, M &m) {
  CHECK(b.length() == (size_t)(m.hi - m.lo));
  for (int i = 0; i <= CAP; i++) {
    E x;
    B::error_t r = b.pull(x);
    if (m.lo == m.hi) { CHECK(r == B::EMPTY); break; }
    CHECK(same(x, m.e[m.lo]));
    m.lo++;
  }
  CHECK(m.lo == m.hi && b.length() == 0);
}
HARNESS {
  B a, b;
  M ma, mb;
#if WR
  W w(b); // events come through a writer: its own state block may be current in b
  wr = &w;
#endif
  for (int i = 0; i < PRE; i++) {
    E e(50 + i, 1000 + i);
#if WR
    w.push_all(e);
#else
    b.push(e);
#endif
    mb.e[mb.hi++] = e; if (mb.hi - mb.lo > CAP) mb.lo++;
  }
  { E e(7, 7); a.push(e); if (nd_bool()) a.push(e); }
  for (int i = 0; i < OPS1; i++) step(b, mb, i + 1, true);
  B &ret = (a = b);
  CHECK(&ret == &a);
  ma = mb;
  CHECK(a.length() == b.length());
  bool mixed = false;
  for (int i = 0; i < OPS; i++) {
    if (nd_bool()) { step(a, ma, 20 + i, false); mixed = true; }
    else step(b, mb, 20 + i, true);
    CHECK(a.length() == (size_t)(ma.hi - ma.lo) && b.length() == (size_t)(mb.hi - mb.lo));
  }
  if (mixed) REACH();
  drain(a, ma);
  drain(b, mb);
  REACH();
}
