// Buffer histories against a reference bounded deque.
// CAP capacity, OPS symbolic operations, PRE concrete-shape prefix pushes (symbolic values), DATA payload type
#include "vf.h"
#include <circularbuffer.h>
#ifndef DATA
#define DATA unsigned int
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef PREPULL
#define PREPULL 0
#endif
#ifdef SYMV // any contents
#define VAL(k) ((DATA)nd())
#define TIM(k) ((timespan)nd())
#else // contents that tell the events apart
#define VAL(k) ((DATA)(k))
#define TIM(k) ((timespan)(k))
#endif
typedef Event<DATA> E;
typedef RTML_buffer<E, CAP> B;
static inline bool same(const E &a, const E &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
HARNESS {
  B b;
  E m[PRE + OPS + 1];
  int lo = 0, hi = 0;
  unsigned nw = nd_rng(0, 3);
  for (unsigned i = 0; i < 3; i++)
    if (i < nw) b.increment_writer();
  const B::error_t good = nw > 1 ? B::UNSAFE : B::OK;
  CHECK(b.length() == 0);
  for (int i = 0; i < PRE; i++) {
    E e(VAL(i), TIM(1000 + i));
    m[hi++] = e;
    b.push(e);
    if (hi - lo > CAP) lo++;
  }
  for (int i = 0; i < PREPULL; i++) { E x; b.pull(x); lo++; }
  bool pushed = false, over = false, pulled = false, popped = false;
  for (int i = 0; i < OPS; i++) {
    unsigned op = nd_rng(0, 2);
    E e(VAL(i + 1), TIM(100 + i));
    if (op == 0) {
      m[hi++] = e;
      B::error_t r = b.push(e);
      if (hi - lo > CAP) {
        lo++;
        CHECK(r == B::BUFFER_OVERFLOW);
        over = true;
      } else
        CHECK(r == good);
      pushed = true;
    } else {
      E x = e;
      B::error_t r = op == 1 ? b.pull(x) : b.pop(x);
      if (hi == lo) {
        CHECK(r == B::EMPTY);
        CHECK(same(x, e));
      } else {
        CHECK(r == good);
        if (op == 1) { CHECK(same(x, m[lo])); lo++; pulled = true; }
        else { hi--; CHECK(same(x, m[hi])); popped = true; }
      }
    }
    OBS(b.length());
    CHECK(b.length() == (size_t)(hi - lo));
  }
  if (pulled && popped && pushed && (over || CAP > OPS)) REACH();
  // drain: everything still pending comes out oldest first
  for (int i = 0; i <= (CAP < PRE + OPS ? CAP : PRE + OPS); i++) {
    E x;
    B::error_t r = b.pull(x);
    if (lo == hi) { CHECK(r == B::EMPTY); break; }
    CHECK(r == good && same(x, m[lo]));
    lo++;
  }
  CHECK(lo == hi && b.length() == 0);
  REACH();
}
