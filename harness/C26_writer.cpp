// One writer (push stamps, push_all keeps the time), its events pulled and popped by the consumer, any interleaving of calls.
#define SPINS 2
#include "vf.h"
#include <time.h>
#include <circularbuffer.h>
#include <writer.h>
#ifndef PRE
#define PRE 0
#endif
typedef Event<int> E;
typedef RTML_buffer<E, CAP> B;
static int reads; // clock readings
static int64_t now;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  CHECK(id == CLOCK_REALTIME || id == CLOCK_MONOTONIC);
  int64_t s = (int64_t)nd_rng(0, 3), n = (int64_t)nd_rng(0, 999999999);
  ts->tv_sec = s;
  ts->tv_nsec = n;
  now = s * 1000000000 + n;
  reads++;
  return 0;
}
static E m[PRE + OPS + 1];
static int lo, hi;
static inline bool same(const E &a, const E &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
static inline void put(const E &e, B::error_t r) {
  m[hi++] = e;
  if (hi - lo > CAP) {
    lo++;
    CHECK(r == B::BUFFER_OVERFLOW);
  } else CHECK(r == B::OK);
}
HARNESS {
  B b;
  RTML_writer<B> w(b);
  bool over = false, stamped = false, popped = false, pulled = false;
  for (int i = 0; i < PRE; i++) {
    E e(i + 1, i + 1);
    put(e, w.push_all(e));
  }
  for (int i = 0; i < OPS; i++) {
#ifdef PAT // bit i: operation i is the consumer's
    unsigned op = (PAT >> i & 1) ? (nd_bool() ? 2 : 3) : (nd_bool() ? 0 : 1);
#else
    unsigned op = nd_rng(0, 3);
#endif
    int d = (int)nd();
    timespan t = (timespan)nd();
    E e(d, t);
    if (op == 0) {
      int r0 = reads;
      B::error_t r = w.push(e);
#ifndef __riscv // (the RISC-V variant without an operating system has no clock: 0)
      CHECK(reads > r0);
#endif
      CHECK(e.getData() == d && e.getTime() == (timespan)now);
      put(e, r);
      stamped = true;
      if (r == B::BUFFER_OVERFLOW) over = true;
    } else if (op == 1) {
      B::error_t r = w.push_all(e);
      CHECK(e.getData() == d && e.getTime() == t);
      put(e, r);
      if (r == B::BUFFER_OVERFLOW) over = true;
    } else {
      E x = e;
      B::error_t r = op == 2 ? b.pull(x) : b.pop(x);
      if (hi == lo) CHECK(r == B::EMPTY && same(x, e));
      else {
        CHECK(r == B::OK);
        if (op == 2) { CHECK(same(x, m[lo])); lo++; pulled = true; }
        else { hi--; CHECK(same(x, m[hi])); popped = true; }
      }
    }
    CHECK(b.length() == (size_t)(hi - lo));
  }
#ifndef PAT
  if (pulled && popped && stamped) REACH();
  if (over) REACH();
#endif
  for (int i = 0; i <= (CAP < PRE + OPS ? CAP : PRE + OPS); i++) {
    E x;
    B::error_t r = b.pull(x);
    if (lo == hi) { CHECK(r == B::EMPTY); break; }
    CHECK(r == B::OK && same(x, m[lo]));
    lo++;
  }
  CHECK(lo == hi && b.length() == 0);
  REACH();
}
