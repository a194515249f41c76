// Builds an arbitrary RMTLD3 trace through the public API only.
//   CAP   buffer capacity         LEN   events in the reader's window
//   SHIFT events pushed and pulled first (moves the window around the ring; SHIFT+LEN > CAP wraps it)
//   OVER  further events pushed first and overwritten
#ifndef TRACE_H
#define TRACE_H
#include "vf.h"
#include <circularbuffer.h>
#include <reader.h>
#include <rmtld3/reader.h>
#include <rmtld3/formulas.h>
#ifndef SHIFT
#define SHIFT 0
#endif
#ifndef MORE
#define MORE 0 // events appended later by the harness
#endif
#ifndef TMAX
#define TMAX (1ULL << 60)
#endif
#ifndef DATA
#define DATA int
#endif
#undef VF_BASE
#define VF_BASE 20000
typedef Event<DATA> E_t;
typedef RTML_buffer<E_t, CAP> B_t;
typedef RTML_reader<B_t> R_t;
// The reader under test.  pin() changes nothing: where the window is what the buffer holds, it stores the equal value, which
// is a constant of the symbolic execution, over the reader's own; readers with other representations are left alone.
struct T_t : RMTLD3_reader<R_t, int> {
  T_t(const B_t &b, int &m) : RMTLD3_reader<R_t, int>(b, m) {}
  template <class X> auto pin_(X &x, size_t bb, size_t tt, int) -> decltype(x.bottom + x.top, void()) {
    if (vf_pin(x.bottom == bb)) x.bottom = bb;
    if (vf_pin(x.top == tt)) x.top = tt;
  }
  template <class X> void pin_(X &, size_t, size_t, long) {}
  void pin(const B_t &b) {
    size_t bb, tt;
    b.state(bb, tt);
    pin_(*this, bb, tt, 0);
  }
};
static timespan TM[LEN + MORE + 1]; // event times of the window (strictly increasing)
static DATA DT[LEN + MORE + 1];     // event data
static timespan last_time;
static B_t *filled;
static inline timespan next_time() {
  timespan x = (timespan)vf_nd_u64(3);
  vf_assume(x > last_time && x < (timespan)TMAX);
  last_time = x;
  return x;
}
static inline void fill(B_t &b) {
  last_time = 0;
  filled = &b;
  for (int i = 0; i < SHIFT; i++) {
    E_t e((DATA)(i + 1), (timespan)(i + 1)), x;
    last_time = i + 1;
    b.push(e);
    b.pull(x);
  }
  for (int i = 0; i < LEN; i++) {
    TM[i] = next_time();
    DT[i] = (DATA)nd();
    E_t e(DT[i], TM[i]);
    b.push(e);
  }
}
static inline void more(B_t &b) {
  for (int i = LEN; i < LEN + MORE; i++) {
    TM[i] = next_time();
    DT[i] = (DATA)nd();
    E_t e(DT[i], TM[i]);
    b.push(e);
  }
}
// index in the window of the event the cursor is at, by reading it (LEN+MORE if it is none of them)
static inline int at(T_t &tr) {
  E_t e;
  if (tr.read(e) != tr.AVAILABLE) return LEN + MORE;
  for (int i = 0; i < LEN + MORE; i++)
    if (e.getTime() == TM[i]) return i;
  return LEN + MORE;
}
// synchronize a fresh reader; it must see exactly the n pending events
static inline void open(T_t &tr, size_t n) {
  tr.synchronize();
#ifdef AT
  tr.pin(*filled);
#endif
  tr.reset();
  CHECK(tr.length() == n);
}
// put the cursor at window event i, i symbolic (or the given one: AT)
static inline int place(T_t &tr, int lim) {
  tr.reset();
#ifdef AT
  const int i0 = AT;
#else
  int i0 = (int)nd_rng(0, lim - 1);
#endif
  for (int i = 0; i < lim - 1; i++)
    if (i < i0) CHECK(tr.increment_cursor() == tr.AVAILABLE);
  return i0;
}
static inline three_valued_type nd3() { return (three_valued_type)nd_rng(0, 2); }
#undef VF_BASE
#define VF_BASE 0
#endif
