// Any use of the API with any arguments: memory accesses stay inside the objects (bounds and pointer checks of the engine),
// set_cursor accepts exactly the existing slots, and every call returns.
#include "vf.h"
#include <cstdio>
#ifdef DBG // the debug output, each printed value used
template <class T> static inline void out1(T x) { OBS(x); }
template <class T> static inline void out1(T *) {}
static inline int out() { return 0; }
template <class A, class... B> static inline int out(A a, B... b) { out1(a); return out(b...); }
#define RTMLIB_DEBUG 3
#define fprintf(f, ...) out(__VA_ARGS__)
#endif
#ifndef PRE
#define PRE 0
#endif
#include <circularbuffer.h>
#include <reader.h>
#include <writer.h>
#include <rmtld3/reader.h>
#include <rmtld3/formulas.h>
typedef Event<int> E_t;
typedef RTML_buffer<E_t, CAP> B_t;
typedef RTML_reader<B_t> R_t;
typedef RMTLD3_reader<R_t, int> T_t;
typedef three_valued_type V;
static int n;
static E_t next() { n++; return E_t(n, 10 * n); }
static bool jumped, rejected, evaluated;
static void jump(T_t &tr) {
  size_t c = (size_t)nd(), c1 = c, old = tr.get_cursor();
  T_t::error_t r = tr.set_cursor(c);
  CHECK((r == tr.AVAILABLE) == (c1 <= CAP));
  CHECK(r == tr.AVAILABLE || r == tr.UNAVAILABLE);
  CHECK(c == c1 && tr.get_cursor() == (c1 <= CAP ? c1 : old));
  if (c1 <= CAP) jumped = true; else rejected = true;
}
struct S { // operands that leave the cursor at any slot
  static V eval_phi1(T_t &tr, timespan &) { jump(tr); return (V)nd_rng(0, 2); }
  static V eval_phi2(T_t &tr, timespan &) { jump(tr); return (V)nd_rng(0, 2); }
};
static void eval(T_t &tr) {
  timespan t = (timespan)nd();
  ASSUME(t >= 0 && t < (1L << 60));
  timespan tt = t;
#if OP == 1
  until_less<T_t, S, 15>(tr, t);
#elif OP == 2
  always_less<T_t, S, 15>(tr, t);
#elif OP == 3
  eventually_equal<T_t, S, 15>(tr, t);
#elif OP == 4
  eventually_less_unbounded<T_t, S>(tr, t);
#elif OP == 5
  since_less<T_t, S, 15>(tr, t);
#elif OP == 6
  historically_less<T_t, S, 15>(tr, t);
#elif OP == 7
  pasteventually_equal<T_t, S, 15>(tr, t);
#elif OP == 8
  duration_term<T_t, S, 15>(tr, t);
#elif OP == 9
  prop(tr, (proposition)nd(), t);
#endif
  evaluated = true;
  CHECK(t == tt);
}
static void buffer_op(B_t &b, unsigned op) {
  E_t e = next(), x(-1, -1);
  size_t s, u;
  timespanw p, q;
  switch (op) {
  case 0: b.push(e); break;
  case 1: b.pull(x); break;
  case 2: b.pop(x); break;
  case 3: { size_t i = (size_t)nd(); CHECK((b.read(x, i) == b.OK) == (i <= CAP)); break; }
  case 4: { size_t i = (size_t)nd(); CHECK((b.write(e, i) == b.OK) == (i <= CAP)); break; }
  case 5: b.state(s, u, p, q); CHECK(s <= CAP && u <= CAP); OBS(p); OBS(q); break;
  default: b.debug(); break;
  }
  OBS(x.getTime());
  CHECK(b.length() <= CAP);
}
static void reader_op(R_t &r, unsigned op) {
  E_t x(-1, -1);
  switch (op) {
  case 0: r.synchronize(); break;
  case 1: r.pull(x); break;
  case 2: r.pop(x); break;
  case 3: OBS(r.gap()); break;
  default: r.debug(); break;
  }
  OBS(x.getTime());
  CHECK(r.length() <= CAP);
}
static void trace_op(T_t &tr, unsigned op) {
  E_t x(-1, -1);
  switch (op) {
  case 0: jump(tr); break;
  case 1: tr.increment_cursor(); break;
  case 2: tr.decrement_cursor(); break;
  case 3: tr.read(x); break;
  case 4: tr.read_next(x); break;
  case 5: tr.read_previous(x); break;
  case 6: { timespan t = (timespan)nd(); tr.set(t); break; }
  case 7: tr.pull(x); break;
  case 8: tr.reset(); break;
  default: tr.debug(); break;
  }
  OBS(x.getTime());
  CHECK(tr.get_cursor() <= CAP);
}
HARNESS {
  B_t b;
#ifdef WRITER
  RTML_writer<B_t> w(b);
#endif
  R_t r(b);
  int lm = 0;
  T_t tr(b, lm);
  for (int i = 0; i < PRE; i++) {
    E_t e = next();
#ifdef WRITER
    w.push_all(e);
#else
    b.push(e);
#endif
    if (i == SYNC) { r.synchronize(); tr.synchronize(); }
  }
#ifdef DBG
  b.debug(); r.debug(); tr.debug();
#endif
  for (int i = 0; i < OPS; i++) {
#if GROUP == 1
    buffer_op(b, nd_rng(0, 6));
#elif GROUP == 2
    unsigned op = nd_rng(0, 7);
    if (op < 3) { E_t e = next(), x; op == 0 ? b.push(e) : op == 1 ? b.pull(x) : b.pop(x); }
    else reader_op(r, op - 3);
#elif GROUP == 3
    unsigned op = nd_rng(0, 11);
    if (op == 0) { E_t e = next(); b.push(e); }
    else if (op == 1) tr.synchronize();
    else trace_op(tr, op - 2);
#else
    if (nd_bool()) { E_t e = next(); b.push(e); }
    if (nd_bool()) tr.synchronize();
    if (nd_bool()) jump(tr);
    eval(tr);
#endif
  }
  REACH();
#if GROUP == 3
  if (jumped && rejected) REACH();
#elif GROUP == 4
  if (jumped && evaluated) REACH();
#endif
}
