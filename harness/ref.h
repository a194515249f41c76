// Reference semantics of the operators over the window events 0..WN-1 (times TM), operands as functions of the event index.
#ifndef REF_H
#define REF_H
#include "trace.h"
typedef three_valued_type V;
static int WN = LEN;
static inline V inv(V a) { return a == T_TRUE ? T_FALSE : a == T_FALSE ? T_TRUE : T_UNKNOWN; }
struct Tru { static V at(int) { return T_TRUE; } };
template <class A> struct Neg { static V at(int i) { return inv(A::at(i)); } };
template <class A, class B> struct Or { static V at(int i) { V a = A::at(i), b = B::at(i); return a == T_TRUE || b == T_TRUE ? T_TRUE : a == T_FALSE && b == T_FALSE ? T_FALSE : T_UNKNOWN; } };
template <class A, class B> struct And { static V at(int i) { return inv(Or<Neg<A>, Neg<B>>::at(i)); } };
static int decided; // index of the deciding event, -1 if none
template <class A, class B> static V ref_until(int i0, timespan t, timespan b) {
  V r = T_UNKNOWN;
  bool done = false;
  decided = -1;
  for (int i = 0; i < LEN + MORE; i++) {
    if (i < i0 || i >= WN || done) continue;
    if (TM[i] >= t + b) { done = true; r = T_FALSE; continue; }
    V y = B::at(i);
    if (y != T_FALSE) { done = true; r = y; decided = i; continue; }
    V x = A::at(i);
    if (x != T_TRUE) { done = true; r = x; decided = i; }
  }
  return r;
}
template <class A> static V ref_always(int i0, timespan t, timespan b) { return inv(ref_until<Tru, Neg<A>>(i0, t, b)); }
template <class A> static V ref_eveq(int i0, timespan t, timespan b) {
  V r = T_UNKNOWN;
  decided = -1;
  for (int i = 0; i < LEN + MORE; i++)
    if (i >= i0 && i < WN && TM[i] <= t + b) { r = A::at(i); decided = i; }
  return r;
}
template <class A> static V ref_evunb(int i0) {
  V r = T_FALSE;
  decided = -1;
  for (int i = 0; i < LEN + MORE; i++)
    if (i >= i0 && i < WN && r == T_FALSE) { r = A::at(i); if (r != T_FALSE) decided = i; }
  return r;
}
template <class A, class B> static V ref_since(int i0, timespan t, timespan b) {
  V r = T_UNKNOWN;
  bool done = false;
  decided = -1;
  for (int i = LEN + MORE - 1; i >= 0; i--) {
    if (i > i0 || i >= WN || done || TM[i] >= t) continue;
    if (TM[i] + b <= t) { done = true; r = T_FALSE; continue; }
    V y = B::at(i);
    if (y != T_FALSE) { done = true; r = y; decided = i; continue; }
    V x = A::at(i);
    if (x != T_TRUE) { done = true; r = x; decided = i; }
  }
  if (!done && TM[0] + b <= t) r = T_FALSE;
  return r;
}
template <class A> static V ref_hist(int i0, timespan t, timespan b) { return inv(ref_since<Tru, Neg<A>>(i0, t, b)); }
template <class A> static V ref_pasteq(int i0, timespan t, timespan b) {
  int k = -1, first = -1;
  for (int i = LEN + MORE - 1; i >= 0; i--)
    if (i <= i0 && i < WN && TM[i] < t) {
      first = i;
      if (k < 0 && TM[i] + b <= t) k = i;
    }
  decided = k >= 0 ? k : first;
  V r = T_UNKNOWN;
  for (int i = 0; i < LEN + MORE; i++) if (i == decided) r = A::at(i);
  return r;
}
// duration over [t, t+u): exact value, and whether it must be / may be unknown
struct Dur { timespan v; bool must_unknown, must_known; };
template <class A> static Dur ref_dur(int i0, timespan t, timespan u) {
  Dur d = {0, false, true};
  for (int i = 0; i < LEN + MORE; i++) {
    if (i < i0 || i >= WN) continue;
    V v = A::at(i);
    const timespan lo = TM[i] > t ? TM[i] : t;
    const bool hasnext = i + 1 < WN;
    const timespan nx = hasnext ? TM[i + 1] : 0;
    const timespan hi = hasnext && nx < t + u ? nx : t + u;
    if (hasnext ? (lo < hi) : (lo < t + u)) { // the interval of event i meets [t,t+u)
      if (v == T_UNKNOWN) d.must_unknown = true;
      if (v == T_TRUE && hasnext) d.v += hi - lo;
    }
    // events from the one in force at t to the one in force at t+u
    if (TM[i] <= t + u && (!hasnext || nx > t) && v == T_UNKNOWN) d.must_known = false;
    if (!hasnext && TM[i] <= t + u) { d.must_unknown = true; }
  }
  if (d.must_unknown) d.must_known = false;
  return d;
}
// proposition at event i, evaluated at the event's own time
template <int p> struct Prop { static V at(int i) { V r = T_UNKNOWN; for (int k = 0; k + 1 < LEN + MORE; k++) if (k == i && k + 1 < WN) r = DT[k] == p ? T_TRUE : T_FALSE; return r; } };
#endif
