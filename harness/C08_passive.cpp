// Two readers of one buffer against one reader of an identically fed buffer.
#include "trace.h"
static inline bool same(const E_t &a, const E_t &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
struct P1 { static three_valued_type eval_phi1(T_t &tr, timespan &t) { proposition p = 1; return prop<T_t>(tr, p, t); }
  static three_valued_type eval_phi2(T_t &tr, timespan &t) { proposition p = 2; return prop<T_t>(tr, p, t); } };
struct Snap { size_t n, b, t; E_t s[CAP + 1]; };
static void snap(const B_t &b, Snap &s) {
  s.n = b.length();
  b.state(s.b, s.t);
  for (int i = 0; i <= CAP; i++) b.read(s.s[i], (size_t)i);
}
static void unchanged(const B_t &b, const Snap &s) {
  size_t x, y;
  CHECK(b.length() == s.n);
  b.state(x, y);
  CHECK(x == s.b && y == s.t);
  for (int i = 0; i <= CAP; i++) { E_t e; b.read(e, (size_t)i); CHECK(same(e, s.s[i])); }
}
struct Out { int r; E_t e; size_t l; int gap; };
static void act(T_t &tr, unsigned op, Out &o) {
  o.e = E_t(0, 0);
  o.r = 0;
  switch (op) {
  case 0: o.r = tr.synchronize(); break;
  case 1: o.r = tr.R_t::pull(o.e); break;
  case 2: o.r = tr.pop(o.e); break;
  case 3: o.r = tr.increment_cursor(); break;
  case 4: o.r = tr.pull(o.e); break;
  case 5: o.r = tr.reset(); break;
#if EVAL
  default: { timespan t = 5; o.r = until_less<T_t, P1, 9>(tr, t); }
#else
  default: o.r = tr.read_next(o.e);
#endif
  }
  o.l = tr.R_t::length();
  o.gap = tr.gap();
}
HARNESS {
  B_t b, b2;
  int l1 = 0, l2 = 0, l3 = 0;
  T_t A(b, l1), O(b, l2), A2(b2, l3);
  timespan now = 0;
  for (int i = 0; i < PRE; i++) { E_t e(i & 3, ++now); b.push(e); b2.push(e); }
  bool other = false;
  int n = 0;
  for (int i = 0; i < OPS; i++) {
    unsigned who = nd_rng(0, 2);
    if (who == 0) {
      timespan dt = (timespan)nd_rng(1, 1000);
      now += dt;
      E_t e((int)nd_rng(0, 3), now);
      b.push(e);
      b2.push(e);
      continue;
    }
    unsigned op = nd_rng(0, 6);
    Snap s;
    snap(b, s);
    if (who == 1) { // the observed reader, in both worlds
      Out x, y;
      act(A, op, x);
      act(A2, op, y);
      CHECK(x.r == y.r && same(x.e, y.e) && x.l == y.l && x.gap == y.gap);
      OBS(x.r); OBS(x.l);
      n++;
    } else {
      Out z;
      act(O, op, z);
      other = true;
    }
    unchanged(b, s);
  }
  if (n > 1 && other) REACH();
}
