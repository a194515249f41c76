// Two writers (three with NC) pushing concurrently: every interleaving of their memory accesses with at most SEGS - 1 preemptions.
//   PRE  events pushed before (round robin), NA NB NC pushes of each thread, STAMP: push (with a ticking clock) instead of push_all
#include "conc.h"
#include <time.h>
#include <circularbuffer.h>
#include <writer.h>
#ifndef PRE
#define PRE 0
#endif
// with SAME the first event pushed before equals the one TA pushes
#ifdef SAME
#define FIRSTEV (i == 0 ? 100 : i + 1)
#else
#define FIRSTEV (i + 1)
#endif
#ifndef NC
#define NC 0
#endif
typedef Event<int> E;
typedef RTML_buffer<E, CAP> B;
typedef RTML_writer<B> W;
static long ticks;
extern "C" int clock_gettime(clockid_t, struct timespec *ts) noexcept {
  ts->tv_sec = 0;
  ts->tv_nsec = __atomic_add_fetch(&ticks, 1, __ATOMIC_SEQ_CST);
  return 0;
}
static W *wa, *wb, *wc;
static int doneA, doneB, doneC, overA, overB, overC, badA, badB, badC;
#ifdef STAMP
#define PUSH(w, e) w->push(e)
#else
#define PUSH(w, e) w->push_all(e)
#endif
static inline __attribute__((always_inline)) void one(W *w, int v, int &o, int &x) {
  E e(v, v);
  B::error_t r = PUSH(w, e);
  if (r == B::BUFFER_OVERFLOW) o++;
  else if (r != B::OK) x++;
}
#define BODY(wp, n, base, T)                                                                                               \
  int o = 0, x = 0;                                                                                                            \
  W *w = wp;                                                                                                                   \
  if (n > 0) one(w, base, o, x);                                                                                               \
  if (n > 1) one(w, base + 1, o, x);                                                                                           \
  if (n > 2) one(w, base + 2, o, x);                                                                                           \
  over##T = o;                                                                                                                 \
  bad##T = x;                                                                                                                  \
  done##T = 1;
THREAD(TA) { BODY(wa, NA, 100, A) }
THREAD(TB) { BODY(wb, NB, 200, B) }
#if NC
THREAD(TC) { BODY(wc, NC, 300, C) }
#endif
HARNESS {
  B b;
  W a1(b), b1(b);
  wa = &a1; wb = &b1;
#if NC
  W c1(b);
  wc = &c1;
#endif
  for (int i = 0; i < PRE; i++) {
    E e(FIRSTEV, FIRSTEV);
    W &w = i % 2 ? b1 : a1;
    PUSH((&w), e);
  }
  vf_preempt = true;
  for (int i = 0; i < SEGS; i++) {
#if NC
    unsigned who = nd_rng(0, 2);
    if (who == 0) TA();
    else if (who == 1) TB();
    else TC();
#else
    if (i % 2 == 0) TA();
    else TB();
#endif
  }
  vf_preempt = false;
  for (int i = 0; i < ROUNDS; i++) {
    TA();
    TB();
#if NC
    TC();
#endif
  }
  CHECK(doneA && doneB); // everybody finishes once the others get to run
#if NC
  CHECK(doneC);
#endif
  const int total = PRE + NA + NB + NC, len = total < CAP ? total : CAP;
  CHECK(badA == 0 && badB == 0 && badC == 0);
  CHECK(overA + overB + overC == (total > CAP ? total - CAP : 0) - (PRE > CAP ? PRE - CAP : 0));
  CHECK(b.length() == len);
  size_t bot, top;
  b.state(bot, top);
  int nx[4] = {PRE, NA, NB, NC}; // events of each source newer than the slot looked at
  timespan newer = 0;
  for (int k = 0; k < len; k++) { // from the newest to the oldest
    if (top == 0) top = CAP + 1;
    top--;
    E e;
    CHECK(b.read(e, top) == B::OK);
    int s = e.getData() / 100, i = e.getData() % 100;
    CHECK(s >= 0 && s <= 3);
    if (s > 3) s = 3;
    nx[s]--;
    CHECK(nx[s] >= 0);
    CHECK(s == 0 ? i == nx[0] + 1 : i == nx[s]); // in order, none lost or repeated
    if (s == 0) CHECK(nx[1] == 0 && nx[2] == 0 && nx[3] == 0); // the events pushed before come first
#ifdef STAMP
    CHECK(k == 0 || e.getTime() < newer); // later clock readings further on
    newer = e.getTime();
#else
    CHECK(e.getTime() == e.getData());
#endif
    OBS(e.getData());
  }
  CHECK(top == bot);
  REACH();
#if PRE + NA + NB + NC <= CAP && NB > 0 && PRE == 0
  E e;
  b.read(e, bot);
  if (e.getData() == 200) REACH();
#endif
}
