// One reader racing with one writer: every interleaving of their memory accesses with at most SEGS segments preempted.
//   PRE pushes before, NW pushes concurrently, EARLY pulls of the reader before, NP concurrent pulls (a synchronization first;
//   SYNC2: another one before the last pull), SNAP: snapshots of the buffer's state instead of the reader
//   LAP: also schedules in which the writer overwrites the slot being read during the call
#include "conc.h"
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
#ifndef EARLY
#define EARLY 0
#endif
#define SIZE (CAP + 1)
typedef Event<int> E;
typedef RTML_buffer<E, CAP> B;
typedef RTML_writer<B> W;
typedef RTML_reader<B> R;
struct Reader : R { // the reader with its protected position
  Reader(const B &b) : R(b) {}
  size_t pos() { return this->bottom; }
};
static W *wp;
static Reader *rp;
static const B *bp;
static int doneW, doneR;
// what the writer has begun and finished (kept outside of the interleaving)
static int begun, finished;
extern "C" __attribute__((noinline)) void g_begin() { begun = begun + 1; }
extern "C" __attribute__((noinline)) void g_end() { finished = finished + 1; }
extern "C" __attribute__((noinline)) int g_begun() { return begun; }
extern "C" __attribute__((noinline)) int g_finished() { return finished; }
#define EV(e, i) E e((i), (i) * 10L)
static inline __attribute__((always_inline)) void one(W *w, int i) {
  EV(e, i);
  g_begin();
  w->push_all(e);
  g_end();
}
THREAD(TW) {
  W *w = wp;
  if (NW > 0) one(w, PRE + 1);
  if (NW > 1) one(w, PRE + 2);
  if (NW > 2) one(w, PRE + 3);
  if (NW > 3) one(w, PRE + 4);
  if (NW > 4) one(w, PRE + 5);
  doneW = 1;
}
struct Call { int kind, res, data; long time; int b0, f0, b1; size_t slot, bot, top; };
static Call lg[4];
#ifdef SNAP
static inline __attribute__((always_inline)) void call(Call &c, int kind) {
  const B *b = bp;
  c.f0 = g_finished();
  if (kind == 0) b->state(c.bot, c.top);
  else { c.top = b->length(); }
  c.b1 = g_begun();
  c.kind = kind;
}
THREAD(TR) {
  Call c0, c1;
  call(c0, 0);
  call(c1, SNAP - 1);
  lg[0].f0 = c0.f0; lg[0].b1 = c0.b1; lg[0].bot = c0.bot; lg[0].top = c0.top; lg[0].kind = c0.kind;
  lg[1].f0 = c1.f0; lg[1].b1 = c1.b1; lg[1].bot = c1.bot; lg[1].top = c1.top; lg[1].kind = c1.kind;
  doneR = 1;
}
#else
#define NCALL (1 + NP)
static inline __attribute__((always_inline)) void call(int i, int kind) {
  Reader *r = rp;
  E e;
  size_t slot = r->pos();
  int b0 = g_begun(), f0 = g_finished(), res;
  if (kind == 0) res = r->synchronize();
  else res = r->pull(e);
  lg[i].kind = kind; lg[i].res = res; lg[i].b0 = b0; lg[i].f0 = f0; lg[i].b1 = g_begun();
  lg[i].slot = kind == 0 ? r->pos() : slot;
  lg[i].data = kind == 0 ? 0 : e.getData();
  lg[i].time = kind == 0 ? 0 : e.getTime();
}
THREAD(TR) {
  call(0, 0);
#ifdef SYNC2
  if (NP > 1) call(1, 1);
  if (NP > 2) call(2, 1);
  call(NP, 0);
#else
  call(1, 1);
  if (NP > 1) call(2, 1);
  if (NP > 2) call(3, 1);
#endif
  doneR = 1;
}
// newest of the first n pushes that went into this slot (0: none)
static int newest(int n, size_t slot) {
  int j = 0;
  for (int i = 1; i <= PRE + NW; i++)
    if (i <= n && (size_t)(i - 1) % SIZE == slot) j = i;
  return j;
}
#endif
HARNESS {
  B b;
  W w(b);
  Reader r(b);
  wp = &w; rp = &r; bp = &b;
  int last = 0; // data of the last event the reader got
  for (int i = 1; i <= PRE; i++) one(&w, i);
#if EARLY
  r.synchronize();
  for (int i = 0; i < EARLY; i++) {
    E e;
    if (r.pull(e) == R::AVAILABLE) last = e.getData();
  }
#endif
  vf_preempt = true;
  for (int i = 0; i < SEGS; i++) {
    if (i % 2 == FIRST) TW();
    else TR();
  }
  vf_preempt = false;
  for (int i = 0; i < ROUNDS; i++) {
    TW();
    TR();
  }
  CHECK(doneW);
  CHECK(doneR);
  ASSUME(doneW && doneR);
#ifdef SNAP
  int from = PRE;
  for (int n = 0; n < 2; n++) {
    bool ok = false;
    int first = 0;
    for (int k = PRE + NW; k >= 0; k--) {
      if (k < lg[n].f0 || k > lg[n].b1 || k < from) continue;
      size_t len = k < CAP ? k : CAP, top = k % SIZE, bot = (k - len) % SIZE;
      if (lg[n].kind == 0 ? lg[n].top == top && lg[n].bot == bot : lg[n].top == len) { ok = true; first = k; }
    }
    CHECK(ok); // the state at some moment of the call, not before the one seen earlier
    from = first;
    OBS(lg[n].top);
  }
  REACH();
  if (lg[0].f0 == PRE && lg[0].b1 == PRE + NW) REACH(); // all the pushes during the first call
#else
  bool loss = EARLY == 0; // a loss reported since
  int got = 0;
  for (int i = 0; i < NCALL; i++) {
    Call c = lg[i];
#if !defined(LAP) && PRE + NW > CAP
    // no push into the slot to be read, or the one after it, began in the meantime, and none was under way into the former
    int j = newest(c.b1, c.slot), n = newest(c.b1, (c.slot + 1) % SIZE);
    ASSUME(j <= c.b0 && j <= c.f0 && n <= c.b0);
#endif
    OBS(c.res);
    if (c.kind == 0) {
      CHECK(c.res == R::GAP || c.res == R::NO_GAP || c.res == R::UNKNOWN_GAP);
      if (c.res != R::NO_GAP) loss = true;
      continue;
    }
    CHECK(c.res == R::AVAILABLE || c.res == R::UNAVAILABLE || c.res == R::READER_OVERFLOW);
    if (c.res == R::READER_OVERFLOW) loss = true;
    if (c.res == R::UNAVAILABLE) continue;
    OBS(c.data);
    const bool whole = c.data >= 1 && c.data <= PRE + NW && c.time == c.data * 10L;
    if (c.res == R::AVAILABLE) {
      CHECK(whole);
      CHECK(c.data <= c.b1); // pushed already
      CHECK(c.data > last);  // in order
      if (!loss && last > 0) CHECK(c.data == last + 1); // nothing skipped without notice
      loss = false;
      got++;
    }
    if (PRE + NW <= CAP) { // nothing is ever overwritten
      CHECK(whole);
      CHECK(c.data == last + 1);
    }
    if (whole) last = c.data;
  }
  REACH();
  if (got >= WANT) REACH();
#endif
}
