// Reader histories: OPS operations chosen among push / synchronize / pull on a buffer of capacity CAP, after PRE pushes.
//   LOSS=0: no undelivered event is ever discarded (C06)   LOSS=1: any number of overwrites (C07)
#include "vf.h"
#include <circularbuffer.h>
#include <reader.h>
#ifndef PRE
#define PRE 0
#endif
#ifndef TMAX
#define TMAX (1ULL << 62)
#endif
typedef Event<unsigned> E;
typedef RTML_buffer<E, CAP> B;
typedef RTML_reader<B> R;
static timespan TM[PRE + OPS + 1];
static int P; // events pushed so far; event i carries data i
static timespan lastt;
static void push(B &b) {
  timespan x = (timespan)nd();
  ASSUME(x > lastt && x < (timespan)TMAX);
  lastt = x;
  TM[P] = x;
  E e((unsigned)P, x);
  b.push(e);
  P++;
}
HARNESS {
  B b;
  P = 0;
  lastt = 0;
  for (int i = 0; i < PRE; i++) push(b);
  R r(b);
  CHECK(r.length() == 0);
  int D = 0;      // next event the reader has to deliver
  int K = 0;      // events it knows of
  bool told = false, lapped = false, over = false, synced = false;
  int delivered = 0;
  bool fresh = false; // nothing pushed since the last synchronize that reported a loss
  for (int i = 0; i < OPS; i++) {
    unsigned op = nd_rng(0, 2);
    const int oldest = P > CAP ? P - CAP : 0;
    if (op == 0) {
#if !LOSS
      if (synced && P - CAP >= D) continue; // would discard an undelivered event
#endif
      push(b);
      fresh = false;
    } else if (op == 1) {
      R::gap_error_t g = r.synchronize();
      if (oldest > D && !over) { // undelivered events are gone: said here, and the reader restarts at the oldest one
        if (synced) { CHECK(g == R::GAP); lapped = true; told = true; }
        D = oldest;
        fresh = true;
      } else if (over) {
        if (g == R::GAP) { told = true; }
      }
      K = P;
      synced = true;
      if (!over) CHECK(r.length() == (size_t)(K - D));
    } else {
      E x(777, 777);
      size_t len = r.length();
      R::error_t e = r.pull(x);
      if (over) { // after READER_OVERFLOW only whole, pushed events may come
        if (e == R::AVAILABLE) { CHECK(x.getData() < (unsigned)P); CHECK(x.getTime() == TM[x.getData() < (unsigned)P ? x.getData() : 0]); }
        continue;
      }
      if (K - D > 1) {
        if (oldest <= D) {
          CHECK(e == R::AVAILABLE);
          CHECK(x.getData() == (unsigned)D && x.getTime() == TM[D]);
          D++;
          delivered++;
          told = false;
          CHECK(r.length() == (size_t)(K - D));
        } else if (e == R::AVAILABLE) {
          // event D was discarded; it may still be whole in its slot, but nothing else may be passed off as good
          CHECK(x.getData() == (unsigned)D && x.getTime() == TM[D]);
          D++;
          delivered++;
        } else {
          CHECK(e == R::READER_OVERFLOW);
          over = true;
        }
      } else {
        CHECK(e == R::UNAVAILABLE);
        CHECK(x.getData() == 777 && x.getTime() == 777);
        CHECK(r.length() == len);
      }
    }
    OBS(r.length()); OBS(D);
  }
  if (delivered > 1) REACH();
  if (delivered && K == P && P - D == 1) REACH();
#if LOSS
  if (lapped && delivered) REACH();
  if (over) REACH();
#else
  if (delivered && P > CAP + 1) REACH();
#endif
}
