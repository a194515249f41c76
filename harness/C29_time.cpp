// Time arithmetic of time_compat.h for every value.
#include "vf.h"
#include <ctime>
#include <unistd.h>
#include <pthread.h>
#include <time_compat.h>
static time_t ck_sec; static long ck_nsec; static int ck_calls; static clockid_t ck_id;
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  ck_calls++; ck_id = c;
  t->tv_sec = ck_sec; t->tv_nsec = ck_nsec;
  return 0;
}
static const long G = 1000000000L;
static bool norm(const timespec &a) { return a.tv_nsec >= 0 && a.tv_nsec < G; }
static timespec any() {
  timespec t;
  t.tv_sec = (time_t)nd(); t.tv_nsec = (long)nd();
  ASSUME(norm(t) && t.tv_sec >= -(1L << 60) && t.tv_sec <= 1L << 60);
  return t;
}
static bool same(const timespec &a, const timespec &b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; }
// r is the normalized timespec of the sum of a and b: nsec carries 0 or 1 second
static bool is_sum(const timespec &a, const timespec &b, const timespec &r) {
  long n = a.tv_nsec + b.tv_nsec, c = r.tv_sec - a.tv_sec - b.tv_sec;
  return norm(r) && (c == 0 ? r.tv_nsec == n : c == 1 && r.tv_nsec == n - G);
}
HARNESS {
#if PART == 1 // add, sub
  timespec a = any(), b = any(), a0 = a, b0 = b, r;
  unsigned how = nd_rng(0, 3); // where the result goes
  if (how == 3) { b = a; b0 = a0; }
  timespec *pa = &a, *pb = how == 3 ? &a : &b, *pr = how == 0 ? &r : how == 2 ? &b : &a;
  if (nd_bool()) {
    timespecadd(pa, pb, pr);
    CHECK(is_sum(a0, b0, *pr));
    if (pr->tv_nsec < a0.tv_nsec) REACH();
    if (how == 1 && a0.tv_nsec + b0.tv_nsec == G - 1) REACH();
  } else {
    timespecsub(pa, pb, pr);
    CHECK(is_sum(*pr, b0, a0));
    if (how == 3) CHECK(pr->tv_sec == 0 && pr->tv_nsec == 0);
    if (how == 0 && pr->tv_sec < 0 && pr->tv_nsec > 0) REACH();
    if (how == 2 && pr->tv_sec == 0) REACH();
  }
  OBS(pr->tv_sec); OBS(pr->tv_nsec);
  if (how == 0) { CHECK(same(a, a0)); CHECK(same(b, b0)); }
  if (how == 1) CHECK(same(b, b0));
  if (how == 2) CHECK(same(a, a0));
#elif PART == 2 // comparison
  timespec a = any(), b = any(), a0 = a, b0 = b, d;
  d.tv_sec = a.tv_sec - b.tv_sec; d.tv_nsec = a.tv_nsec - b.tv_nsec; // sign of the difference of the instants: |nsec| < 1 s
  int s = d.tv_sec < 0 ? -1 : d.tv_sec > 0 ? 1 : d.tv_nsec < 0 ? -1 : d.tv_nsec > 0;
  bool lt = timespeccmp(&a, &b, <), gt = timespeccmp(&a, &b, >), le = timespeccmp(&a, &b, <=), ge = timespeccmp(&a, &b, >=),
       eq = timespeccmp(&a, &b, ==), ne = timespeccmp(&a, &b, !=);
  CHECK(lt == (s < 0)); CHECK(gt == (s > 0)); CHECK(le == (s <= 0)); CHECK(ge == (s >= 0)); CHECK(eq == (s == 0)); CHECK(ne == (s != 0));
  CHECK((timespeccmp(&a, &b, <) || timespeccmp(&a, &b, >)) == !eq); // usable inside expressions
  timespec df;
  timespecsub(&a, &b, &df);
  CHECK((df.tv_sec < 0) == lt && (timespecisset(&df) ? true : false) == ne);
  CHECK(same(a, a0) && same(b, b0));
  if (s < 0 && a.tv_nsec > b.tv_nsec) REACH();
  if (s > 0 && a.tv_sec == b.tv_sec) REACH();
  if (eq) REACH();
#elif PART == 3 // clear, isset
  timespec a, b = any();
  a.tv_sec = (time_t)nd(); a.tv_nsec = (long)nd();
  CHECK((timespecisset(&a) ? true : false) == (a.tv_sec != 0 || a.tv_nsec != 0));
  if (!timespecisset(&a)) REACH();
  if (timespecisset(&a) && !a.tv_sec) REACH();
  timespecclear(&a);
  CHECK(a.tv_sec == 0 && a.tv_nsec == 0 && !timespecisset(&a));
  timespec r = any();
  timespecadd(&a, &b, &r); CHECK(same(r, b)); // zero is neutral
  timespecadd(&b, &a, &r); CHECK(same(r, b));
  timespecsub(&b, &a, &r); CHECK(same(r, b));
#elif PART == 4 // periods
  useconds_t p = (useconds_t)nd(), p0 = p;
  timespec r = any();
  useconds_t2timespec(&p, &r);
  OBS(r.tv_sec); OBS(r.tv_nsec);
  CHECK(p == p0 && norm(r));
  CHECK(r.tv_sec >= 0 && r.tv_sec <= 4294);
  unsigned long us = (unsigned long)p - (unsigned long)r.tv_sec * 1000000UL;
  CHECK(us < 1000000UL);
  CHECK((unsigned long)r.tv_nsec == us * 1000UL);
  if (us == 999999 && r.tv_sec) REACH();
  if (p == 0xffffffffu) REACH();
  if (p == 0) REACH();
#elif PART == 5 // the event clock
  const time_t sec = (time_t)nd(); const long nsec = (long)nd_rng(0, G - 1);
  ASSUME(sec >= 0 && sec < 9223372036L);
  ck_sec = sec; ck_nsec = nsec;
  const timeabs t = (timeabs)(clockgettime());
  CHECK((unsigned long)t == (unsigned long)sec * 1000000000UL + (unsigned long)nsec);
  CHECK(ck_calls == 1); // one reading, not two different ones
  OBS(t);
  if (sec > 4294967296L) REACH();
  if (nsec == G - 1) REACH();
#endif
}
