// Release times of a task: any clock readings, periods, job durations, early wake-ups and changes of the period.
#include "task.h"
#ifdef MON
#include <periodicmonitor.h>
#else
#include <task_compat.h>
#endif
#undef VF_BASE
#define VF_BASE 0
#ifndef CHANGES
#define CHANGES 2
#endif
static bool enabled, disabled, started, due, ran, soft, changed;
static int jobs, waits, spurious;
struct P { uint32_t sec, ns; };
static useconds_t any_period(P &x) { // the conversion of every other period is C29's
  static const useconds_t us[] = {999999, 0, 1, 999, 0, 500000, 250000, 294967, 123456, 1000, 999001, 0, 10, 100000, 750000, 1};
  static const useconds_t sec[] = {0, 1, 0, 0, 0, 0, 2, 4294, 1, 0, 59, 3600, 4000, 0, 1, 1};
  unsigned i = nd() & 15;
  x.sec = sec[i];
  x.ns = us[i] * 1000;
  return sec[i] * 1000000u + us[i];
}
static P period, before; // in force; in force before the change in the current soft window
static int64_t ds[READS]; static int64_t dn[READS]; static int nr; // clock readings since the start
static int64_t ls, ln, rs, rn; // last release
static int payload;
#ifdef MON
struct M : RTML_monitor<'m', '0'> {
  M(useconds_t p) : RTML_monitor<'m', '0'>(p) {}
  void run();
};
static M *mon;
static void set_period(useconds_t p) { mon->setPeriod(p); CHECK(mon->getPeriod() == p); }
#else
static void *job(void *);
static __task *mon;
static void set_period(useconds_t p) { mon->period = p; }
#endif
static void release() {
  CHECK(due);  // exactly one job per release, not before its time
  CHECK(!ran);
  ran = true;
  jobs++;
  vf_env();
  soft = true; changed = false; before = period;
}
#ifdef MON
void M::run() { CHECK(this == mon); release(); }
#else
static void *job(void *p) { CHECK(p == &payload); release(); return 0; }
#endif
static useconds_t pn[CHANGES]; static P ps[CHANGES]; static int next; // what the owner will change the period to
static void owner() {
  if (started && !changed && next < CHANGES && nd_bool()) {
    if (soft) { before = period; changed = true; }
    period = ps[next];
    set_period(pn[next]);
    next++;
  }
}
static void at_create() {}
extern "C" {
int nanosleep(const struct timespec *, struct timespec *) { ASSUME(false); return 0; } // enabled before it starts
int clock_gettime(clockid_t id, struct timespec *t) noexcept {
  CHECK(id == CLOCK_REALTIME); // the clock pthread_cond_timedwait uses by default
  started = true;
  t->tv_sec = (time_t)nd_rng(0, 4000000000);
  t->tv_nsec = (long)nd_rng(0, 999999999);
  if (nr < READS) { ds[nr] = t->tv_sec; dn[nr] = t->tv_nsec; nr++; }
  vf_env();
  return 0;
}
static bool after(int64_t s, int64_t n, int64_t bs, int64_t bn, const P &p) { // (s,n) is exactly p microseconds after (bs,bn)
  int64_t sec = bs + p.sec, nsec = bn + p.ns;
  if (nsec >= 1000000000) { nsec -= 1000000000; sec++; }
  return s == sec && n == nsec;
}
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *t) {
  CHECK(locked && m_init && c_init);
  if (spurious && rs == t->tv_sec && rn == t->tv_nsec && soft == false && waits && !due) { // the same release, woken early before
  } else {
    CHECK(!waits || ran); // the job of the last release has run
    bool ok = false;
    if (!waits) {
      CHECK(nr > 0);
      for (int i = 0; i < nr; i++) ok = ok || after(t->tv_sec, t->tv_nsec, ds[i], dn[i], period) || (changed && after(t->tv_sec, t->tv_nsec, ds[i], dn[i], before));
    } else ok = after(t->tv_sec, t->tv_nsec, ls, ln, period) || (changed && after(t->tv_sec, t->tv_nsec, ls, ln, before));
    CHECK(ok);
    waits++;
  }
  rs = t->tv_sec; rn = t->tv_nsec;
  soft = false; changed = false; due = false;
  vf_env(); changed = false;
  if (spurious < WAKE && nd_bool()) { spurious++; return 0; }
  due = true; ran = false;
  ls = rs; ln = rn;
  if (jobs >= JOBS) {
#ifdef MON
    mon->disable();
#else
    mon->st = ABORT;
#endif
    disabled = true;
  }
  return ETIMEDOUT;
}
}
HARNESS {
  const useconds_t p0 = any_period(period);
  before = period;
  for (int i = 0; i < CHANGES; i++) { pn[i] = any_period(ps[i]); }
  soft = true;
#ifdef MON
  M m(p0);
  mon = &m;
  m.enable();
#else
  __task m("t", job, 1, SCHED_OTHER, p0, &payload);
  mon = &m;
  m.st = ACTIVATE;
#endif
  in_task = true;
  body(arg);
  in_task = false;
  CHECK(jobs == JOBS);
  CHECK(waits == JOBS + 1);
  REACH();
  if (spurious == WAKE) REACH();
}
