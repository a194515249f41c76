// A monitor object: its settings, whatever the underlying calls return.
#include "task.h"
#include <periodicmonitor.h>
#undef VF_BASE
#define VF_BASE 0
static void owner() {}
static void at_create() {}
static int runs;
struct M : RTML_monitor<'a', 'b', 'c'> {
  M(useconds_t p) : RTML_monitor<'a', 'b', 'c'>(p) {}
  M(useconds_t p, unsigned s, unsigned pr) : RTML_monitor<'a', 'b', 'c'>(p, s, pr) {}
  void run() { runs++; }
};
static int rc() { return nd_bool() ? 0 : (int)nd_rng(1, 133); }
static void use(M &m, useconds_t p, int policy, int prio) {
  bool fails = rc_init || rc_policy || rc_stack || rc_param;
  CHECK(tries == (fails ? 0 : 1)); // each call once
  CHECK(attrs_live == 0);
  bool made = !fails && !rc_create;
  CHECK(creates == (made ? 1 : 0));
  if (made) {
    CHECK(!c_null && c_policy == policy && c_prio == prio);
#ifdef EFFECTIVE // a new thread inherits policy and priority of its creator unless told otherwise
    CHECK(c_explicit);
#endif
    CHECK((char *)arg >= (char *)&m && (char *)arg < (char *)(&m + 1));
    REACH();
  }
  CHECK(!m.isRunning() && m.getPeriod() == p);
  CHECK(m.id[0] == 'a' && m.id[1] == 'b' && m.id[2] == 'c' && m.id[3] == 0 && m.id[4] == 0);
  for (int i = 0; i < OPS; i++) {
    unsigned op = nd_rng(0, 3);
    if (op == 0) { p = (useconds_t)nd(); m.setPeriod(p); }
    else if (op == 1) CHECK(m.enable() == 0);
    else if (op == 2) CHECK(m.disable() == 0);
    else {
      int r = m.join();
      CHECK((r == 0) == (made && rc_join == 0)); // there is a thread to wait for
      CHECK(joins == (made ? 1 : 0));
      if (!made) REACH();
      if (r == 0) REACH();
      if (made && r) REACH();
      joins = 0;
    }
    CHECK(!m.isRunning() && m.getPeriod() == p); // nothing has started it
  }
  CHECK(runs == 0 && creates == (made ? 1 : 0));
}
extern "C" {
int nanosleep(const struct timespec *, struct timespec *) { return 0; }
int clock_gettime(clockid_t, struct timespec *t) noexcept { t->tv_sec = t->tv_nsec = 0; return 0; }
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) { return ETIMEDOUT; }
}
HARNESS {
  rc_init = rc(); rc_policy = rc(); rc_stack = rc(); rc_param = rc(); rc_create = rc(); rc_destroy = rc(); rc_join = rc();
  the_thread = (pthread_t)nd();
  useconds_t p = (useconds_t)nd();
#ifdef PLAIN
  M m(p);
  use(m, p, DEFAULT_SCHED, DEFAULT_PRIORITY);
#else
  unsigned policy = (unsigned)nd_rng(0, 6), prio = (unsigned)nd_rng(0, 99);
  M m(p, policy, prio);
  use(m, p, (int)policy, (int)prio);
#endif
}
