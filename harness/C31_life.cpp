// Life of a task: any placement of the owner's enable and disable between the accesses of the task's thread.
#include "task.h"
#include <periodicmonitor.h>
#undef VF_BASE
#define VF_BASE 0
static bool enabled, disabled;
static int jobs, after, naps, naps_e, naps_d, waits_d, spurious;
struct M : RTML_monitor<'m', '0'> {
  M(useconds_t p) : RTML_monitor<'m', '0'>(p) {}
  void run() {
    CHECK(enabled);
    jobs++;
    if (disabled) { after++; CHECK(after <= 1); } // only the job that was already released
    CHECK(isRunning() || disabled);
    vf_env();
  }
};
static M *mon;
static void owner() {
#ifdef EARLY
  return;
#endif
  if (!enabled && !disabled && nd_bool()) { CHECK(!mon->isRunning()); CHECK(mon->enable() == 0); enabled = true; }
#ifdef AGAIN // enable a second time
  else if (enabled && !disabled && nd_bool()) CHECK(mon->enable() == 0);
#endif
  if (!disabled && nd_bool()) { CHECK(mon->disable() == 0); disabled = true; }
}
static void at_create() {
#ifdef EARLY // the new thread gets to run before pthread_create returns
  in_task = true;
  enabled = false;
  body(arg);
  CHECK(!"the thread ends before it was enabled or disabled");
#endif
}
extern "C" {
int nanosleep(const struct timespec *, struct timespec *) {
#ifdef EARLY
  REACH(); // waits to be enabled
  ASSUME(false);
#endif
  CHECK(!locked);
  naps++;
  if (enabled) naps_e++;
  if (disabled) naps_d++;
  CHECK(naps_e <= 1); // an enabled task starts
  CHECK(naps_d <= 1); // a disabled one ends
  vf_env();
  ASSUME(naps <= NAPS);
  return 0;
}
int clock_gettime(clockid_t, struct timespec *t) noexcept {
  t->tv_sec = (time_t)nd_rng(0, 1000);
  t->tv_nsec = (long)nd_rng(0, 999999999);
  vf_env();
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *t) {
  CHECK(locked && m_init && c_init);
  CHECK(enabled); // an idle task is not started
  CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000);
  if (spurious < WAKE && nd_bool()) { spurious++; vf_env(); return 0; } // woken before the time
  if (disabled) { waits_d++; CHECK(waits_d <= 1); }
  if (jobs >= JOBS) ASSUME(disabled);
  vf_env();
  return ETIMEDOUT;
}
}
HARNESS {
#ifdef EARLY
  static M m((useconds_t)nd());
#else
  M m((useconds_t)nd());
  mon = &m;
  CHECK(creates == 1);
  CHECK((char *)arg >= (char *)&m && (char *)arg < (char *)(&m + 1));
  CHECK(!m.isRunning());
  in_task = true;
  body(arg);
  in_task = false;
  CHECK(disabled);      // for no other reason
  CHECK(!m.isRunning());
  CHECK(!locked);
  CHECK(m.join() == 0);
  if (jobs == JOBS) REACH();
  if (spurious == WAKE && jobs && after == 1) REACH();
  if (!enabled) REACH();
  if (enabled && !jobs) REACH();
#endif
}
