// The task's thread, run by the harness.  POSIX calls are stand-ins that record what they were asked for; the other
// thread (owner of the monitor) acts through vf_env(), which the engine calls before every access to the task's fields
// (config "env") and which every stand-in calls.
#ifndef TASK_H
#define TASK_H
#include "vf.h"
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#undef VF_BASE
#define VF_BASE 40000
static void owner(); // the other thread: any of its next actions, or none
static bool in_task, busy;
extern "C" __attribute__((noinline)) void vf_env() {
  if (!in_task || busy) return;
  busy = true;
  owner();
  busy = false;
}
// ---- thread creation
static void *(*body)(void *);
static void *arg;
static int creates, attrs_live, joins;
static int a_policy, a_prio; static size_t a_stack; static bool a_explicit; // of the attribute object
static bool a_valid; static int c_policy, c_prio; static size_t c_stack; static bool c_explicit, c_valid, c_null;
static pthread_t the_thread = 4711;
static int rc_init, rc_policy, rc_stack, rc_param, rc_create, rc_destroy, rc_join; // what the calls return
static int tries;
static void at_create();
extern "C" {
int pthread_attr_init(pthread_attr_t *) noexcept {
  if (rc_init) return rc_init;
  a_valid = true; a_policy = SCHED_OTHER; a_prio = 0; a_explicit = false; a_stack = 0; attrs_live++;
  return 0;
}
int pthread_attr_destroy(pthread_attr_t *) noexcept { CHECK(a_valid); a_valid = false; attrs_live--; return rc_destroy; }
int pthread_attr_setschedpolicy(pthread_attr_t *, int p) noexcept { CHECK(a_valid); if (rc_policy) return rc_policy; a_policy = p; return 0; }
int pthread_attr_setinheritsched(pthread_attr_t *, int i) noexcept { CHECK(a_valid); a_explicit = i == PTHREAD_EXPLICIT_SCHED; return 0; }
int pthread_attr_setstacksize(pthread_attr_t *, size_t s) noexcept { CHECK(a_valid); if (rc_stack) return rc_stack; a_stack = s; return 0; }
int pthread_attr_setschedparam(pthread_attr_t *, const struct sched_param *p) noexcept { CHECK(a_valid); if (rc_param) return rc_param; a_prio = p->sched_priority; return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) noexcept {
  tries++;
  CHECK(!a || a_valid);
  if (rc_create) return rc_create;
  creates++;
  *t = the_thread; body = f; arg = x;
  c_valid = true; c_policy = a_policy; c_prio = a_prio; c_explicit = a_explicit; c_stack = a_stack; c_null = !a;
  at_create();
  return 0;
}
int pthread_join(pthread_t t, void **r) {
  CHECK(creates == 1 && t == the_thread);
  joins++;
  if (r) *r = 0;
  return rc_join;
}
// ---- inside of the thread
static bool locked, m_init, c_init;
int pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) noexcept { m_init = true; vf_env(); return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) noexcept { c_init = true; vf_env(); return 0; }
int pthread_mutex_lock(pthread_mutex_t *) noexcept {
  vf_env();
  CHECK(m_init);
  CHECK(!locked);
  locked = true;
  vf_env();
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *) noexcept { vf_env(); CHECK(locked); locked = false; vf_env(); return 0; }
}
#endif
