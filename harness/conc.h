// Threads as step functions.  In the encoding a thread function runs from one scheduling point (an access to shared memory) to
// the next one where vf_yield says so; calls of sched_yield always return to the scheduler.
//   SEGS  number of segments with preemption at any point; afterwards every thread gets to run without preemption
#ifndef CONC_H
#define CONC_H
#include "vf.h"
#undef VF_BASE
#define VF_BASE 30000
#ifndef ROUNDS
#define ROUNDS 3
#endif
static bool vf_preempt;
extern "C" __attribute__((used)) int vf_yield(int, int) {
  if (!vf_preempt) return 0;
  return (int)(vf_nd_u64(9) & 1);
}
// the scheduling point at which the segment about to run ends; 0: at none
extern "C" __attribute__((used)) int vf_cs() {
  if (!vf_preempt) return 0;
  return (int)vf_nd_u64(9);
}
#define THREAD(T) extern "C" __attribute__((noinline)) void T()
#undef VF_BASE
#define VF_BASE 0
#endif
