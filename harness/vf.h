// Harness vocabulary.  Symbolically (CBMC) vf_nd_u64 returns an unconstrained 64-bit value;
// natively (replay) it returns the next value of the solver's assignment.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_nd_u64(int tag);
[[clang::nomerge]] void vf_assert(bool, int);
void vf_assume(bool);
bool vf_pin(bool); // the argument, which is expected to hold always (lets the engine keep a value concrete)
[[clang::nomerge]] void vf_reach(int);
void vf_obs(uint64_t);
}
#define VF_BASE 0 // headers use their own range of ids
#define CHECK(c) vf_assert((c), VF_BASE + __LINE__)
#define ASSUME(c) vf_assume(c)
#define REACH() vf_reach(VF_BASE + __LINE__)
#define OBS(x) vf_obs((uint64_t)(x))
#define HARNESS extern "C" void h()
static inline uint64_t nd() { return vf_nd_u64(0); }
static inline bool nd_bool() { return vf_nd_u64(1) & 1; }
// value in [lo,hi]
static inline uint64_t nd_rng(uint64_t lo, uint64_t hi) {
  uint64_t v = vf_nd_u64(2);
  vf_assume(v >= lo && v <= hi);
  return v;
}
// Spinning code calls sched_yield.  In a single-threaded harness nobody else can make progress, so a call that
// yields more than SPINS times never returns.
#ifdef SPINS
#undef VF_BASE
#define VF_BASE 10000
#include <sched.h>
static int vf_yields;
extern "C" int sched_yield() noexcept {
  vf_pin(false); // first try: nobody ever yields
  vf_yields++;
  if (vf_yields > SPINS) { CHECK(!"the call spins although no other thread is involved"); ASSUME(false); }
  return 0;
}
#undef VF_BASE
#define VF_BASE 0
#endif
#endif
