// Native replay runtime: feeds a harness the solver's values, on the real code built with g++.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
static FILE *f; static unsigned long n;
extern "C" {
void h();
uint64_t vf_nd_u64(int) {
  unsigned long long v = 0;
  if (!f) { f = fopen(getenv("VF_DRAWS"), "r"); if (!f) _exit(20); }
  if (fscanf(f, "%llu", &v) != 1) { printf("DRAWS-EXHAUSTED after %lu\n", n); fflush(stdout); _exit(12); }
  n++; return v;
}
void vf_assert(bool c, int id) {
  if (!c) { printf("ASSERT %d\n", id); fflush(stdout); _exit(10); }
}
void vf_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(11); } }
bool vf_pin(bool c) { return c; }
void vf_inside(uint64_t i, uint64_t n) { if (i >= n) { printf("OUT-OF-BOUNDS index %lld of an array of %llu\n", (long long)i, (unsigned long long)n); fflush(stdout); _exit(13); } }
void vf_reach(int id) { printf("REACH %d\n", id); fflush(stdout); }
void vf_obs(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
}
#ifdef VF_THREADS
// one coroutine per thread function; vf_pt is called at every scheduling point
#include <ucontext.h>
extern "C" {
int vf_yield(int, int);
int vf_cs();
static int stop_at; // the point this segment ends at (0: none), or -1: vf_yield decides at every point
struct co { void (*f)(); ucontext_t c; char *stack; bool started, done; int at; };
static co cos[8]; static int nco; static co *cur; static ucontext_t mainc;
static void tramp() { cur->f(); cur->done = true; swapcontext(&cur->c, &mainc); }
void vf_resume(void (*f)(), int linear) {
  stop_at = linear ? vf_cs() : -1;
  int i = 0;
  while (i < nco && cos[i].f != f) i++;
  if (i == nco) { cos[nco].f = f; nco++; }
  co &c = cos[i];
  if (c.done || (stop_at > 0 && stop_at == c.at)) return;
  cur = &c;
  if (!c.started) {
    c.started = true; c.stack = (char *)malloc(1 << 18);
    getcontext(&c.c); c.c.uc_stack.ss_sp = c.stack; c.c.uc_stack.ss_size = 1 << 18; c.c.uc_link = 0;
    makecontext(&c.c, tramp, 0);
  }
  swapcontext(&mainc, &c.c);
}
void vf_pt(int kind, int k) {
  if (kind == 9 || (stop_at < 0 ? vf_yield(kind, k) : stop_at == k)) { cur->at = k; swapcontext(&cur->c, &mainc); }
}
}
#endif
int main() { h(); printf("DONE\n"); fflush(stdout); _exit(0); }
