#ifndef SIM_SCHED_H_
#define SIM_SCHED_H_
#include <errno.h>
#include <cstdint>
namespace sim {
extern uint64_t g_next_stop;
extern int g_pending_sig;
extern bool g_places;   // is PlaceStep() to be called at every basic block?
void PlaceStep(uintptr_t pc);
void SetStop();
void SchedStart();
void SchedStep();
void SlowStep();
int CurTask();
uint64_t NextJumpStep();
inline long RawSyscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
inline long RawErr(long r) {
  if (r < 0 && r > -4096) { errno = int(-r); return -1; }
  return r;
}
}  // namespace sim
#endif
