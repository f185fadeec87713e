// Deterministic scheduling: at most one thread of the simulated process runs;
// who that is changes only at basic blocks of the code under test, at
// intercepted calls, and when a blocking primitive would block.
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unistd.h>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>

#include "heap.h"
#include "tasks.h"
#include "world.h"

namespace sim {
uint64_t g_next_stop = ~0ULL;
namespace {
constexpr int kMax = 64;
struct Task {
  sem_t sem;
  bool done, blocked;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  pthread_t th;
};
Task g_task[kMax];
int g_ntask = 1;  // task 0 is the main thread
int g_cur = 0;
size_t g_next_preempt = 0;
uint64_t g_next_switch = ~0ULL, g_forced = ~0ULL;
uint64_t g_spin_steps = 0, g_spins = 0;
Rng g_rng(1);
thread_local int t_id = 0;
constexpr uint64_t kForce = 1000000;
constexpr size_t kPlaces = 1 << 15;
uint32_t g_place[kPlaces];


int Runnable(int from) {
  for (int i = 0; i < g_ntask; i++) {
    int t = (from + i) % g_ntask;
    if (!g_task[t].done && !g_task[t].blocked) return t;
  }
  return -1;
}

void ScheduleNext() {  // when is the next planned switch?
  uint64_t now = g_sh->steps;
  g_next_switch = ~0ULL;
  if (g_ntask > 1) {
    if (g_plan->quantum_max) {
      g_next_switch = now + 1 + g_rng.below(g_plan->quantum_max);
    } else {
      while (g_next_preempt < g_plan->preempt.size() && g_plan->preempt[g_next_preempt].first <= now) g_next_preempt++;
      if (g_next_preempt < g_plan->preempt.size()) g_next_switch = g_plan->preempt[g_next_preempt].first;
    }
    g_forced = now + kForce;
  } else {
    g_forced = ~0ULL;
  }
  g_places = g_ntask > 1 && g_plan->places;
  SetStop();
}

void SwitchTo(int t, uint64_t why) {
  int self = g_cur;
  if (t == self) return;
  g_sh->switches++;
  uint64_t v[3] = {uint64_t(self) << 8 | uint64_t(t), g_sh->steps, why};
  g_sh->il_hash = Hash(v, sizeof v, g_sh->il_hash);
  bool heap = g_heap_sim;
  g_cur = t;
  sem_post(&g_task[t].sem);
  if (g_task[self].done) return;
  while (sem_wait(&g_task[self].sem) != 0) {}
  g_heap_sim = heap;
}

// What a thread does at its end (destructors of its thread_locals and of its
// thread-specific data) is part of its task: the task is over, and the next one
// goes on, in the last of the rounds the C library makes through these.
pthread_key_t g_end_key;
void TaskEnd(void* p) {
  int id = t_id;
  if (uintptr_t(p) < 3) {
    pthread_setspecific(g_end_key, reinterpret_cast<void*>(uintptr_t(p) + 1));
    return;
  }
  g_heap_sim = false;
  g_task[id].done = true;
  int n = -1;
  for (int i = 0; i < g_ntask; i++)  // wake joiners
    g_task[i].blocked = false;
  n = Runnable(id + 1);
  ScheduleNext();
  if (n >= 0) SwitchTo(n, 1);
}

void* Tramp(void* p) {
  int id = int(intptr_t(p));
  t_id = id;
  while (sem_wait(&g_task[id].sem) != 0) {}
  pthread_setspecific(g_end_key, reinterpret_cast<void*>(uintptr_t(1)));
  g_heap_sim = true;
  return g_task[id].ret = g_task[id].fn(g_task[id].arg);
}

template <class F> F Real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
}  // namespace

bool InTask() { return g_in_sim && g_ntask > 1; }
int CurTask() { return g_cur; }

void SetStop() {
  uint64_t s = g_plan->max_steps;
  if (g_pending_sig) { g_next_stop = 0; return; }
  if (g_plan->crash_step >= 0 && uint64_t(g_plan->crash_step) < s) s = g_plan->crash_step;
  if (NextJumpStep() < s) s = NextJumpStep();
  if (g_next_switch < s) s = g_next_switch;
  if (g_forced < s) s = g_forced;
  g_next_stop = s;
}

void SchedStart() {
  memset(g_task, 0, sizeof(g_task));
  g_ntask = 1;
  g_cur = 0;
  g_next_preempt = 0;
  g_rng = Rng(g_plan->quantum_seed);
  memset(g_place, 0, sizeof(g_place));
  static bool key = pthread_key_create(&g_end_key, TaskEnd) == 0;
  if (!key) _exit(98);
  sem_init(&g_task[0].sem, 0, 0);
  g_task[0].th = pthread_self();
  ScheduleNext();
}

// A planned or forced switch at a basic block.
void SchedStep() {
  uint64_t now = g_sh->steps;
  if (now < g_next_switch && now < g_forced) return;
  bool planned = now >= g_next_switch;
  int t;
  if (planned && !g_plan->quantum_max) {
    uint32_t w = g_plan->preempt[g_next_preempt].second;
    t = Runnable(1 + int(w % uint32_t(g_ntask > 1 ? g_ntask - 1 : 1)));
  } else if (planned) {
    t = Runnable(int(g_rng.below(g_ntask)));
  } else {
    t = Runnable(g_cur + 1);
  }
  if (planned) g_sh->fired[F_PREEMPT]++;
  ScheduleNext();
  if (t >= 0 && t != g_cur) SwitchTo(t, 2);
}

bool g_places = false;
void PlaceStep(uintptr_t pc) {
  uint32_t& n = g_place[(pc ^ pc >> 15) % kPlaces];
  if (g_rng.below(++n * g_plan->places)) return;
  int t = Runnable(int(g_rng.below(g_ntask)));
  if (t < 0 || t == g_cur) return;
  g_sh->fired[F_PREEMPT]++;
  ScheduleNext();
  SwitchTo(t, 5);
}

void SchedYield() {
  if (g_spin_steps != g_sh->steps) { g_spin_steps = g_sh->steps; g_spins = 0; }
  if (++g_spins > 20000) Die(E_DEADLOCK);
  if (!InTask()) return;
  int t = Runnable(g_cur + 1);
  ScheduleNext();
  if (t >= 0 && t != g_cur) SwitchTo(t, 3);
}

int SpawnTask(void* (*fn)(void*), void* arg, pthread_t* th) {
  Outside o;
  if (g_ntask >= kMax) return EAGAIN;
  int id = g_ntask;
  Task& t = g_task[id];
  sem_init(&t.sem, 0, 0);
  t.fn = fn;
  t.arg = arg;
  pthread_attr_t at;
  pthread_attr_init(&at);
#ifndef SIM_ASAN
  const size_t kStack = 1 << 20;
  char* st = static_cast<char*>(mmap(reinterpret_cast<void*>(0x300000000000ULL + uint64_t(id) * (4 << 20)), kStack,
                                     PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
  if (st != MAP_FAILED) {
    ScrubStack(st + kStack - (128 << 10), 128 << 10);
    pthread_attr_setstack(&at, st, kStack);
  }
#endif
  static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  int r = real(&t.th, &at, Tramp, reinterpret_cast<void*>(intptr_t(id)));
  pthread_attr_destroy(&at);
  if (r) return r;
  *th = t.th;
  g_ntask++;
  ScheduleNext();
  return 0;
}

int JoinTask(pthread_t th, void** ret) {
  int id = -1;
  for (int i = 1; i < g_ntask; i++) if (pthread_equal(g_task[i].th, th)) id = i;
  if (id < 0) return ESRCH;
  while (!g_task[id].done) {
    g_task[g_cur].blocked = true;
    int t = Runnable(g_cur + 1);
    if (t < 0) Die(E_DEADLOCK);
    SwitchTo(t, 4);
  }
  Outside o;
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  return real(th, ret);
}

namespace { void (*g_body)(size_t); void* Body(void* p) { g_body(size_t(p)); return nullptr; } }
void RunThreads(size_t n, void (*body)(size_t)) {
  g_body = body;
  pthread_t th[kMax];
  for (size_t i = 0; i < n; i++) SpawnTask(Body, reinterpret_cast<void*>(i), &th[i]);
  ScheduleNext();
  for (size_t i = 0; i < n; i++) JoinTask(th[i], nullptr);
}
}  // namespace sim

using namespace sim;
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!g_in_sim) return real(th, at, fn, arg);
  return SpawnTask(fn, arg, th);
}
int pthread_join(pthread_t th, void** ret) {
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  if (!g_in_sim) return real(th, ret);
  return JoinTask(th, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!InTask()) return real(m);
  int r;
  while ((r = pthread_mutex_trylock(m)) == EBUSY) SchedYield();
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  if (!InTask()) return real(m);
  int r;
  while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) SchedYield();
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  if (!InTask()) return real(m);
  int r;
  while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) SchedYield();
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!InTask()) return real(c, m);
  pthread_mutex_unlock(m);
  SchedYield();  // a spurious wake-up is always allowed
  return pthread_mutex_lock(m);
}
int pthread_once(pthread_once_t* c, void (*fn)(void)) {
  volatile int* s = reinterpret_cast<volatile int*>(c);
  if (!InTask()) {
    static auto real = Real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    return real(c, fn);
  }
  while (*s != 2) {
    if (*s == 0) {
      *s = 1;
      try { fn(); } catch (...) { *s = 0; throw; }
      *s = 2;
    } else {
      SchedYield();
    }
  }
  return 0;
}
// One-time initialisation of function-local statics.
int __cxa_guard_acquire(long long* gl) {
  char* g = reinterpret_cast<char*>(gl);
  if (g[0]) return 0;
  while (g[1]) {
    SchedYield();
    if (g[0]) return 0;
  }
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* gl) {
  char* g = reinterpret_cast<char*>(gl);
  g[1] = 0;
  __atomic_store_n(&g[0], 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(long long* gl) { reinterpret_cast<char*>(gl)[1] = 0; }

#ifndef SIM_ASAN
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && InTask()) {
    int op = int(a[1]) & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      SchedYield();
      errno = EAGAIN;
      return -1;
    }
  }
  if (g_in_sim) {
    if (n == SYS_getrandom) return getrandom(reinterpret_cast<void*>(a[0]), size_t(a[1]), unsigned(a[2]));
    if (n == SYS_getpid || n == SYS_gettid) return getpid();
    if (n == SYS_clock_gettime) return clock_gettime(clockid_t(a[0]), reinterpret_cast<struct timespec*>(a[1]));
  }
  return RawErr(RawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
#endif

__attribute__((no_instrument_function)) void __sanitizer_cov_trace_pc() {
  if (!g_in_sim) return;
  if (g_places) PlaceStep(reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
  if (++g_sh->steps < g_next_stop) return;
  SlowStep();
}
}
