#ifndef SIM_HEAP_H_
#define SIM_HEAP_H_
#include <unistd.h>
namespace sim {
extern bool g_heap_sim;
// Code of the simulator itself allocates outside of the simulated heap.
struct Outside {
  bool was;
  Outside() : was(g_heap_sim) { g_heap_sim = false; }
  ~Outside() { g_heap_sim = was; }
};
struct Inside {
  bool was;
  explicit Inside(bool v) : was(g_heap_sim) { g_heap_sim = v; }
  ~Inside() { g_heap_sim = was; }
};
}  // namespace sim
#endif
