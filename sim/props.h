// One driver per property.  A driver draws a whole scenario (workload, faults,
// schedule) from Src, executes it in the simulated world and judges it.
#ifndef SIM_PROPS_H_
#define SIM_PROPS_H_
#include <cstdint>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "gen.h"
#include "world.h"

namespace sim {

struct Ctx {
  bool thorough = false;
  bool logging = false;         // write the human-readable part of a replay
  std::ostringstream log;
  // statistics
  uint64_t cases = 0, runs = 0, steps = 0, ops = 0, bytes_in = 0, bytes_out = 0, switches = 0, clock_reads = 0;
  uint64_t allocs = 0, crashes = 0, exit0 = 0, exit_fail = 0, killed = 0;
  double vt_s = 0;
  uint64_t fired[F_NKINDS] = {}, runs_with[F_NKINDS] = {};
  std::unordered_set<uint64_t> traces, nontrivial, interleavings, scripts;
  std::map<std::string, uint64_t> probes;
  uint64_t digest = 0;          // of everything the current case observed
  uint64_t last_trace = 0;

  void Probe(const std::string& p) { probes[p]++; }
  void Nontrivial() { nontrivial.insert(last_trace); }
};

// "" or "class: what is wrong".
typedef std::string (*Driver)(Src&, Ctx&);
Driver FindDriver(const std::string& prop, bool asan);
std::vector<std::string> DriverNames();

}  // namespace sim
#endif
