// Abseil's clock, without the processor's cycle counter: the library's own
// reads the time stamp counter besides the kernel's clock and interpolates
// between the two, which no simulated clock can see.  This one asks the kernel
// (that is, the simulator) each time.
#include <errno.h>
#include <time.h>

#include <algorithm>

#include "absl/time/clock.h"
#include "absl/time/time.h"

namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}
Time Now() { return FromUnixNanos(GetCurrentTimeNanos()); }
ABSL_NAMESPACE_END
}  // namespace absl

extern "C" {
void ABSL_INTERNAL_C_SYMBOL(AbslInternalSleepFor)(absl::Duration d) {
  while (d > absl::ZeroDuration()) {
    const absl::Duration once = std::min(d, absl::Hours(1000));
    struct timespec ts = absl::ToTimespec(once);
    while (nanosleep(&ts, &ts) != 0 && errno == EINTR) {}
    d -= once;
  }
}
}
