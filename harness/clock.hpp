// The system clock the program sees: it stands still unless a case moves it, so that a run is
// a function of the code and the seed only.
#ifndef CLOCK_HPP
#define CLOCK_HPP

#include <atomic>
#include <chrono>
#include <time.h>

static std::atomic<long> gAhead(0);  // seconds added to the clock
static std::atomic<long> gStep(0);   // seconds the clock moves at every look

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
  long a = (gAhead += gStep.load());
  return time_point(duration_cast<duration>(seconds(1700000000L + a)));
}
steady_clock::time_point steady_clock::now() noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  long a = (gAhead += gStep.load());
  return time_point(duration_cast<duration>(seconds(ts.tv_sec + a) + nanoseconds(ts.tv_nsec)));
}
} // namespace _V2
} // namespace chrono
} // namespace std

#endif
