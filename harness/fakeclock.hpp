// steady_clock as the code under test sees it: real time, or a time the harness moves.
#pragma once
#include <chrono>
#include <time.h>
namespace fakeclock {
static bool on = false;
static int64_t now_ns = 0;
struct Scope {
  Scope() { on = true; now_ns = 1000000000; }
  ~Scope() { on = false; }
};
static inline void advance(double seconds) { now_ns += (int64_t)(seconds * 1e9); }
}  // namespace fakeclock
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  if (fakeclock::on) return time_point(duration(fakeclock::now_ns));
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(duration((int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec));
}
}}}
