// Stand-ins for ROS times, with the arithmetic the library uses.
#pragma once
#include <cstdint>
#include <functional>
namespace ros {
struct Duration {
  double s;
  explicit Duration(double s = 0) : s(s) {}
  Duration operator+(const Duration& o) const { return Duration(s + o.s); }
  Duration operator-(const Duration& o) const { return Duration(s - o.s); }
  Duration& operator+=(const Duration& o) { s += o.s; return *this; }
  bool operator<(const Duration& o) const { return s < o.s; }
  bool operator==(const Duration& o) const { return s == o.s; }
  bool operator!=(const Duration& o) const { return s != o.s; }
  double toSec() const { return s; }
  bool sleep() const;
};
struct WallDuration : Duration {
  explicit WallDuration(double s = 0) : Duration(s) {}
  bool sleep() const;
};
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t sec, uint32_t nsec) : sec(sec), nsec(nsec) {}
  explicit Time(double t) {
    sec = (uint32_t)t;
    nsec = (uint32_t)((t - sec) * 1e9 + 0.5);
    sec += nsec / 1000000000u;
    nsec %= 1000000000u;
  }
  Duration operator-(const Time& o) const { return Duration(toSec() - o.toSec()); }
  Time operator+(const Duration& o) const { return Time(toSec() + o.s); }
  bool operator<(const Time& o) const { return sec < o.sec || (sec == o.sec && nsec < o.nsec); }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  static Time now();
};
// What the harness decides about time.
struct StubClock {
  double now = 0;
  std::function<void(double)> sleep;  // seconds asked for
};
inline StubClock& stub_clock() {
  static StubClock c;
  return c;
}
inline Time Time::now() { return Time(stub_clock().now); }
inline bool Duration::sleep() const {
  if (stub_clock().sleep) stub_clock().sleep(s);
  return true;
}
inline bool WallDuration::sleep() const { return Duration::sleep(); }
class Rate {
  double hz_;

 public:
  explicit Rate(double hz) : hz_(hz) {}
  explicit Rate(const Duration& d) : hz_(1 / d.s) {}
  bool sleep() { return Duration(1 / hz_).sleep(); }
};
class WallRate : public Rate {
 public:
  explicit WallRate(double hz) : Rate(hz) {}
};
}  // namespace ros
