#pragma once
#include <sys/time.h>
#include <cstdint>
#include <ctime>
namespace shim {
// Virtual clock: when >= 0 it replaces the wall clock seen through butil (microseconds).
extern int64_t g_virtual_us;
int64_t NowUs();
int64_t MonoUs();
}
namespace butil {
inline int64_t gettimeofday_us() { return shim::NowUs(); }
inline int64_t gettimeofday_ms() { return shim::NowUs() / 1000; }
inline int64_t gettimeofday_s() { return shim::NowUs() / 1000000; }
inline int64_t monotonic_time_us() { return shim::MonoUs(); }
inline int64_t monotonic_time_ms() { return shim::MonoUs() / 1000; }
inline int64_t monotonic_time_s() { return shim::MonoUs() / 1000000; }
inline int64_t monotonic_time_ns() { return shim::MonoUs() * 1000; }
inline int64_t cpuwide_time_us() { return shim::MonoUs(); }
inline int64_t cpuwide_time_ns() { return shim::MonoUs() * 1000; }
inline int64_t cpuwide_time_ms() { return shim::MonoUs() / 1000; }
inline timespec microseconds_to_timespec(int64_t us) { timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (us % 1000000) * 1000; return t; }
inline timespec microseconds_from_now(int64_t us) { return microseconds_to_timespec(gettimeofday_us() + us); }
inline timespec milliseconds_from_now(int64_t ms) { return microseconds_to_timespec(gettimeofday_us() + ms * 1000); }
inline timespec seconds_from_now(int64_t s) { return microseconds_to_timespec(gettimeofday_us() + s * 1000000); }
class Timer {
 public:
  enum TimerType { STARTED };
  Timer() {}
  explicit Timer(TimerType) { start(); }
  void start() { s_ = shim::MonoUs(); e_ = s_; }
  void stop() { e_ = shim::MonoUs(); }
  int64_t n_elapsed() const { return (e_ - s_) * 1000; }
  int64_t u_elapsed() const { return e_ - s_; }
  int64_t m_elapsed() const { return (e_ - s_) / 1000; }
  int64_t s_elapsed() const { return (e_ - s_) / 1000000; }
 private:
  int64_t s_ = 0, e_ = 0;
};
}  // namespace butil
