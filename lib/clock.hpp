// A virtual clock: while `vclock::on`, std::chrono reads it, and every reading
// moves it forward.
#ifndef VERIF_CLOCK_HPP
#define VERIF_CLOCK_HPP
#include <time.h>
#include <chrono>
namespace vclock {
inline bool on = false;
inline int64_t elapsed = 0;  // nanoseconds since the case began
inline int64_t step = 1000;  // advance at every reading
inline int64_t system_base = 1600000000000000000ll;
inline int64_t steady_base = 1000000000000000ll;
inline int64_t system_now() { return system_base + elapsed; }
inline int64_t steady_now() { return steady_base + elapsed; }
inline int64_t tick() { return elapsed += step; }
struct Use {
  Use(int64_t s) {
    on = true;
    elapsed = 0;
    step = s;
  }
  ~Use() { on = false; }
};
}  // namespace vclock
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  timespec ts{0, 0};
  if (vclock::on) {
    vclock::tick();
    return time_point{duration_cast<duration>(nanoseconds{vclock::system_now()})};
  }
  clock_gettime(CLOCK_REALTIME, &ts);
  return time_point{duration_cast<duration>(seconds{ts.tv_sec} +
                                            nanoseconds{ts.tv_nsec})};
}
steady_clock::time_point steady_clock::now() noexcept {
  timespec ts{0, 0};
  if (vclock::on) {
    vclock::tick();
    return time_point{duration_cast<duration>(nanoseconds{vclock::steady_now()})};
  }
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point{duration_cast<duration>(seconds{ts.tv_sec} +
                                            nanoseconds{ts.tv_nsec})};
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
#endif
