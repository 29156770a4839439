#ifndef OPENTRACING_UTIL_H
#define OPENTRACING_UTIL_H
#include <opentracing/expected.h>
#include <opentracing/version.h>
#include <chrono>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
using SystemClock = std::chrono::system_clock;
using SystemTime = SystemClock::time_point;
using SteadyClock = std::chrono::steady_clock;
using SteadyTime = SteadyClock::time_point;
template <class ToDuration, class Rep, class Period>
inline ToDuration duration_cast_(const std::chrono::duration<Rep, Period>& d) {
  return std::chrono::duration_cast<ToDuration>(d);
}
inline SystemTime convert_time_point_system(SteadyTime from) {
  return SystemClock::now() +
         std::chrono::duration_cast<SystemClock::duration>(from -
                                                           SteadyClock::now());
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
