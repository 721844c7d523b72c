#ifndef SIM_TF2_TIME_H_
#define SIM_TF2_TIME_H_
#include <chrono>
namespace tf2
{
using Duration = std::chrono::nanoseconds;
using TimePoint = std::chrono::time_point<std::chrono::system_clock, Duration>;
constexpr TimePoint TimePointZero = TimePoint(std::chrono::nanoseconds(0));
inline TimePoint timeFromSec(double s)
{
  return TimePoint(std::chrono::nanoseconds(static_cast<long long>(s * 1e9)));
}
inline Duration durationFromSec(double s)
{
  return std::chrono::nanoseconds(static_cast<long long>(s * 1e9));
}
inline double timeToSec(const TimePoint & t) {return t.time_since_epoch().count() * 1e-9;}
inline double durationToSec(const Duration & t) {return t.count() * 1e-9;}
}  // namespace tf2
#endif
