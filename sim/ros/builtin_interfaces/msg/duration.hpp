// generated by gen_msgs.py
#ifndef SIM_ROS_BUILTIN_INTERFACES_DURATION
#define SIM_ROS_BUILTIN_INTERFACES_DURATION
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace builtin_interfaces
{
namespace msg
{
struct Duration
{
  using SharedPtr = std::shared_ptr<Duration>;
  using ConstSharedPtr = std::shared_ptr<const Duration>;
  using UniquePtr = std::unique_ptr<Duration>;
  using ConstUniquePtr = std::unique_ptr<const Duration>;
  using WeakPtr = std::weak_ptr<Duration>;
  int32_t sec{0};
  Duration & set__sec(const int32_t & v) {sec = v; return *this;}
  uint32_t nanosec{0};
  Duration & set__nanosec(const uint32_t & v) {nanosec = v; return *this;}
  bool operator==(const Duration & o) const {return sec == o.sec && nanosec == o.nanosec;}
  bool operator!=(const Duration & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace builtin_interfaces
#endif
