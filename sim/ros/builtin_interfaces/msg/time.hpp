// generated by gen_msgs.py
#ifndef SIM_ROS_BUILTIN_INTERFACES_TIME
#define SIM_ROS_BUILTIN_INTERFACES_TIME
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace builtin_interfaces
{
namespace msg
{
struct Time
{
  using SharedPtr = std::shared_ptr<Time>;
  using ConstSharedPtr = std::shared_ptr<const Time>;
  using UniquePtr = std::unique_ptr<Time>;
  using ConstUniquePtr = std::unique_ptr<const Time>;
  using WeakPtr = std::weak_ptr<Time>;
  int32_t sec{0};
  Time & set__sec(const int32_t & v) {sec = v; return *this;}
  uint32_t nanosec{0};
  Time & set__nanosec(const uint32_t & v) {nanosec = v; return *this;}
  bool operator==(const Time & o) const {return sec == o.sec && nanosec == o.nanosec;}
  bool operator!=(const Time & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace builtin_interfaces
#endif
