// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_UINT32
#define SIM_ROS_STD_MSGS_UINT32
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs
{
namespace msg
{
struct UInt32
{
  using SharedPtr = std::shared_ptr<UInt32>;
  using ConstSharedPtr = std::shared_ptr<const UInt32>;
  using UniquePtr = std::unique_ptr<UInt32>;
  using ConstUniquePtr = std::unique_ptr<const UInt32>;
  using WeakPtr = std::weak_ptr<UInt32>;
  uint32_t data{0};
  UInt32 & set__data(const uint32_t & v) {data = v; return *this;}
  bool operator==(const UInt32 & o) const {return data == o.data;}
  bool operator!=(const UInt32 & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
