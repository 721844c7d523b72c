// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_INT32
#define SIM_ROS_STD_MSGS_INT32
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs
{
namespace msg
{
struct Int32
{
  using SharedPtr = std::shared_ptr<Int32>;
  using ConstSharedPtr = std::shared_ptr<const Int32>;
  using UniquePtr = std::unique_ptr<Int32>;
  using ConstUniquePtr = std::unique_ptr<const Int32>;
  using WeakPtr = std::weak_ptr<Int32>;
  int32_t data{0};
  Int32 & set__data(const int32_t & v) {data = v; return *this;}
  bool operator==(const Int32 & o) const {return data == o.data;}
  bool operator!=(const Int32 & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
