// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_BOOL
#define SIM_ROS_STD_MSGS_BOOL
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs
{
namespace msg
{
struct Bool
{
  using SharedPtr = std::shared_ptr<Bool>;
  using ConstSharedPtr = std::shared_ptr<const Bool>;
  using UniquePtr = std::unique_ptr<Bool>;
  using ConstUniquePtr = std::unique_ptr<const Bool>;
  using WeakPtr = std::weak_ptr<Bool>;
  bool data{false};
  Bool & set__data(const bool & v) {data = v; return *this;}
  bool operator==(const Bool & o) const {return data == o.data;}
  bool operator!=(const Bool & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
