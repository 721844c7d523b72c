// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_HEADER
#define SIM_ROS_STD_MSGS_HEADER
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <builtin_interfaces/msg/time.hpp>
namespace std_msgs
{
namespace msg
{
struct Header
{
  using SharedPtr = std::shared_ptr<Header>;
  using ConstSharedPtr = std::shared_ptr<const Header>;
  using UniquePtr = std::unique_ptr<Header>;
  using ConstUniquePtr = std::unique_ptr<const Header>;
  using WeakPtr = std::weak_ptr<Header>;
  builtin_interfaces::msg::Time stamp{};
  Header & set__stamp(const builtin_interfaces::msg::Time & v) {stamp = v; return *this;}
  std::string frame_id{};
  Header & set__frame_id(const std::string & v) {frame_id = v; return *this;}
  bool operator==(const Header & o) const {return stamp == o.stamp && frame_id == o.frame_id;}
  bool operator!=(const Header & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
