// generated by gen_msgs.py
#ifndef SIM_ROS_NAV_MSGS_PATH
#define SIM_ROS_NAV_MSGS_PATH
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <std_msgs/msg/header.hpp>
namespace nav_msgs
{
namespace msg
{
struct Path
{
  using SharedPtr = std::shared_ptr<Path>;
  using ConstSharedPtr = std::shared_ptr<const Path>;
  using UniquePtr = std::unique_ptr<Path>;
  using ConstUniquePtr = std::unique_ptr<const Path>;
  using WeakPtr = std::weak_ptr<Path>;
  std_msgs::msg::Header header{};
  Path & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  std::vector<geometry_msgs::msg::PoseStamped> poses{};
  Path & set__poses(const std::vector<geometry_msgs::msg::PoseStamped> & v) {poses = v; return *this;}
  bool operator==(const Path & o) const {return header == o.header && poses == o.poses;}
  bool operator!=(const Path & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace nav_msgs
#endif
