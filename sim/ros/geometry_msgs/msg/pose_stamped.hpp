// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POSE_STAMPED
#define SIM_ROS_GEOMETRY_MSGS_POSE_STAMPED
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/pose.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct PoseStamped
{
  using SharedPtr = std::shared_ptr<PoseStamped>;
  using ConstSharedPtr = std::shared_ptr<const PoseStamped>;
  using UniquePtr = std::unique_ptr<PoseStamped>;
  using ConstUniquePtr = std::unique_ptr<const PoseStamped>;
  using WeakPtr = std::weak_ptr<PoseStamped>;
  std_msgs::msg::Header header{};
  PoseStamped & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  geometry_msgs::msg::Pose pose{};
  PoseStamped & set__pose(const geometry_msgs::msg::Pose & v) {pose = v; return *this;}
  bool operator==(const PoseStamped & o) const {return header == o.header && pose == o.pose;}
  bool operator!=(const PoseStamped & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
