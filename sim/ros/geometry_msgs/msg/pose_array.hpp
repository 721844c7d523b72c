// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POSE_ARRAY
#define SIM_ROS_GEOMETRY_MSGS_POSE_ARRAY
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/pose.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct PoseArray
{
  using SharedPtr = std::shared_ptr<PoseArray>;
  using ConstSharedPtr = std::shared_ptr<const PoseArray>;
  using UniquePtr = std::unique_ptr<PoseArray>;
  using ConstUniquePtr = std::unique_ptr<const PoseArray>;
  using WeakPtr = std::weak_ptr<PoseArray>;
  std_msgs::msg::Header header{};
  PoseArray & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  std::vector<geometry_msgs::msg::Pose> poses{};
  PoseArray & set__poses(const std::vector<geometry_msgs::msg::Pose> & v) {poses = v; return *this;}
  bool operator==(const PoseArray & o) const {return header == o.header && poses == o.poses;}
  bool operator!=(const PoseArray & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
