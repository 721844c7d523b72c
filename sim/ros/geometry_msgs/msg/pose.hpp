// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POSE
#define SIM_ROS_GEOMETRY_MSGS_POSE
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
namespace geometry_msgs
{
namespace msg
{
struct Pose
{
  using SharedPtr = std::shared_ptr<Pose>;
  using ConstSharedPtr = std::shared_ptr<const Pose>;
  using UniquePtr = std::unique_ptr<Pose>;
  using ConstUniquePtr = std::unique_ptr<const Pose>;
  using WeakPtr = std::weak_ptr<Pose>;
  geometry_msgs::msg::Point position{};
  Pose & set__position(const geometry_msgs::msg::Point & v) {position = v; return *this;}
  geometry_msgs::msg::Quaternion orientation{};
  Pose & set__orientation(const geometry_msgs::msg::Quaternion & v) {orientation = v; return *this;}
  bool operator==(const Pose & o) const {return position == o.position && orientation == o.orientation;}
  bool operator!=(const Pose & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
