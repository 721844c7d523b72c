// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_TRANSFORM_STAMPED
#define SIM_ROS_GEOMETRY_MSGS_TRANSFORM_STAMPED
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/transform.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct TransformStamped
{
  using SharedPtr = std::shared_ptr<TransformStamped>;
  using ConstSharedPtr = std::shared_ptr<const TransformStamped>;
  using UniquePtr = std::unique_ptr<TransformStamped>;
  using ConstUniquePtr = std::unique_ptr<const TransformStamped>;
  using WeakPtr = std::weak_ptr<TransformStamped>;
  std_msgs::msg::Header header{};
  TransformStamped & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  std::string child_frame_id{};
  TransformStamped & set__child_frame_id(const std::string & v) {child_frame_id = v; return *this;}
  geometry_msgs::msg::Transform transform{};
  TransformStamped & set__transform(const geometry_msgs::msg::Transform & v) {transform = v; return *this;}
  bool operator==(const TransformStamped & o) const {return header == o.header && child_frame_id == o.child_frame_id && transform == o.transform;}
  bool operator!=(const TransformStamped & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
