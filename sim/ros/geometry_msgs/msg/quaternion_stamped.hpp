// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_QUATERNION_STAMPED
#define SIM_ROS_GEOMETRY_MSGS_QUATERNION_STAMPED
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/quaternion.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct QuaternionStamped
{
  using SharedPtr = std::shared_ptr<QuaternionStamped>;
  using ConstSharedPtr = std::shared_ptr<const QuaternionStamped>;
  using UniquePtr = std::unique_ptr<QuaternionStamped>;
  using ConstUniquePtr = std::unique_ptr<const QuaternionStamped>;
  using WeakPtr = std::weak_ptr<QuaternionStamped>;
  std_msgs::msg::Header header{};
  QuaternionStamped & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  geometry_msgs::msg::Quaternion quaternion{};
  QuaternionStamped & set__quaternion(const geometry_msgs::msg::Quaternion & v) {quaternion = v; return *this;}
  bool operator==(const QuaternionStamped & o) const {return header == o.header && quaternion == o.quaternion;}
  bool operator!=(const QuaternionStamped & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
