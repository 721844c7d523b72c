// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_VECTOR3_STAMPED
#define SIM_ROS_GEOMETRY_MSGS_VECTOR3_STAMPED
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/vector3.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct Vector3Stamped
{
  using SharedPtr = std::shared_ptr<Vector3Stamped>;
  using ConstSharedPtr = std::shared_ptr<const Vector3Stamped>;
  using UniquePtr = std::unique_ptr<Vector3Stamped>;
  using ConstUniquePtr = std::unique_ptr<const Vector3Stamped>;
  using WeakPtr = std::weak_ptr<Vector3Stamped>;
  std_msgs::msg::Header header{};
  Vector3Stamped & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  geometry_msgs::msg::Vector3 vector{};
  Vector3Stamped & set__vector(const geometry_msgs::msg::Vector3 & v) {vector = v; return *this;}
  bool operator==(const Vector3Stamped & o) const {return header == o.header && vector == o.vector;}
  bool operator!=(const Vector3Stamped & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
