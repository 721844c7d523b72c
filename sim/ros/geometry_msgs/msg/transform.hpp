// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_TRANSFORM
#define SIM_ROS_GEOMETRY_MSGS_TRANSFORM
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/vector3.hpp>
namespace geometry_msgs
{
namespace msg
{
struct Transform
{
  using SharedPtr = std::shared_ptr<Transform>;
  using ConstSharedPtr = std::shared_ptr<const Transform>;
  using UniquePtr = std::unique_ptr<Transform>;
  using ConstUniquePtr = std::unique_ptr<const Transform>;
  using WeakPtr = std::weak_ptr<Transform>;
  geometry_msgs::msg::Vector3 translation{};
  Transform & set__translation(const geometry_msgs::msg::Vector3 & v) {translation = v; return *this;}
  geometry_msgs::msg::Quaternion rotation{};
  Transform & set__rotation(const geometry_msgs::msg::Quaternion & v) {rotation = v; return *this;}
  bool operator==(const Transform & o) const {return translation == o.translation && rotation == o.rotation;}
  bool operator!=(const Transform & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
