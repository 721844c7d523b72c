// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_TWIST
#define SIM_ROS_GEOMETRY_MSGS_TWIST
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/vector3.hpp>
namespace geometry_msgs
{
namespace msg
{
struct Twist
{
  using SharedPtr = std::shared_ptr<Twist>;
  using ConstSharedPtr = std::shared_ptr<const Twist>;
  using UniquePtr = std::unique_ptr<Twist>;
  using ConstUniquePtr = std::unique_ptr<const Twist>;
  using WeakPtr = std::weak_ptr<Twist>;
  geometry_msgs::msg::Vector3 linear{};
  Twist & set__linear(const geometry_msgs::msg::Vector3 & v) {linear = v; return *this;}
  geometry_msgs::msg::Vector3 angular{};
  Twist & set__angular(const geometry_msgs::msg::Vector3 & v) {angular = v; return *this;}
  bool operator==(const Twist & o) const {return linear == o.linear && angular == o.angular;}
  bool operator!=(const Twist & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
