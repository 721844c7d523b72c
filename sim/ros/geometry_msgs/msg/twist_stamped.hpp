// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_TWIST_STAMPED
#define SIM_ROS_GEOMETRY_MSGS_TWIST_STAMPED
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/twist.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct TwistStamped
{
  using SharedPtr = std::shared_ptr<TwistStamped>;
  using ConstSharedPtr = std::shared_ptr<const TwistStamped>;
  using UniquePtr = std::unique_ptr<TwistStamped>;
  using ConstUniquePtr = std::unique_ptr<const TwistStamped>;
  using WeakPtr = std::weak_ptr<TwistStamped>;
  std_msgs::msg::Header header{};
  TwistStamped & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  geometry_msgs::msg::Twist twist{};
  TwistStamped & set__twist(const geometry_msgs::msg::Twist & v) {twist = v; return *this;}
  bool operator==(const TwistStamped & o) const {return header == o.header && twist == o.twist;}
  bool operator!=(const TwistStamped & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
