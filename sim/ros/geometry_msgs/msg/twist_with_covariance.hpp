// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_TWIST_WITH_COVARIANCE
#define SIM_ROS_GEOMETRY_MSGS_TWIST_WITH_COVARIANCE
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/twist.hpp>
namespace geometry_msgs
{
namespace msg
{
struct TwistWithCovariance
{
  using SharedPtr = std::shared_ptr<TwistWithCovariance>;
  using ConstSharedPtr = std::shared_ptr<const TwistWithCovariance>;
  using UniquePtr = std::unique_ptr<TwistWithCovariance>;
  using ConstUniquePtr = std::unique_ptr<const TwistWithCovariance>;
  using WeakPtr = std::weak_ptr<TwistWithCovariance>;
  geometry_msgs::msg::Twist twist{};
  TwistWithCovariance & set__twist(const geometry_msgs::msg::Twist & v) {twist = v; return *this;}
  std::array<double, 36> covariance{};
  TwistWithCovariance & set__covariance(const std::array<double, 36> & v) {covariance = v; return *this;}
  bool operator==(const TwistWithCovariance & o) const {return twist == o.twist && covariance == o.covariance;}
  bool operator!=(const TwistWithCovariance & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
