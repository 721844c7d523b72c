// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_TWIST_WITH_COVARIANCE_STAMPED
#define SIM_ROS_GEOMETRY_MSGS_TWIST_WITH_COVARIANCE_STAMPED
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/twist_with_covariance.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct TwistWithCovarianceStamped
{
  using SharedPtr = std::shared_ptr<TwistWithCovarianceStamped>;
  using ConstSharedPtr = std::shared_ptr<const TwistWithCovarianceStamped>;
  using UniquePtr = std::unique_ptr<TwistWithCovarianceStamped>;
  using ConstUniquePtr = std::unique_ptr<const TwistWithCovarianceStamped>;
  using WeakPtr = std::weak_ptr<TwistWithCovarianceStamped>;
  std_msgs::msg::Header header{};
  TwistWithCovarianceStamped & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  geometry_msgs::msg::TwistWithCovariance twist{};
  TwistWithCovarianceStamped & set__twist(const geometry_msgs::msg::TwistWithCovariance & v) {twist = v; return *this;}
  bool operator==(const TwistWithCovarianceStamped & o) const {return header == o.header && twist == o.twist;}
  bool operator!=(const TwistWithCovarianceStamped & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
