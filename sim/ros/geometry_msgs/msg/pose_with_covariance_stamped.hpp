// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POSE_WITH_COVARIANCE_STAMPED
#define SIM_ROS_GEOMETRY_MSGS_POSE_WITH_COVARIANCE_STAMPED
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/pose_with_covariance.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct PoseWithCovarianceStamped
{
  using SharedPtr = std::shared_ptr<PoseWithCovarianceStamped>;
  using ConstSharedPtr = std::shared_ptr<const PoseWithCovarianceStamped>;
  using UniquePtr = std::unique_ptr<PoseWithCovarianceStamped>;
  using ConstUniquePtr = std::unique_ptr<const PoseWithCovarianceStamped>;
  using WeakPtr = std::weak_ptr<PoseWithCovarianceStamped>;
  std_msgs::msg::Header header{};
  PoseWithCovarianceStamped & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  geometry_msgs::msg::PoseWithCovariance pose{};
  PoseWithCovarianceStamped & set__pose(const geometry_msgs::msg::PoseWithCovariance & v) {pose = v; return *this;}
  bool operator==(const PoseWithCovarianceStamped & o) const {return header == o.header && pose == o.pose;}
  bool operator!=(const PoseWithCovarianceStamped & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
