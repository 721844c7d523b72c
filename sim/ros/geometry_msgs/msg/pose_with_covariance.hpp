// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POSE_WITH_COVARIANCE
#define SIM_ROS_GEOMETRY_MSGS_POSE_WITH_COVARIANCE
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/pose.hpp>
namespace geometry_msgs
{
namespace msg
{
struct PoseWithCovariance
{
  using SharedPtr = std::shared_ptr<PoseWithCovariance>;
  using ConstSharedPtr = std::shared_ptr<const PoseWithCovariance>;
  using UniquePtr = std::unique_ptr<PoseWithCovariance>;
  using ConstUniquePtr = std::unique_ptr<const PoseWithCovariance>;
  using WeakPtr = std::weak_ptr<PoseWithCovariance>;
  geometry_msgs::msg::Pose pose{};
  PoseWithCovariance & set__pose(const geometry_msgs::msg::Pose & v) {pose = v; return *this;}
  std::array<double, 36> covariance{};
  PoseWithCovariance & set__covariance(const std::array<double, 36> & v) {covariance = v; return *this;}
  bool operator==(const PoseWithCovariance & o) const {return pose == o.pose && covariance == o.covariance;}
  bool operator!=(const PoseWithCovariance & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
