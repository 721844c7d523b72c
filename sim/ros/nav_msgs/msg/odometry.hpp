// generated by gen_msgs.py
#ifndef SIM_ROS_NAV_MSGS_ODOMETRY
#define SIM_ROS_NAV_MSGS_ODOMETRY
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/pose_with_covariance.hpp>
#include <geometry_msgs/msg/twist_with_covariance.hpp>
#include <std_msgs/msg/header.hpp>
namespace nav_msgs
{
namespace msg
{
struct Odometry
{
  using SharedPtr = std::shared_ptr<Odometry>;
  using ConstSharedPtr = std::shared_ptr<const Odometry>;
  using UniquePtr = std::unique_ptr<Odometry>;
  using ConstUniquePtr = std::unique_ptr<const Odometry>;
  using WeakPtr = std::weak_ptr<Odometry>;
  std_msgs::msg::Header header{};
  Odometry & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  std::string child_frame_id{};
  Odometry & set__child_frame_id(const std::string & v) {child_frame_id = v; return *this;}
  geometry_msgs::msg::PoseWithCovariance pose{};
  Odometry & set__pose(const geometry_msgs::msg::PoseWithCovariance & v) {pose = v; return *this;}
  geometry_msgs::msg::TwistWithCovariance twist{};
  Odometry & set__twist(const geometry_msgs::msg::TwistWithCovariance & v) {twist = v; return *this;}
  bool operator==(const Odometry & o) const {return header == o.header && child_frame_id == o.child_frame_id && pose == o.pose && twist == o.twist;}
  bool operator!=(const Odometry & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace nav_msgs
#endif
