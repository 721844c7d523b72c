// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POINT_STAMPED
#define SIM_ROS_GEOMETRY_MSGS_POINT_STAMPED
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/point.hpp>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs
{
namespace msg
{
struct PointStamped
{
  using SharedPtr = std::shared_ptr<PointStamped>;
  using ConstSharedPtr = std::shared_ptr<const PointStamped>;
  using UniquePtr = std::unique_ptr<PointStamped>;
  using ConstUniquePtr = std::unique_ptr<const PointStamped>;
  using WeakPtr = std::weak_ptr<PointStamped>;
  std_msgs::msg::Header header{};
  PointStamped & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  geometry_msgs::msg::Point point{};
  PointStamped & set__point(const geometry_msgs::msg::Point & v) {point = v; return *this;}
  bool operator==(const PointStamped & o) const {return header == o.header && point == o.point;}
  bool operator!=(const PointStamped & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
