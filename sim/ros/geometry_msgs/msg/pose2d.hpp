// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POSE2D
#define SIM_ROS_GEOMETRY_MSGS_POSE2D
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace geometry_msgs
{
namespace msg
{
struct Pose2D
{
  using SharedPtr = std::shared_ptr<Pose2D>;
  using ConstSharedPtr = std::shared_ptr<const Pose2D>;
  using UniquePtr = std::unique_ptr<Pose2D>;
  using ConstUniquePtr = std::unique_ptr<const Pose2D>;
  using WeakPtr = std::weak_ptr<Pose2D>;
  double x{0};
  Pose2D & set__x(const double & v) {x = v; return *this;}
  double y{0};
  Pose2D & set__y(const double & v) {y = v; return *this;}
  double theta{0};
  Pose2D & set__theta(const double & v) {theta = v; return *this;}
  bool operator==(const Pose2D & o) const {return x == o.x && y == o.y && theta == o.theta;}
  bool operator!=(const Pose2D & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
