// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POINT
#define SIM_ROS_GEOMETRY_MSGS_POINT
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace geometry_msgs
{
namespace msg
{
struct Point
{
  using SharedPtr = std::shared_ptr<Point>;
  using ConstSharedPtr = std::shared_ptr<const Point>;
  using UniquePtr = std::unique_ptr<Point>;
  using ConstUniquePtr = std::unique_ptr<const Point>;
  using WeakPtr = std::weak_ptr<Point>;
  double x{0};
  Point & set__x(const double & v) {x = v; return *this;}
  double y{0};
  Point & set__y(const double & v) {y = v; return *this;}
  double z{0};
  Point & set__z(const double & v) {z = v; return *this;}
  bool operator==(const Point & o) const {return x == o.x && y == o.y && z == o.z;}
  bool operator!=(const Point & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
