// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_POINT32
#define SIM_ROS_GEOMETRY_MSGS_POINT32
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace geometry_msgs
{
namespace msg
{
struct Point32
{
  using SharedPtr = std::shared_ptr<Point32>;
  using ConstSharedPtr = std::shared_ptr<const Point32>;
  using UniquePtr = std::unique_ptr<Point32>;
  using ConstUniquePtr = std::unique_ptr<const Point32>;
  using WeakPtr = std::weak_ptr<Point32>;
  float x{0};
  Point32 & set__x(const float & v) {x = v; return *this;}
  float y{0};
  Point32 & set__y(const float & v) {y = v; return *this;}
  float z{0};
  Point32 & set__z(const float & v) {z = v; return *this;}
  bool operator==(const Point32 & o) const {return x == o.x && y == o.y && z == o.z;}
  bool operator!=(const Point32 & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
