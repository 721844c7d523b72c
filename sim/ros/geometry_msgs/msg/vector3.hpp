// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_VECTOR3
#define SIM_ROS_GEOMETRY_MSGS_VECTOR3
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace geometry_msgs
{
namespace msg
{
struct Vector3
{
  using SharedPtr = std::shared_ptr<Vector3>;
  using ConstSharedPtr = std::shared_ptr<const Vector3>;
  using UniquePtr = std::unique_ptr<Vector3>;
  using ConstUniquePtr = std::unique_ptr<const Vector3>;
  using WeakPtr = std::weak_ptr<Vector3>;
  double x{0};
  Vector3 & set__x(const double & v) {x = v; return *this;}
  double y{0};
  Vector3 & set__y(const double & v) {y = v; return *this;}
  double z{0};
  Vector3 & set__z(const double & v) {z = v; return *this;}
  bool operator==(const Vector3 & o) const {return x == o.x && y == o.y && z == o.z;}
  bool operator!=(const Vector3 & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
