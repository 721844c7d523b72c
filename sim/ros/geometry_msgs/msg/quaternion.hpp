// generated by gen_msgs.py
#ifndef SIM_ROS_GEOMETRY_MSGS_QUATERNION
#define SIM_ROS_GEOMETRY_MSGS_QUATERNION
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace geometry_msgs
{
namespace msg
{
struct Quaternion
{
  using SharedPtr = std::shared_ptr<Quaternion>;
  using ConstSharedPtr = std::shared_ptr<const Quaternion>;
  using UniquePtr = std::unique_ptr<Quaternion>;
  using ConstUniquePtr = std::unique_ptr<const Quaternion>;
  using WeakPtr = std::weak_ptr<Quaternion>;
  double x{0};
  Quaternion & set__x(const double & v) {x = v; return *this;}
  double y{0};
  Quaternion & set__y(const double & v) {y = v; return *this;}
  double z{0};
  Quaternion & set__z(const double & v) {z = v; return *this;}
  double w{1};
  Quaternion & set__w(const double & v) {w = v; return *this;}
  bool operator==(const Quaternion & o) const {return x == o.x && y == o.y && z == o.z && w == o.w;}
  bool operator!=(const Quaternion & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace geometry_msgs
#endif
