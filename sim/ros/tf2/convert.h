#ifndef SIM_TF2_CONVERT_H_
#define SIM_TF2_CONVERT_H_
#include <builtin_interfaces/msg/time.hpp>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/transform.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include "LinearMath/Transform.h"
#include "time.h"
namespace tf2
{
inline void fromMsg(const geometry_msgs::msg::Quaternion & in, Quaternion & out)
{
  out = Quaternion(in.x, in.y, in.z, in.w);
}
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & in)
{
  geometry_msgs::msg::Quaternion q;
  q.x = in.x();
  q.y = in.y();
  q.z = in.z();
  q.w = in.w();
  return q;
}
inline void fromMsg(const geometry_msgs::msg::Vector3 & in, Vector3 & out) {out = Vector3(in.x, in.y, in.z);}
inline geometry_msgs::msg::Vector3 toMsg(const Vector3 & in)
{
  geometry_msgs::msg::Vector3 v;
  v.x = in.x();
  v.y = in.y();
  v.z = in.z();
  return v;
}
inline void fromMsg(const geometry_msgs::msg::Transform & in, Transform & out)
{
  Vector3 v;
  Quaternion q;
  fromMsg(in.translation, v);
  fromMsg(in.rotation, q);
  out = Transform(q, v);
}
inline geometry_msgs::msg::Transform toMsg(const Transform & in)
{
  geometry_msgs::msg::Transform t;
  t.translation = toMsg(in.getOrigin());
  t.rotation = toMsg(in.getRotation());
  return t;
}
inline void fromMsg(const geometry_msgs::msg::Pose & in, Transform & out)
{
  out = Transform(Quaternion(in.orientation.x, in.orientation.y, in.orientation.z, in.orientation.w),
      Vector3(in.position.x, in.position.y, in.position.z));
}
template<class A, class B>
inline void convert(const A & a, B & b) {fromMsg(a, b);}
}  // namespace tf2
#endif
