#ifndef SIM_TF2_GEOMETRY_MSGS_HPP_
#define SIM_TF2_GEOMETRY_MSGS_HPP_
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <tf2/convert.h>
#include <tf2/LinearMath/Matrix3x3.h>
#include <tf2/LinearMath/Quaternion.h>
#include <tf2/LinearMath/Transform.h>
#include <tf2_ros/buffer.h>
namespace tf2
{
inline geometry_msgs::msg::Pose sim_apply(
  const geometry_msgs::msg::Pose & in, const geometry_msgs::msg::TransformStamped & t)
{
  Transform a, b;
  fromMsg(t.transform, a);
  fromMsg(in, b);
  const Transform c = a * b;
  geometry_msgs::msg::Pose p;
  p.position.x = c.getOrigin().x();
  p.position.y = c.getOrigin().y();
  p.position.z = c.getOrigin().z();
  p.orientation = toMsg(c.getRotation());
  return p;
}
template<>
inline void doTransform(
  const geometry_msgs::msg::Pose & in, geometry_msgs::msg::Pose & out,
  const geometry_msgs::msg::TransformStamped & t)
{
  out = sim_apply(in, t);
}
template<>
inline void doTransform(
  const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out,
  const geometry_msgs::msg::TransformStamped & t)
{
  out.pose = sim_apply(in.pose, t);
  out.header = t.header;
}
template<>
inline void doTransform(
  const geometry_msgs::msg::PoseWithCovarianceStamped & in,
  geometry_msgs::msg::PoseWithCovarianceStamped & out,
  const geometry_msgs::msg::TransformStamped & t)
{
  out.pose.pose = sim_apply(in.pose.pose, t);
  out.header = t.header;
  Transform a;
  fromMsg(t.transform, a);
  const Matrix3x3 r = a.getBasis();
  double R[6][6] = {}, tmp[6][6] = {}, res[6][6] = {};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      R[i][j] = R[i + 3][j + 3] = r[i][j];
    }
  }
  for (int i = 0; i < 6; ++i) {
    for (int j = 0; j < 6; ++j) {
      for (int k = 0; k < 6; ++k) {
        tmp[i][j] += R[i][k] * in.pose.covariance[6 * k + j];
      }
    }
  }
  for (int i = 0; i < 6; ++i) {
    for (int j = 0; j < 6; ++j) {
      for (int k = 0; k < 6; ++k) {
        res[i][j] += tmp[i][k] * R[j][k];
      }
      out.pose.covariance[6 * i + j] = res[i][j];
    }
  }
}
template<>
inline void doTransform(
  const geometry_msgs::msg::Point & in, geometry_msgs::msg::Point & out,
  const geometry_msgs::msg::TransformStamped & t)
{
  Transform a;
  fromMsg(t.transform, a);
  const Vector3 v = a * Vector3(in.x, in.y, in.z);
  out.x = v.x();
  out.y = v.y();
  out.z = v.z();
}
template<>
inline void doTransform(
  const geometry_msgs::msg::Quaternion & in, geometry_msgs::msg::Quaternion & out,
  const geometry_msgs::msg::TransformStamped & t)
{
  Quaternion q, r;
  fromMsg(in, q);
  fromMsg(t.transform.rotation, r);
  out = toMsg(r * q);
}
}  // namespace tf2
#endif
