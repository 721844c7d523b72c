#ifndef SIM_TF2_EIGEN_HPP_
#define SIM_TF2_EIGEN_HPP_
#include <Eigen/Geometry>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <geometry_msgs/msg/twist.hpp>
#include <tf2/convert.h>
#include <tf2_ros/buffer.h>
namespace tf2
{
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{
  return Eigen::Isometry3d(
    Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) *
    Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t)
{
  return transformToEigen(t.transform);
}
template<class T>
inline geometry_msgs::msg::TransformStamped sim_eigenToTransform(const T & t)
{
  geometry_msgs::msg::TransformStamped m;
  m.transform.translation.x = t.translation().x();
  m.transform.translation.y = t.translation().y();
  m.transform.translation.z = t.translation().z();
  const Eigen::Quaterniond q(t.linear());      // assuming that there is not scaling
  m.transform.rotation.x = q.x();
  m.transform.rotation.y = q.y();
  m.transform.rotation.z = q.z();
  m.transform.rotation.w = q.w();
  return m;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & t)
{
  return sim_eigenToTransform(t);
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Affine3d & t)
{
  return sim_eigenToTransform(t);
}
template<class T>
inline geometry_msgs::msg::Pose sim_poseToMsg(const T & in)
{
  geometry_msgs::msg::Pose msg;
  msg.position.x = in.translation().x();
  msg.position.y = in.translation().y();
  msg.position.z = in.translation().z();
  const Eigen::Quaterniond q(in.linear());
  msg.orientation.x = q.x();
  msg.orientation.y = q.y();
  msg.orientation.z = q.z();
  msg.orientation.w = q.w();
  if (msg.orientation.w < 0) {
    msg.orientation.x *= -1;
    msg.orientation.y *= -1;
    msg.orientation.z *= -1;
    msg.orientation.w *= -1;
  }
  return msg;
}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & in) {return sim_poseToMsg(in);}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Affine3d & in) {return sim_poseToMsg(in);}
inline geometry_msgs::msg::Point toMsg(const Eigen::Vector3d & in)
{
  geometry_msgs::msg::Point p;
  p.x = in.x();
  p.y = in.y();
  p.z = in.z();
  return p;
}
inline geometry_msgs::msg::Quaternion toMsg(const Eigen::Quaterniond & in)
{
  geometry_msgs::msg::Quaternion q;
  q.x = in.x();
  q.y = in.y();
  q.z = in.z();
  q.w = in.w();
  return q;
}
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Isometry3d & out)
{
  out = Eigen::Isometry3d(
    Eigen::Translation3d(m.position.x, m.position.y, m.position.z) *
    Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z));
}
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Affine3d & out)
{
  out = Eigen::Affine3d(
    Eigen::Translation3d(m.position.x, m.position.y, m.position.z) *
    Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z));
}
inline void fromMsg(const geometry_msgs::msg::Point & m, Eigen::Vector3d & out)
{
  out = Eigen::Vector3d(m.x, m.y, m.z);
}
inline void fromMsg(const geometry_msgs::msg::Vector3 & m, Eigen::Vector3d & out)
{
  out = Eigen::Vector3d(m.x, m.y, m.z);
}
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Eigen::Quaterniond & out)
{
  out = Eigen::Quaterniond(m.w, m.x, m.y, m.z);
}
}  // namespace tf2
#endif
