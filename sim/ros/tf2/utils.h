#ifndef SIM_TF2_UTILS_H_
#define SIM_TF2_UTILS_H_
#include <cmath>
#include "convert.h"
namespace tf2
{
inline Quaternion toQuaternion_(const Quaternion & q) {return q;}
inline Quaternion toQuaternion_(const geometry_msgs::msg::Quaternion & m)
{
  return Quaternion(m.x, m.y, m.z, m.w);
}
inline double getYaw_(const Quaternion & q)
{
  double yaw;
  const double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) {
    yaw = -2 * std::atan2(q.y(), q.x());
  } else if (sarg >= 0.99999) {
    yaw = 2 * std::atan2(q.y(), q.x());
  } else {
    yaw = std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
  }
  return yaw;
}
template<class A>
double getYaw(const A & a) {return getYaw_(toQuaternion_(a));}
template<class A>
void getEulerYPR(const A & a, double & yaw, double & pitch, double & roll)
{
  Matrix3x3(toQuaternion_(a)).getEulerYPR(yaw, pitch, roll);
}
template<class A>
A getTransformIdentity() {A t; t.setIdentity(); return t;}
}  // namespace tf2
#endif
