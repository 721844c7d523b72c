// Small helpers for building messages in simulated worlds.
#ifndef SIM_LIB_MSGS_HPP_
#define SIM_LIB_MSGS_HPP_

#include <cmath>
#include <string>

#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <geometry_msgs/msg/twist_with_covariance_stamped.hpp>
#include <nav_msgs/msg/odometry.hpp>
#include <rclcpp/rclcpp.hpp>
#include <tf2_msgs/msg/tf_message.hpp>

#include "core/sim.hpp"

namespace sim
{

struct Quat {double w = 1, x = 0, y = 0, z = 0;};

inline Quat qmul(const Quat & a, const Quat & b)
{
  return {
    a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z,
    a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
    a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
    a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
// Rz(yaw) Ry(pitch) Rx(roll)
inline Quat from_rpy(double r, double p, double y)
{
  const Quat qr{std::cos(r / 2), std::sin(r / 2), 0, 0};
  const Quat qp{std::cos(p / 2), 0, std::sin(p / 2), 0};
  const Quat qy{std::cos(y / 2), 0, 0, std::sin(y / 2)};
  return qmul(qmul(qy, qp), qr);
}
inline void rotation(const Quat & q, double R[3][3])
{
  const double n = q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z;
  const double s = n > 0 ? 2 / n : 0;
  R[0][0] = 1 - s * (q.y * q.y + q.z * q.z);
  R[0][1] = s * (q.x * q.y - q.w * q.z);
  R[0][2] = s * (q.x * q.z + q.w * q.y);
  R[1][0] = s * (q.x * q.y + q.w * q.z);
  R[1][1] = 1 - s * (q.x * q.x + q.z * q.z);
  R[1][2] = s * (q.y * q.z - q.w * q.x);
  R[2][0] = s * (q.x * q.z - q.w * q.y);
  R[2][1] = s * (q.y * q.z + q.w * q.x);
  R[2][2] = 1 - s * (q.x * q.x + q.y * q.y);
}
inline void to_rpy(const Quat & q, double & r, double & p, double & y)
{
  double R[3][3];
  rotation(q, R);
  y = std::atan2(R[1][0], R[0][0]);
  p = std::asin(std::max(-1.0, std::min(1.0, -R[2][0])));
  r = std::atan2(R[2][1], R[2][2]);
}
template<class M>
inline Quat quat_of(const M & m) {return {m.w, m.x, m.y, m.z};}
template<class M>
inline void set_quat(M & m, const Quat & q)
{
  m.w = q.w;
  m.x = q.x;
  m.y = q.y;
  m.z = q.z;
}
inline double wrap(double a) {return std::atan2(std::sin(a), std::cos(a));}
// angle of the relative rotation
inline double quat_angle(const Quat & a, const Quat & b)
{
  const Quat c{a.w, -a.x, -a.y, -a.z};
  const Quat d = qmul(c, b);
  const double v = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z);
  return 2 * std::atan2(v, std::abs(d.w));
}

inline builtin_interfaces::msg::Time stamp_of(i64 ns)
{
  builtin_interfaces::msg::Time t;
  i64 s = ns / 1000000000LL, r = ns % 1000000000LL;
  if (r < 0) {
    r += 1000000000LL;
    --s;
  }
  t.sec = static_cast<std::int32_t>(s);
  t.nanosec = static_cast<std::uint32_t>(r);
  return t;
}
inline i64 ns_of(const builtin_interfaces::msg::Time & t)
{
  return static_cast<i64>(t.sec) * 1000000000LL + t.nanosec;
}

}  // namespace sim

// The applications' own main functions, renamed when compiled; either signature.
#define SIM_MAIN(pkg) \
  __attribute__((weak)) int sim_main_ ## pkg(int, char **); \
  __attribute__((weak)) int sim_main_ ## pkg(); \
  namespace sim { \
  inline int run_main_ ## pkg() \
  { \
    static char name[] = #pkg; \
    char * argv[] = {name, nullptr}; \
    int (* two)(int, char **) = &sim_main_ ## pkg; \
    int (* none)() = &sim_main_ ## pkg; \
    return two ? two(1, argv) : none(); \
  } \
  }

#endif  // SIM_LIB_MSGS_HPP_
