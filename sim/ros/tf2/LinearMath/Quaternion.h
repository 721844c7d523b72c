#ifndef SIM_TF2_QUATERNION_H_
#define SIM_TF2_QUATERNION_H_
#include <cmath>
#include "Vector3.h"
namespace tf2
{
class Quaternion
{
public:
  Quaternion() : q_{0, 0, 0, 0} {}
  Quaternion(double x, double y, double z, double w) : q_{x, y, z, w} {}
  Quaternion(const Vector3 & axis, double angle) {setRotation(axis, angle);}
  double x() const {return q_[0];}
  double y() const {return q_[1];}
  double z() const {return q_[2];}
  double w() const {return q_[3];}
  double getX() const {return q_[0];}
  double getY() const {return q_[1];}
  double getZ() const {return q_[2];}
  double getW() const {return q_[3];}
  void setX(double v) {q_[0] = v;}
  void setY(double v) {q_[1] = v;}
  void setZ(double v) {q_[2] = v;}
  void setW(double v) {q_[3] = v;}
  void setValue(double x, double y, double z, double w) {q_[0] = x; q_[1] = y; q_[2] = z; q_[3] = w;}
  void setRotation(const Vector3 & axis, double angle)
  {
    const double d = axis.length();
    const double s = std::sin(angle * 0.5) / d;
    setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp);
    const double cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy,
      cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  double dot(const Quaternion & o) const
  {
    return q_[0] * o.q_[0] + q_[1] * o.q_[1] + q_[2] * o.q_[2] + q_[3] * o.q_[3];
  }
  double length2() const {return dot(*this);}
  double length() const {return std::sqrt(length2());}
  Quaternion & normalize()
  {
    const double l = length();
    for (double & v : q_) {v /= l;}
    return *this;
  }
  Quaternion normalized() const {Quaternion r = *this; return r.normalize();}
  Quaternion inverse() const {return Quaternion(-q_[0], -q_[1], -q_[2], q_[3]);}
  Quaternion operator-() const {return Quaternion(-q_[0], -q_[1], -q_[2], -q_[3]);}
  Quaternion operator*(const Quaternion & b) const
  {
    return Quaternion(
      w() * b.x() + x() * b.w() + y() * b.z() - z() * b.y(),
      w() * b.y() + y() * b.w() + z() * b.x() - x() * b.z(),
      w() * b.z() + z() * b.w() + x() * b.y() - y() * b.x(),
      w() * b.w() - x() * b.x() - y() * b.y() - z() * b.z());
  }
  Quaternion & operator*=(const Quaternion & b) {return *this = *this * b;}
  Quaternion operator+(const Quaternion & b) const
  {
    return Quaternion(x() + b.x(), y() + b.y(), z() + b.z(), w() + b.w());
  }
  Quaternion operator-(const Quaternion & b) const {return *this + -b;}
  Quaternion operator*(double s) const {return Quaternion(x() * s, y() * s, z() * s, w() * s);}
  Quaternion operator/(double s) const {return *this * (1.0 / s);}
  bool operator==(const Quaternion & b) const
  {
    return x() == b.x() && y() == b.y() && z() == b.z() && w() == b.w();
  }
  bool operator!=(const Quaternion & b) const {return !(*this == b);}
  void setEuler(double yaw, double pitch, double roll) {setRPY(pitch, roll, yaw);}
  double angle(const Quaternion & o) const {return std::acos(dot(o) / std::sqrt(length2() * o.length2()));}
  double angleShortestPath(const Quaternion & o) const
  {
    const double s = std::sqrt(length2() * o.length2());
    return 2 * std::acos(std::fabs(dot(o)) / s);
  }
  double getAngleShortestPath() const {return 2.0 * std::acos(std::fabs(q_[3]));}
  Vector3 getAxis() const
  {
    const double s = 1.0 - q_[3] * q_[3];
    return s < 1e-20 ? Vector3(1, 0, 0) : Vector3(q_[0], q_[1], q_[2]) / std::sqrt(s);
  }
  Quaternion slerp(const Quaternion & o, double t) const
  {
    double d = dot(o);
    Quaternion e = o;
    if (d < 0) {
      e = -o;
      d = -d;
    }
    double a = 1 - t, b = t;
    if (d < 0.999999) {
      const double th = std::acos(d), s = std::sin(th);
      a = std::sin((1 - t) * th) / s;
      b = std::sin(t * th) / s;
    }
    return Quaternion(a * x() + b * e.x(), a * y() + b * e.y(), a * z() + b * e.z(), a * w() + b * e.w())
           .normalize();
  }
  double getAngle() const {return 2.0 * std::acos(q_[3]);}
  static Quaternion getIdentity() {return Quaternion(0, 0, 0, 1);}

private:
  double q_[4];
};
inline Vector3 quatRotate(const Quaternion & q, const Vector3 & v)
{
  const Quaternion r = q * Quaternion(v.x(), v.y(), v.z(), 0) * q.inverse();
  return Vector3(r.x(), r.y(), r.z());
}
}  // namespace tf2
#endif
