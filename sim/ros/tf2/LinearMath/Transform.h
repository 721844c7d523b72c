#ifndef SIM_TF2_TRANSFORM_H_
#define SIM_TF2_TRANSFORM_H_
#include "Matrix3x3.h"
namespace tf2
{
class Transform
{
public:
  Transform() : q_(0, 0, 0, 1) {}
  explicit Transform(const Quaternion & q, const Vector3 & v = Vector3()) : q_(q), t_(v) {}
  explicit Transform(const Matrix3x3 & m, const Vector3 & v = Vector3()) : t_(v) {m.getRotation(q_);}
  void setBasis(const Matrix3x3 & m) {m.getRotation(q_);}
  Transform inverseTimes(const Transform & o) const {return inverse() * o;}
  Transform & operator*=(const Transform & o) {return *this = *this * o;}
  Quaternion operator*(const Quaternion & q) const {return q_ * q;}
  Vector3 operator()(const Vector3 & v) const {return *this * v;}
  Vector3 operator*(const Vector3 & v) const {return quatRotate(q_, v) + t_;}
  Transform operator*(const Transform & o) const {return Transform(q_ * o.q_, (*this) * o.t_);}
  Transform inverse() const
  {
    const Quaternion qi = q_.inverse();
    return Transform(qi, -quatRotate(qi, t_));
  }
  const Vector3 & getOrigin() const {return t_;}
  Quaternion getRotation() const {return q_;}
  Matrix3x3 getBasis() const {return Matrix3x3(q_);}
  void setOrigin(const Vector3 & v) {t_ = v;}
  void setRotation(const Quaternion & q) {q_ = q;}
  void setIdentity() {q_ = Quaternion(0, 0, 0, 1); t_ = Vector3();}
  static Transform getIdentity() {return Transform();}

private:
  Quaternion q_;
  Vector3 t_;
};
}  // namespace tf2
#endif
