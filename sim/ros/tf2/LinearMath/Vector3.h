#ifndef SIM_TF2_VECTOR3_H_
#define SIM_TF2_VECTOR3_H_
#include <cmath>
namespace tf2
{
class Vector3
{
public:
  Vector3() : v_{0, 0, 0} {}
  Vector3(double x, double y, double z) : v_{x, y, z} {}
  double x() const {return v_[0];}
  double y() const {return v_[1];}
  double z() const {return v_[2];}
  double getX() const {return v_[0];}
  double getY() const {return v_[1];}
  double getZ() const {return v_[2];}
  void setX(double a) {v_[0] = a;}
  void setY(double a) {v_[1] = a;}
  void setZ(double a) {v_[2] = a;}
  void setValue(double x, double y, double z) {v_[0] = x; v_[1] = y; v_[2] = z;}
  double & operator[](int i) {return v_[i];}
  const double & operator[](int i) const {return v_[i];}
  Vector3 operator+(const Vector3 & o) const {return {v_[0] + o.v_[0], v_[1] + o.v_[1], v_[2] + o.v_[2]};}
  Vector3 operator-(const Vector3 & o) const {return {v_[0] - o.v_[0], v_[1] - o.v_[1], v_[2] - o.v_[2]};}
  Vector3 operator-() const {return {-v_[0], -v_[1], -v_[2]};}
  Vector3 operator*(double s) const {return {v_[0] * s, v_[1] * s, v_[2] * s};}
  Vector3 operator/(double s) const {return {v_[0] / s, v_[1] / s, v_[2] / s};}
  Vector3 & operator+=(const Vector3 & o) {return *this = *this + o;}
  Vector3 & operator-=(const Vector3 & o) {return *this = *this - o;}
  Vector3 & operator*=(double s) {return *this = *this * s;}
  Vector3 & operator/=(double s) {return *this = *this / s;}
  bool operator==(const Vector3 & o) const {return v_[0] == o.v_[0] && v_[1] == o.v_[1] && v_[2] == o.v_[2];}
  bool operator!=(const Vector3 & o) const {return !(*this == o);}
  Vector3 cross(const Vector3 & o) const
  {
    return {v_[1] * o.v_[2] - v_[2] * o.v_[1], v_[2] * o.v_[0] - v_[0] * o.v_[2],
      v_[0] * o.v_[1] - v_[1] * o.v_[0]};
  }
  Vector3 & normalize() {return *this /= length();}
  Vector3 normalized() const {return *this / length();}
  double distance2(const Vector3 & o) const {return (*this - o).length2();}
  double distance(const Vector3 & o) const {return (*this - o).length();}
  double dot(const Vector3 & o) const {return v_[0] * o.v_[0] + v_[1] * o.v_[1] + v_[2] * o.v_[2];}
  double length2() const {return dot(*this);}
  double length() const {return std::sqrt(length2());}
  double norm() const {return length();}

private:
  double v_[3];
};
inline Vector3 operator*(double s, const Vector3 & v) {return v * s;}
}  // namespace tf2
#endif
