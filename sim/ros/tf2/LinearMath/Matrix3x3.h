#ifndef SIM_TF2_MATRIX3X3_H_
#define SIM_TF2_MATRIX3X3_H_
#include "Quaternion.h"
namespace tf2
{
class Matrix3x3
{
public:
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion & q) {setRotation(q);}
  Matrix3x3(
    double a, double b, double c, double d, double e, double f, double g, double h, double i)
  {
    m_[0] = Vector3(a, b, c);
    m_[1] = Vector3(d, e, f);
    m_[2] = Vector3(g, h, i);
  }
  void setRotation(const Quaternion & q)
  {
    const double d = q.length2();
    const double s = 2.0 / d;
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    const double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m_[0] = Vector3(1.0 - (yy + zz), xy - wz, xz + wy);
    m_[1] = Vector3(xy + wz, 1.0 - (xx + zz), yz - wx);
    m_[2] = Vector3(xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  void getEulerYPR(double & yaw, double & pitch, double & roll, unsigned solution = 1) const
  {
    double y1, p1, r1, y2, p2, r2;
    if (std::fabs(m_[2].x()) >= 1) {
      y1 = y2 = 0;
      if (m_[2].x() < 0) {
        const double delta = std::atan2(m_[0].y(), m_[0].z());
        p1 = p2 = M_PI / 2.0;
        r1 = r2 = delta;
      } else {
        const double delta = std::atan2(-m_[0].y(), -m_[0].z());
        p1 = p2 = -M_PI / 2.0;
        r1 = r2 = delta;
      }
    } else {
      p1 = -std::asin(m_[2].x());
      p2 = M_PI - p1;
      r1 = std::atan2(m_[2].y() / std::cos(p1), m_[2].z() / std::cos(p1));
      r2 = std::atan2(m_[2].y() / std::cos(p2), m_[2].z() / std::cos(p2));
      y1 = std::atan2(m_[1].x() / std::cos(p1), m_[0].x() / std::cos(p1));
      y2 = std::atan2(m_[1].x() / std::cos(p2), m_[0].x() / std::cos(p2));
    }
    yaw = solution == 1 ? y1 : y2;
    pitch = solution == 1 ? p1 : p2;
    roll = solution == 1 ? r1 : r2;
  }
  void getRPY(double & roll, double & pitch, double & yaw, unsigned solution = 1) const
  {
    getEulerYPR(yaw, pitch, roll, solution);
  }
  const Vector3 & operator[](int i) const {return m_[i];}
  Vector3 & operator[](int i) {return m_[i];}
  const Vector3 & getRow(int i) const {return m_[i];}
  Vector3 getColumn(int i) const {return Vector3(m_[0][i], m_[1][i], m_[2][i]);}
  Matrix3x3 transpose() const
  {
    return Matrix3x3(m_[0][0], m_[1][0], m_[2][0], m_[0][1], m_[1][1], m_[2][1], m_[0][2], m_[1][2],
             m_[2][2]);
  }
  Matrix3x3 operator*(const Matrix3x3 & o) const
  {
    Matrix3x3 r;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        r.m_[i][j] = m_[i].dot(o.getColumn(j));
      }
    }
    return r;
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    Quaternion q;
    q.setRPY(roll, pitch, yaw);
    setRotation(q);
  }
  void setIdentity() {setRotation(Quaternion(0, 0, 0, 1));}
  void getRotation(Quaternion & q) const
  {
    const double t = m_[0][0] + m_[1][1] + m_[2][2];
    double v[4];
    if (t > 0) {
      double s = std::sqrt(t + 1.0);
      v[3] = s * 0.5;
      s = 0.5 / s;
      v[0] = (m_[2][1] - m_[1][2]) * s;
      v[1] = (m_[0][2] - m_[2][0]) * s;
      v[2] = (m_[1][0] - m_[0][1]) * s;
    } else {
      const int i = m_[0][0] < m_[1][1] ? (m_[1][1] < m_[2][2] ? 2 : 1) : (m_[0][0] < m_[2][2] ? 2 : 0);
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m_[i][i] - m_[j][j] - m_[k][k] + 1.0);
      v[i] = s * 0.5;
      s = 0.5 / s;
      v[3] = (m_[k][j] - m_[j][k]) * s;
      v[j] = (m_[j][i] + m_[i][j]) * s;
      v[k] = (m_[k][i] + m_[i][k]) * s;
    }
    q.setValue(v[0], v[1], v[2], v[3]);
  }
  Vector3 operator*(const Vector3 & v) const {return Vector3(m_[0].dot(v), m_[1].dot(v), m_[2].dot(v));}

private:
  Vector3 m_[3];
};
}  // namespace tf2
#endif
