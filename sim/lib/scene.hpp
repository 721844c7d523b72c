// A known environment: a walled room with poles. Its maps, and what a vehicle
// in it sees.
#ifndef SIM_LIB_SCENE_HPP_
#define SIM_LIB_SCENE_HPP_

#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

#include "lib/clouds.hpp"
#include "lib/msgs.hpp"

namespace sim
{

struct V3 {double x = 0, y = 0, z = 0;};

struct Pose6
{
  double t[3] = {0, 0, 0};
  Quat q;
  V3 apply(const V3 & p) const
  {
    double R[3][3];
    rotation(q, R);
    return {R[0][0] * p.x + R[0][1] * p.y + R[0][2] * p.z + t[0],
      R[1][0] * p.x + R[1][1] * p.y + R[1][2] * p.z + t[1],
      R[2][0] * p.x + R[2][1] * p.y + R[2][2] * p.z + t[2]};
  }
  V3 inverse(const V3 & p) const
  {
    double R[3][3];
    rotation(q, R);
    const double d[3] = {p.x - t[0], p.y - t[1], p.z - t[2]};
    V3 o;
    o.x = R[0][0] * d[0] + R[1][0] * d[1] + R[2][0] * d[2];
    o.y = R[0][1] * d[0] + R[1][1] * d[1] + R[2][1] * d[2];
    o.z = R[0][2] * d[0] + R[1][2] * d[1] + R[2][2] * d[2];
    return o;
  }
};

inline double distance(const Pose6 & a, const Pose6 & b)
{
  double s = 0;
  for (int k = 0; k < 3; ++k) {
    s += (a.t[k] - b.t[k]) * (a.t[k] - b.t[k]);
  }
  return std::sqrt(s);
}

struct Scene
{
  // the room: no plane of it goes through the origin of the map frame
  double x0, x1, y0, y1, floor, top;
  std::vector<V3> poles;
  RawCloud edge, surface;

  static Scene make(u64 seed, double spacing = 0.5)
  {
    Rng r(seed * 0x9E37 + 3);
    Scene s;
    const double cx = r.uniform(25, 60) * (r.chance(0.5) ? 1 : -1);
    const double cy = r.uniform(25, 60) * (r.chance(0.5) ? 1 : -1);
    s.x0 = cx - r.uniform(9, 12);
    s.x1 = cx + r.uniform(9, 12);
    s.y0 = cy - r.uniform(8, 11);
    s.y1 = cy + r.uniform(8, 11);
    s.floor = r.uniform(3, 8) * (r.chance(0.5) ? 1 : -1);
    s.top = s.floor + 6;
    const double n = 9;
    for (int k = 0; k < n; ++k) {
      const double a = 2 * M_PI * (k + r.uniform(-0.25, 0.25)) / n;
      const double d = r.uniform(5, 7);
      s.poles.push_back({cx + d * std::cos(a), cy + d * std::sin(a), s.floor});
    }
    s.edge.fields = {{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32}};
    s.surface.fields = s.edge.fields;
    auto add = [](RawCloud & c, double x, double y, double z) {
        c.points.push_back({static_cast<double>(static_cast<float>(x)),
            static_cast<double>(static_cast<float>(y)), static_cast<double>(static_cast<float>(z))});
      };
    for (const auto & p : s.poles) {
      for (double z = s.floor; z <= s.top; z += 0.15) {
        add(s.edge, p.x, p.y, z);
      }
    }
    auto j = [&] {return r.uniform(-0.2, 0.2) * spacing;};
    for (double a = s.x0; a <= s.x1; a += spacing) {
      for (double b = s.y0; b <= s.y1; b += spacing) {
        add(s.surface, a + j(), b + j(), s.floor);
      }
      for (double z = s.floor; z <= s.top; z += spacing) {
        add(s.surface, a + j(), s.y0, z + j());
        add(s.surface, a + j(), s.y1, z + j());
      }
    }
    for (double b = s.y0; b <= s.y1; b += spacing) {
      for (double z = s.floor; z <= s.top; z += spacing) {
        add(s.surface, s.x0, b + j(), z + j());
        add(s.surface, s.x1, b + j(), z + j());
      }
    }
    return s;
  }
  double cx() const {return (x0 + x1) / 2;}
  double cy() const {return (y0 + y1) / 2;}

  V3 edge_point(Rng & r) const
  {
    const V3 & p = poles[r.below(poles.size())];
    return {p.x, p.y, r.uniform(floor + 1.3, top - 1.3)};
  }
  // well away from the corners, where the nearest map points are all of one plane
  V3 surface_point(Rng & r, u64 plane) const
  {
    const double m = 2.2;
    const double x = r.uniform(x0 + m, x1 - m), y = r.uniform(y0 + m, y1 - m);
    const double z = r.uniform(floor + m, top - 0.5);
    switch (plane % 5) {
      case 0: return {x0, y, z};
      case 1: return {x1, y, z};
      case 2: return {x, y0, z};
      case 3: return {x, y1, z};
      default: return {x, y, floor};
    }
  }
  static RawCloud sight(const Pose6 & pose, const std::vector<V3> & points)
  {
    RawCloud c;
    c.fields = {{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32}, {"intensity", F_FLOAT32}};
    for (const auto & p : points) {
      const V3 s = pose.inverse(p);
      c.points.push_back({static_cast<double>(static_cast<float>(s.x)),
          static_cast<double>(static_cast<float>(s.y)), static_cast<double>(static_cast<float>(s.z)),
          1.0});
    }
    return c;
  }
  RawCloud edge_scan(const Pose6 & pose, size_t n, u64 seed) const
  {
    Rng r(seed * 31 + 7);
    std::vector<V3> p;
    for (size_t i = 0; i < n; ++i) {
      p.push_back(i < poles.size() ? V3{poles[i].x, poles[i].y, r.uniform(floor + 1.3, top - 1.3)} :
        edge_point(r));
    }
    return sight(pose, p);
  }
  RawCloud surface_scan(const Pose6 & pose, size_t n, u64 seed) const
  {
    Rng r(seed * 37 + 11);
    std::vector<V3> p;
    for (size_t i = 0; i < n; ++i) {
      p.push_back(surface_point(r, i));
    }
    return sight(pose, p);
  }
  // a drive around the middle of the room
  Pose6 truth(double t, double radius = 2.5, double speed = 1.0) const
  {
    Pose6 p;
    const double a = speed / radius * t;
    p.t[0] = cx() + radius * std::cos(a);
    p.t[1] = cy() + radius * std::sin(a);
    p.t[2] = floor + 1.8;
    p.q = from_rpy(0, 0, a + M_PI / 2);
    return p;
  }
};

}  // namespace sim

#endif  // SIM_LIB_SCENE_HPP_
