// A vehicle with a lidar in a room, and the nodes the launch files start.
#ifndef SIM_LIB_SYSTEM_SIM_HPP_
#define SIM_LIB_SYSTEM_SIM_HPP_

#include <unistd.h>

#include <cmath>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <rclcpp/rclcpp.hpp>
#include <rclcpp_components/register_node_macro.hpp>

#include "lib/clouds.hpp"
#include "lib/msgs.hpp"
#include "lib/scene.hpp"
#include "pynode/py_node.hpp"

SIM_MAIN(extraction)
SIM_MAIN(mapping)
SIM_MAIN(localization)
SIM_MAIN(ekf_localizer)

namespace sim
{

// ------------------------------------------------------------------ the room
// Walls, a floor, and thick poles that stand in it.
class Room
{
public:
  double x0, x1, y0, y1, floor;
  struct Pole {double x, y, r;};
  std::vector<Pole> poles;
  double radius = 3, speed = 1, phase = 0;

  explicit Room(u64 seed)
  {
    Rng r(seed * 0x9E37 + 11);
    // no plane of the room goes through the origin of the map
    const double cx = r.uniform(25, 40) * (r.chance(0.5) ? 1 : -1);
    const double cy = r.uniform(25, 40) * (r.chance(0.5) ? 1 : -1);
    x0 = cx - r.uniform(9, 12);
    x1 = cx + r.uniform(9, 12);
    y0 = cy - r.uniform(8, 11);
    y1 = cy + r.uniform(8, 11);
    floor = r.uniform(3, 8) * (r.chance(0.5) ? 1 : -1);
    const int n = 7;
    for (int k = 0; k < n; ++k) {
      const double a = 2 * M_PI * (k + r.uniform(-0.25, 0.25)) / n;
      const double d = r.uniform(5.5, 7);
      poles.push_back({cx + d * std::cos(a), cy + d * std::sin(a), r.uniform(0.15, 0.25)});
    }
    radius = r.uniform(2, 3);
    speed = r.uniform(0.5, 1.2);
    phase = r.uniform(-3.1, 3.1);
  }
  double cx() const {return (x0 + x1) / 2;}
  double cy() const {return (y0 + y1) / 2;}
  double turn() const {return speed / radius;}
  Pose6 truth(double t) const
  {
    Pose6 p;
    const double a = phase + turn() * t;
    p.t[0] = cx() + radius * std::cos(a);
    p.t[1] = cy() + radius * std::sin(a);
    p.t[2] = floor + 1.6;
    p.q = from_rpy(0, 0, a + M_PI / 2);
    return p;
  }
  // one turn of the sensor
  RawCloud scan(const Pose6 & pose, u64 noise_seed, int columns = 200) const
  {
    static const double ELEVATION[] = {-25, -18, -12, -7, -3, 1, 5, 10};
    Rng r(noise_seed * 31 + 17);
    double R[3][3];
    rotation(pose.q, R);
    RawCloud c;
    c.fields = {{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32}, {"intensity", F_FLOAT32},
      {"ring", F_UINT16}};
    for (int ring = 0; ring < 8; ++ring) {
      const double e = ELEVATION[ring] * M_PI / 180;
      for (int k = 0; k < columns; ++k) {
        const double a = 2 * M_PI * k / columns;
        const double d[3] = {std::cos(e) * std::cos(a), std::cos(e) * std::sin(a), std::sin(e)};
        double u[3];
        for (int i = 0; i < 3; ++i) {
          u[i] = R[i][0] * d[0] + R[i][1] * d[1] + R[i][2] * d[2];
        }
        double s = 1e9;
        auto hit = [&](double x) {
            if (x > 0.05 && x < s) {
              s = x;
            }
          };
        hit((x0 - pose.t[0]) / u[0]);
        hit((x1 - pose.t[0]) / u[0]);
        hit((y0 - pose.t[1]) / u[1]);
        hit((y1 - pose.t[1]) / u[1]);
        hit((floor - pose.t[2]) / u[2]);
        for (const auto & p : poles) {
          const double ox = pose.t[0] - p.x, oy = pose.t[1] - p.y;
          const double A = u[0] * u[0] + u[1] * u[1], B = ox * u[0] + oy * u[1];
          const double D = B * B - A * (ox * ox + oy * oy - p.r * p.r);
          if (D > 0) {
            hit((-B - std::sqrt(D)) / A);
          }
        }
        s += 0.005 * r.normal();
        auto f = [](double v) {return static_cast<double>(static_cast<float>(v));};
        c.points.push_back({f(s * d[0]), f(s * d[1]), f(s * d[2]), 1.0, static_cast<double>(ring)});
      }
    }
    return c;
  }
};

// ------------------------------------------------------------------ the launch files
inline std::ifstream launch_dump()
{
  char b[4096];
  const ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);
  std::string dir(b, n > 0 ? static_cast<size_t>(n) : 0);
  return std::ifstream(dir.substr(0, dir.rfind('/')) + "/../launch.txt");
}

// The launch arguments given, by name
inline std::map<std::string, std::string> launch_arguments(const std::string & which)
{
  std::ifstream f = launch_dump();
  std::map<std::string, std::string> args;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k, launch, name, value;
    s >> k >> launch >> name >> value;
    if (k == "arg" && launch == which) {
      args[name] = value;
    }
  }
  return args;
}

struct LaunchedNode
{
  std::string launch, program, name, ns;
  std::map<std::string, std::string> remaps, params;
};

inline std::vector<LaunchedNode> launched(const std::string & which)
{
  std::ifstream f = launch_dump();
  std::vector<LaunchedNode> all;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k, a, v;
    s >> k;
    if (k == "node") {
      LaunchedNode x;
      s >> x.launch >> x.program >> x.name >> x.ns;
      if (x.ns == "-") {
        x.ns.clear();
      }
      all.push_back(x);
    } else if (k == "remap") {
      s >> a >> v;
      all.back().remaps[a] = v;
    } else if (k == "param") {
      s >> a >> v;
      all.back().params[a] = v;
    }
  }
  std::vector<LaunchedNode> out;
  for (const auto & x : all) {
    if (x.launch == which) {
      out.push_back(x);
    }
  }
  if (out.empty()) {
    throw std::runtime_error("no launch description of " + which);
  }
  return out;
}

inline int run_program(const std::string & program)
{
  if (program == "lidar_feature_extraction/lidar_feature_extraction") {
    return run_main_extraction();
  }
  if (program == "lidar_feature_mapping/lidar_feature_mapping") {
    return run_main_mapping();
  }
  if (program == "lidar_feature_localization/lidar_feature_localization") {
    return run_main_localization();
  }
  if (program == "ekf_localizer/ekf_localizer") {
    return run_main_ekf_localizer();
  }
  if (program == "point_type_converter/listener") {
    return run_py("point_type_converter", "listener");
  }
  rclcpp::init(0, static_cast<char **>(nullptr));
  if (program == "lidar_feature_map_loader/lidar_feature_map_loader") {
    rclcpp::spin(rclcpp::components().factories.at("MapLoaderNode")(rclcpp::NodeOptions()));
  } else {
    throw std::runtime_error("no program " + program);
  }
  rclcpp::shutdown();
  return 0;
}

inline Process * start(World & w, const LaunchedNode & n, i64 epoch = 0)
{
  return w.spawn(
    n.name, [p = n.program] {return run_program(p);}, [&n, epoch](Process & p) {
      p.clock_offset = epoch;
      p.remaps = n.remaps;
      p.params = n.params;
      p.ns = n.ns;
    });
}

}  // namespace sim

#endif  // SIM_LIB_SYSTEM_SIM_HPP_
