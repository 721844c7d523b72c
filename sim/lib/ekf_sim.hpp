// The fusion node in a simulated world: scenario generation, recording, and an
// executable reference model of the documented estimator.
#ifndef SIM_LIB_EKF_SIM_HPP_
#define SIM_LIB_EKF_SIM_HPP_

#include <Eigen/Dense>

#include <algorithm>
#include <cmath>
#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "lib/msgs.hpp"

SIM_MAIN(ekf_localizer)

namespace sim
{

using PoseMsg = geometry_msgs::msg::PoseWithCovarianceStamped;
using TwistMsg = geometry_msgs::msg::TwistWithCovarianceStamped;
using OdomMsg = nav_msgs::msg::Odometry;
using TfMsg = tf2_msgs::msg::TFMessage;
using TransformMsg = geometry_msgs::msg::TransformStamped;

// ------------------------------------------------------------------ parameters
struct EkfCfg
{
  double freq = 50, pose_gate = 10000, twist_gate = 10000;
  int N = 50, pose_smooth = 5, twist_smooth = 2;
  bool yaw_bias = true;
  double s_yaw = 0.005, s_bias = 0.001, s_vx = 5.0, s_wz = 1.0;
  std::string frame = "map";

  void store(Plan & p) const
  {
    p.cfg["freq"] = freq;
    p.cfg["N"] = N;
    p.cfg["pose_smooth"] = pose_smooth;
    p.cfg["twist_smooth"] = twist_smooth;
    p.cfg["pose_gate"] = pose_gate;
    p.cfg["twist_gate"] = twist_gate;
    p.cfg["yaw_bias"] = yaw_bias;
    p.cfg["s_yaw"] = s_yaw;
    p.cfg["s_bias"] = s_bias;
    p.cfg["s_vx"] = s_vx;
    p.cfg["s_wz"] = s_wz;
    p.cfg["frame"] = frame == "map" ? 0 : (frame == "world" ? 1 : 2);
  }
  static EkfCfg load(const Plan & p)
  {
    EkfCfg c;
    c.freq = p.get("freq", c.freq);
    c.N = static_cast<int>(p.get("N", c.N));
    c.pose_smooth = static_cast<int>(p.get("pose_smooth", c.pose_smooth));
    c.twist_smooth = static_cast<int>(p.get("twist_smooth", c.twist_smooth));
    c.pose_gate = p.get("pose_gate", c.pose_gate);
    c.twist_gate = p.get("twist_gate", c.twist_gate);
    c.yaw_bias = p.get("yaw_bias", 1) != 0;
    c.s_yaw = p.get("s_yaw", c.s_yaw);
    c.s_bias = p.get("s_bias", c.s_bias);
    c.s_vx = p.get("s_vx", c.s_vx);
    c.s_wz = p.get("s_wz", c.s_wz);
    const int f = static_cast<int>(p.get("frame", 0));
    c.frame = f == 0 ? "map" : (f == 1 ? "world" : "site/map");
    return c;
  }
  void apply(Process & p) const
  {
    p.params["predict_frequency"] = fmt("%.17g", freq);
    p.params["extend_state_step"] = fmt("%d", N);
    p.params["pose_frame_id"] = frame;
    p.params["pose_smoothing_steps"] = fmt("%d", pose_smooth);
    p.params["pose_gate_dist"] = fmt("%.17g", pose_gate);
    p.params["twist_gate_dist"] = fmt("%.17g", twist_gate);
    p.params["twist_smoothing_steps"] = fmt("%d", twist_smooth);
    p.params["proc_stddev_yaw_c"] = fmt("%.17g", s_yaw);
    p.params["enable_yaw_bias_estimation"] = yaw_bias ? "true" : "false";
    p.params["proc_stddev_yaw_bias_c"] = fmt("%.17g", s_bias);
    p.params["proc_stddev_vx_c"] = fmt("%.17g", s_vx);
    p.params["proc_stddev_wz_c"] = fmt("%.17g", s_wz);
  }
};

inline EkfCfg random_ekf_cfg(Rng & r, int max_n)
{
  EkfCfg c;
  c.freq = r.pick(std::vector<double>{10, 20, 25, 50, 50, 100, 33.3});
  c.N = static_cast<int>(r.range(3, max_n));
  c.pose_smooth = static_cast<int>(r.range(1, 6));
  c.twist_smooth = static_cast<int>(r.range(1, 4));
  c.pose_gate = r.chance(0.6) ? 10000 : r.uniform(2, 30);
  c.twist_gate = r.chance(0.6) ? 10000 : r.uniform(2, 30);
  c.yaw_bias = r.chance(0.8);
  if (r.chance(0.6)) {
    c.s_yaw = r.uniform(0.001, 0.5);
    c.s_bias = r.uniform(0.0005, 0.1);
    c.s_vx = r.uniform(0.5, 10);
    c.s_wz = r.uniform(0.1, 3);
  }
  c.frame = r.chance(0.7) ? "map" : (r.chance(0.5) ? "world" : "site/map");
  return c;
}

// ------------------------------------------------------------------ the world's truth
struct TruthState
{
  double x = 0, y = 0, yaw = 0, z = 0, roll = 0, pitch = 0, v = 0, w = 0;
};

// A car on piecewise constant speed and turn rate.
class Truth
{
public:
  explicit Truth(u64 seed, double vmax = 8, double wmax = 0.8)
  {
    Rng r = keyed(seed, 0x7247);
    TruthState s;
    s.x = r.uniform(-50, 50);
    s.y = r.uniform(-50, 50);
    s.yaw = r.uniform(-M_PI, M_PI);
    if (r.chance(0.15)) {
      // as on a map of national coordinates
      s.x += r.uniform(-1e5, 1e5);
      s.y += r.uniform(-1e5, 1e5);
    }
    z0_ = r.uniform(-5, 5);
    for (int i = 0; i < 4; ++i) {
      ph_[i] = r.uniform(0, 6.28);
    }
    for (int k = 0; k < 64; ++k) {
      s.v = r.chance(0.15) ? 0 : r.uniform(-0.2 * vmax, vmax);
      s.w = r.chance(0.3) ? 0 : r.uniform(-wmax, wmax);
      seg_.push_back(s);
      s = advance(s, SEG);
    }
  }
  TruthState at(double t) const
  {
    t = std::max(0.0, t);
    const size_t k = std::min<size_t>(seg_.size() - 1, static_cast<size_t>(t / SEG));
    TruthState s = advance(seg_[k], t - k * SEG);
    s.z = z0_ + 0.5 * std::sin(0.7 * t + ph_[0]);
    s.roll = 0.05 * std::sin(0.9 * t + ph_[1]);
    s.pitch = 0.05 * std::sin(1.1 * t + ph_[2]);
    return s;
  }

private:
  static constexpr double SEG = 1.5;
  static TruthState advance(TruthState s, double dt)
  {
    if (std::abs(s.w) < 1e-9) {
      s.x += s.v * dt * std::cos(s.yaw);
      s.y += s.v * dt * std::sin(s.yaw);
    } else {
      const double y1 = s.yaw + s.w * dt;
      s.x += s.v / s.w * (std::sin(y1) - std::sin(s.yaw));
      s.y -= s.v / s.w * (std::cos(y1) - std::cos(s.yaw));
      s.yaw = y1;
    }
    return s;
  }
  std::vector<TruthState> seg_;
  double z0_ = 0, ph_[4];
};

inline PoseMsg pose_msg(
  const TruthState & s, i64 stamp, const std::string & frame, const double var[6])
{
  PoseMsg m;
  m.header.stamp = stamp_of(stamp);
  m.header.frame_id = frame;
  m.pose.pose.position.x = s.x;
  m.pose.pose.position.y = s.y;
  m.pose.pose.position.z = s.z;
  set_quat(m.pose.pose.orientation, from_rpy(s.roll, s.pitch, s.yaw));
  for (int i = 0; i < 6; ++i) {
    m.pose.covariance[7 * i] = var[i];
  }
  return m;
}

// x, y, yaw covariance with correlations
inline void planar_covariance(Rng & r, std::array<double, 36> & c, double sx, double sy, double syaw)
{
  Eigen::Matrix3d L = Eigen::Matrix3d::Zero();
  const double s[3] = {sx, sy, syaw};
  for (int i = 0; i < 3; ++i) {
    L(i, i) = s[i];
    for (int j = 0; j < i; ++j) {
      L(i, j) = 0.4 * r.uniform(-1, 1) * s[i];
    }
  }
  const Eigen::Matrix3d C = L * L.transpose();
  const int ix[3] = {0, 1, 5};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      c[6 * ix[i] + ix[j]] = C(i, j);
    }
  }
}

inline PoseMsg noisy_pose(
  const TruthState & truth, Rng & r, i64 stamp, const std::string & frame, bool outlier)
{
  TruthState s = truth;
  const double sx = r.uniform(0.02, 0.5), sy = r.uniform(0.02, 0.5), syaw = r.uniform(0.005, 0.1);
  const double k = outlier ? r.uniform(5, 60) : 1;
  s.x += k * sx * r.normal();
  s.y += k * sy * r.normal();
  s.yaw += std::min(k, 8.0) * syaw * r.normal();
  s.z += 0.1 * r.normal();
  s.roll += 0.02 * r.normal();
  s.pitch += 0.02 * r.normal();
  const double var[6] = {sx * sx, sy * sy, r.uniform(0.001, 1), r.uniform(0.0001, 0.1),
    r.uniform(0.0001, 0.1), syaw * syaw};
  PoseMsg m = pose_msg(s, stamp, frame, var);
  if (r.chance(0.5)) {
    planar_covariance(r, m.pose.covariance, sx, sy, syaw);
  }
  return m;
}

inline TwistMsg noisy_twist(const TruthState & s, Rng & r, i64 stamp, bool outlier)
{
  const double sv = r.uniform(0.02, 0.5), sw = r.uniform(0.005, 0.1);
  const double k = outlier ? r.uniform(5, 60) : 1;
  TwistMsg m;
  m.header.stamp = stamp_of(stamp);
  m.header.frame_id = "base_link";
  m.twist.twist.linear.x = s.v + k * sv * r.normal();
  m.twist.twist.linear.y = 0.1 * r.normal();
  m.twist.twist.linear.z = 0.1 * r.normal();
  m.twist.twist.angular.x = 0.1 * r.normal();
  m.twist.twist.angular.y = 0.1 * r.normal();
  m.twist.twist.angular.z = s.w + k * sw * r.normal();
  for (int i = 0; i < 36; ++i) {
    m.twist.covariance[i] = (i % 7 == 0) ? 0.7 : 0;
  }
  m.twist.covariance[0] = sv * sv;
  m.twist.covariance[35] = sw * sw;
  if (r.chance(0.4)) {
    m.twist.covariance[5] = m.twist.covariance[30] = 0.5 * r.uniform(-1, 1) * sv * sw;
  }
  return m;
}

// ------------------------------------------------------------------ scenario
struct EkfScenario
{
  double seconds = 4;
  bool faults = true;
  double loss = 0, dup = 0, outlier = 0.05, late = 0.3;
  double max_late_steps = 3;        // stamp delays, in filter steps
  double pose_hz = 10, twist_hz = 20;
  bool jitter = false, stalls = false, clock_faults = false;
  int reinits = 0;
  bool pre_init_traffic = true;
  double init_at = 0.3;
  double init_gap = 0;

  static EkfScenario random(Rng & r, const EkfCfg & c, bool thorough)
  {
    EkfScenario s;
    s.seconds = r.uniform(1.5, thorough ? 8 : 4);
    s.faults = r.chance(0.85);
    s.pose_hz = r.pick(std::vector<double>{2, 5, 10, 20});
    s.twist_hz = r.pick(std::vector<double>{5, 10, 20, 50});
    s.outlier = r.chance(0.5) ? 0.1 : 0;
    s.max_late_steps = r.uniform(0, c.N + 3);
    s.init_at = r.chance(0.2) ? 0.0 : r.uniform(0, 0.6);
    if (s.faults) {
      s.loss = r.chance(0.5) ? r.uniform(0, 0.4) : 0;
      s.dup = r.chance(0.5) ? r.uniform(0, 0.3) : 0;
      s.late = r.uniform(0, 1);
      s.jitter = r.chance(0.6);
      s.stalls = r.chance(0.4);
      s.clock_faults = r.chance(0.3);
      s.reinits = r.chance(0.4) ? static_cast<int>(r.range(1, 2)) : 0;
    }
    return s;
  }
};

// Deliveries of one message: the network's answer, taken when the plan is made.
inline void add_deliveries(Rng & r, const EkfScenario & s, std::vector<double> & a, i64 dt)
{
  int copies = 1;
  if (r.chance(s.loss)) {
    copies = 0;
  } else if (r.chance(s.dup)) {
    copies = r.chance(0.2) ? 3 : 2;
  }
  a.push_back(copies);
  for (int i = 0; i < copies; ++i) {
    double d = r.chance(0.5) ? 0 : static_cast<double>(r.range(0, 5000000));
    if (s.faults && r.chance(0.15)) {
      d += r.uniform(0, 4) * dt;       // overtaken by later ones
    }
    a.push_back(std::floor(d));
  }
}

// op kinds: pose/twist a = {age of the stamp, content seed, outlier, copies, delays...}
//           init       a = {content seed, copies, delays...}
//           stall      a = {duration}     clock  a = {jump}
inline void generate_ekf(Plan & p, Rng & r, const EkfCfg & c, const EkfScenario & s)
{
  const i64 dt = static_cast<i64>(1e9 / c.freq);
  const i64 end = static_cast<i64>(s.seconds * 1e9);
  p.cfg["seconds"] = s.seconds;
  p.cfg["jitter"] = s.jitter ? r.uniform(0.01, 0.9) : 0;
  p.cfg["exec"] = s.faults && r.chance(0.5) ? r.uniform(0, 0.3) : 0;
  p.cfg["epoch"] = r.chance(0.7) ? 100 : static_cast<double>(r.range(20, 5000));
  const i64 init = static_cast<i64>(s.init_at * 1e9);
  auto push = [&](const char * kind, i64 t, double hz) {
      while (t < end) {
        i64 age = 0;
        if (r.chance(s.late)) {
          age = static_cast<i64>(r.uniform(0, s.max_late_steps) * dt);
        } else if (r.chance(0.05)) {
          age = -static_cast<i64>(r.uniform(0, 3) * dt);      // from the future
        }
        Op o{t, kind, {static_cast<double>(age), static_cast<double>(r.below(1u << 30)),
            r.chance(s.outlier) ? 1.0 : 0.0}, ""};
        add_deliveries(r, s, o.a, dt);
        p.ops.push_back(o);
        if (r.chance(0.04)) {
          // a burst: the same sensor catches up
          for (int k = 0; k < 3; ++k) {
            Op b = o;
            b.t += k;
            b.a[1] = static_cast<double>(r.below(1u << 30));
            p.ops.push_back(b);
          }
        }
        t += static_cast<i64>(r.uniform(0.5, 1.5) * 1e9 / hz);
      }
    };
  push("pose", s.pre_init_traffic ? r.range(0, 200000000) : init + 150000000, s.pose_hz);
  push("twist", s.pre_init_traffic ? r.range(0, 100000000) : init + 150000000, s.twist_hz);
  for (int k = 0; k <= s.reinits; ++k) {
    const i64 t = k == 0 ? init : r.range(init, end);
    Op o{t, "init", {static_cast<double>(r.below(1u << 30)), 1, 0}, ""};
    if (s.faults && r.chance(0.1)) {
      o.a = {o.a[0], 2, 0, static_cast<double>(r.range(0, 300000000))};
    }
    p.ops.push_back(o);
  }
  if (s.stalls) {
    for (int k = 0, n = static_cast<int>(r.range(1, 3)); k < n; ++k) {
      p.ops.push_back({r.range(0, end), "stall",
          {std::floor(r.uniform(0, r.chance(0.2) ? 60 : 6) * dt)}, ""});
    }
  }
  if (s.clock_faults) {
    for (int k = 0, n = static_cast<int>(r.range(1, 3)); k < n; ++k) {
      const double d = r.chance(0.5) ? -r.uniform(0, 0.3) : r.uniform(0, r.chance(0.2) ? 15 : 0.5);
      p.ops.push_back({r.range(0, end), "clock", {std::floor(d * 1e9)}, ""});
    }
  }
  std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
}

// ------------------------------------------------------------------ recording
struct EkfRec
{
  enum Kind {TICK, INIT, POSE, TWIST};
  Kind kind;
  i64 world = 0, clock = 0;          // when it began, and the node's clock then
  i64 clock_end = 0;
  std::shared_ptr<const PoseMsg> pose;
  std::shared_ptr<const TwistMsg> twist;
  std::vector<std::shared_ptr<const OdomMsg>> odom;
  std::vector<TransformMsg> tf;
  size_t stray = 0;                  // further publications
};

class EkfSim
{
public:
  World & w;
  const Plan & plan;
  EkfCfg cfg;
  Truth truth;
  i64 epoch;
  Process * proc = nullptr;
  EkfRec cur;
  bool open = false;
  i64 stalled_until = 0;
  std::vector<i64> next_delays;
  std::function<void (const EkfRec &)> on_rec;       // a callback of the node has ended
  std::function<void (const OdomMsg &)> on_odom;
  // content, by default from the plan
  std::function<PoseMsg(const Op &)> make_pose, make_init;
  std::function<TwistMsg(const Op &)> make_twist;
  std::function<bool(const Op &)> other_op;          // ops of other kinds
  std::function<std::vector<i64>(const rclcpp::Link &)> other_net;   // links not from sensors
  u64 ticks = 0, published = 0;

  EkfSim(World & world, const Plan & p)
  : w(world), plan(p), cfg(EkfCfg::load(p)), truth(p.seed),
    epoch(static_cast<i64>(p.get("epoch", 100)) * 1000000000LL)
  {
    make_pose = [this](const Op & o) {
        Rng r(static_cast<u64>(o.a[1]) * 31 + 5);
        const i64 age = static_cast<i64>(o.a[0]);
        const i64 stamp = std::max<i64>(0, epoch + o.t - age);
        return noisy_pose(truth.at((o.t - age) / 1e9), r, stamp, cfg.frame, o.a[2] != 0);
      };
    make_twist = [this](const Op & o) {
        Rng r(static_cast<u64>(o.a[1]) * 37 + 9);
        const i64 age = static_cast<i64>(o.a[0]);
        const i64 stamp = std::max<i64>(0, epoch + o.t - age);
        return noisy_twist(truth.at((o.t - age) / 1e9), r, stamp, o.a[2] != 0);
      };
    make_init = [this](const Op & o) {
        Rng r(static_cast<u64>(o.a[0]) * 41 + 13);
        PoseMsg m = noisy_pose(truth.at(o.t / 1e9), r, epoch + o.t, cfg.frame, false);
        return m;
      };
  }

  void spawn()
  {
    const i64 offset = proc ? proc->clock_offset : epoch;
    proc = w.spawn(
      "ekf", [] {return run_main_ekf_localizer();}, [&](Process & p) {
        p.clock_offset = offset;
        cfg.apply(p);
      });
    open = false;
    stalled_until = 0;
  }
  void crash_and_restart(i64 down)
  {
    w.count("fault_crash");
    w.kill(proc);
    open = false;
    w.after(down, [this] {
        if (proc->dead) {
          spawn();
        }
      });
  }

  void start()
  {
    spawn();
    auto & m = rclcpp::mw();
    m.network = [this](const rclcpp::Link & l, const rclcpp::AnyMsg &) -> std::vector<i64> {
        if (l.src == "sensors") {
          return next_delays;
        }
        return other_net ? other_net(l) : std::vector<i64>{0};
      };
    m.on_take = [this](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        if (s.proc != proc) {
          return;
        }
        if (s.topic == "/in_pose_with_covariance" || s.topic == "/initialpose") {
          begin(s.topic == "/initialpose" ? EkfRec::INIT : EkfRec::POSE);
          cur.pose = std::make_shared<const PoseMsg>(rclcpp::as<PoseMsg>(msg));
        } else if (s.topic == "/in_twist_with_covariance") {
          begin(EkfRec::TWIST);
          cur.twist = std::make_shared<const TwistMsg>(rclcpp::as<TwistMsg>(msg));
        }
      };
    m.on_done = [this](rclcpp::SubBase & s, const rclcpp::AnyMsg &) {
        if (s.proc == proc) {
          end();
        }
      };
    m.on_timer = [this](rclcpp::TimerBase & t) {
        if (t.proc == proc) {
          ++ticks;
          begin(EkfRec::TICK);
        }
      };
    m.on_timer_done = [this](rclcpp::TimerBase & t) {
        if (t.proc == proc) {
          end();
        }
      };
    m.on_publish = [this](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.proc != proc) {
          return;
        }
        if (p.type == typeid(OdomMsg)) {
          auto o = std::make_shared<const OdomMsg>(rclcpp::as<OdomMsg>(msg));
          ++published;
          note_odom(*o);
          if (on_odom) {
            on_odom(*o);
          }
          if (open) {
            cur.odom.push_back(o);
          } else {
            w.fail("stray-output", "an odometry message was published outside every callback");
          }
        } else if (p.type == typeid(TfMsg)) {
          for (const auto & t : rclcpp::as<TfMsg>(msg).transforms) {
            if (open) {
              cur.tf.push_back(t);
            } else {
              w.fail("stray-output", "a transform was published outside every callback");
            }
          }
        }
      };
    const double jit = plan.get("jitter");
    if (jit > 0) {
      m.timer_jitter = [this, jit, n = u64(0)](Process *) mutable {
          Rng r = keyed(plan.seed, 0x717, n++);
          w.count("timer_jitter");
          return static_cast<i64>(r.uniform(0, jit) * 1e9 / cfg.freq);
        };
    }
    const double ex = plan.get("exec");
    m.exec_time = [this, ex, n = u64(0)](Process * p, const std::string &) mutable {
        std::pair<i64, i64> d{0, 0};
        if (p != proc) {
          return d;
        }
        if (ex > 0) {
          Rng r = keyed(plan.seed, 0xE8EC, n++);
          d.first = static_cast<i64>(r.uniform(0, ex) * 1e9 / cfg.freq);
          d.second = static_cast<i64>(r.uniform(0, ex) * 1e9 / cfg.freq);
        }
        if (stalled_until > w.now) {
          d.first += stalled_until - w.now;
        }
        return d;
      };
    for (const auto & o : plan.ops) {
      w.at(o.t, [this, &o] {perform(o);});
    }
  }

  void perform(const Op & o)
  {
    if (w.stop) {
      return;
    }
    if (o.kind == "pose") {
      deliveries(o, 3);
      rclcpp::mw().inject("/in_pose_with_covariance", make_pose(o), "sensors");
    } else if (o.kind == "twist") {
      deliveries(o, 3);
      rclcpp::mw().inject("/in_twist_with_covariance", make_twist(o), "sensors");
    } else if (o.kind == "init") {
      deliveries(o, 1);
      rclcpp::mw().inject("/initialpose", make_init(o), "sensors");
    } else if (o.kind == "stall") {
      w.count("fault_stall");
      stalled_until = std::max<i64>(stalled_until, w.now + static_cast<i64>(o.a[0]));
      w.note("stall until %.6f", stalled_until / 1e9);
    } else if (o.kind == "clock") {
      w.count(o.a[0] < 0 ? "fault_clock_back" : "fault_clock_forward");
      proc->clock_offset += static_cast<i64>(o.a[0]);
      w.note("clock jumps by %.6f", o.a[0] / 1e9);
    } else if (other_op) {
      other_op(o);
    }
  }

  void deliveries(const Op & o, size_t at)
  {
    next_delays.clear();
    const int n = o.a.size() > at ? static_cast<int>(o.a[at]) : 1;
    for (int i = 0; i < n; ++i) {
      next_delays.push_back(o.a.size() > at + 1 + i ? static_cast<i64>(o.a[at + 1 + i]) : 0);
    }
    if (n == 0) {
      w.count("fault_loss");
    } else if (n > 1) {
      w.count("fault_duplicate");
    }
    for (i64 d : next_delays) {
      if (d > 5000000) {
        w.count("fault_delay");
      }
    }
  }

  void run()
  {
    start();
    w.run_until(static_cast<i64>(plan.get("seconds") * 1e9));
  }

  bool busy_with_init() const {return open && cur.kind == EkfRec::INIT;}
  bool terminated() const {return proc && (proc->dead || proc->exited);}

  void note_odom(const OdomMsg & o)
  {
    w.note("odom %.6f", ns_of(o.header.stamp) / 1e9);
    for (double v : {o.pose.pose.position.x, o.pose.pose.position.y, o.pose.pose.position.z,
        o.pose.pose.orientation.w, o.pose.pose.orientation.z, o.twist.twist.linear.x,
        o.twist.twist.angular.z})
    {
      w.hash_double(v);
    }
    if (w.tracing) {
      double r, p, y;
      to_rpy(quat_of(o.pose.pose.orientation), r, p, y);
      w.trace.push_back(
        fmt(
          "                 x %.9g y %.9g yaw %.9g z %.9g v %.9g w %.9g  Pxx %.4g Pyy %.4g Pyaw %.4g",
          o.pose.pose.position.x, o.pose.pose.position.y, y, o.pose.pose.position.z,
          o.twist.twist.linear.x, o.twist.twist.angular.z, o.pose.covariance[0],
          o.pose.covariance[7], o.pose.covariance[35]));
    }
  }

private:
  void begin(EkfRec::Kind k)
  {
    static const char * names[] = {"tick", "take initial pose", "take pose", "take twist"};
    cur = EkfRec();
    cur.kind = k;
    cur.world = w.now;
    cur.clock = proc->clock_now();
    open = true;
    w.note("%s at clock %.9f", names[k], cur.clock / 1e9);
  }
  void end()
  {
    if (!open) {
      return;
    }
    open = false;
    cur.clock_end = proc->clock_now();
    if (w.current && w.current->killed) {
      return;
    }
    if (on_rec && !w.stop) {
      on_rec(cur);
    }
  }
};

// ------------------------------------------------------------------ reference model
struct Model1D
{
  bool set = false;
  double x = 0, var = 0, q = 0;
  i64 t = 0;
  void init(double obs, double v, i64 when)
  {
    set = true;
    x = obs;
    var = v;
    t = when;
  }
  void update(double obs, double v, i64 when)
  {
    if (!set) {
      init(obs, v, when);
      return;
    }
    const double dt = (when - t) / 1e9;
    var += q * q * dt * dt;
    const double k = var + v > 0 ? var / (var + v) : 0;
    x += k * (obs - x);
    var *= 1 - k;
    t = when;
  }
};

class EkfModel
{
public:
  using Vec = Eigen::VectorXd;
  using Mat = Eigen::MatrixXd;
  EkfCfg c;
  bool alive = false;
  bool ambiguous = false;          // a decision too close to call: stop comparing
  std::string why;
  int since = 0;                   // ticks since (re)start
  std::optional<double> last;
  Vec x;                           // newest first
  Mat P;
  struct P0 {std::shared_ptr<const PoseMsg> m; int age = 0;};
  struct T0 {std::shared_ptr<const TwistMsg> m; int age = 0;};
  std::deque<P0> poses;
  std::deque<T0> twists;
  Model1D z, roll, pitch;
  // what happened, for coverage
  std::map<std::string, u64> n;
  // A shadow of the model whose state is disturbed by this much on every tick
  // tells how far rounding errors alone may have carried the estimate.
  double disturb = 0;
  // Seconds in floating point are coarse when the clock shows today's date.
  double grain = 0;
  i64 last_clock = 0;
  Rng noise{7};

  explicit EkfModel(const EkfCfg & cfg)
  : c(cfg)
  {
    z.q = 1.0;
    roll.q = 0.1;
    pitch.q = 0.1;
  }

  void feed1d(const PoseMsg & m, bool restart)
  {
    double r, p, y;
    to_rpy(quat_of(m.pose.pose.orientation), r, p, y);
    const i64 t = ns_of(m.header.stamp);
    const auto & C = m.pose.covariance;
    if (restart) {
      z.init(m.pose.pose.position.z, C[14], t);
      roll.init(r, C[21], t);
      pitch.init(p, C[28], t);
    } else {
      z.update(m.pose.pose.position.z, C[14], t);
      roll.update(r, C[21], t);
      pitch.update(p, C[28], t);
    }
  }

  // m is expressed in the map frame
  void init(const PoseMsg & m)
  {
    double r, p, y;
    to_rpy(quat_of(m.pose.pose.orientation), r, p, y);
    const auto & C = m.pose.covariance;
    Eigen::Matrix<double, 6, 1> x0, d;
    x0 << m.pose.pose.position.x, m.pose.pose.position.y, y, 0, 0, 0;
    d << C[0], C[7], C[35], 1e-4, 0.01, 0.01;
    x = Vec::Zero(6 * c.N);
    P = Mat::Zero(6 * c.N, 6 * c.N);
    for (int i = 0; i < c.N; ++i) {
      x.segment(6 * i, 6) = x0;
      P.block(6 * i, 6 * i, 6, 6) = Mat(d.asDiagonal());
    }
    since = 0;
    alive = true;
    poses.clear();
    twists.clear();
    feed1d(m, true);
  }

  void pose(const std::shared_ptr<const PoseMsg> & m)
  {
    poses.push_back({m, 0});
    feed1d(*m, false);
  }
  void twist(const std::shared_ptr<const TwistMsg> & m) {twists.push_back({m, 0});}

  static double interval(double freq) {return 1.0 / std::max(freq, 0.1);}

  // true: publishes
  bool tick(i64 clock)
  {
    if (!alive) {
      return false;
    }
    const double t = static_cast<double>(clock) * 1e-9;
    double dt;
    if (!last) {
      dt = interval(c.freq);
    } else {
      if (t < *last) {
        ++n["tick_refused"];
        return false;
      }
      dt = interval(1.0 / (t - *last));
      if (grain > 0 && clock - last_clock < 1e10 * grain && clock != last_clock) {
        ambiguous = true;
        why = "the clock has hardly moved";
        return false;
      }
      if (disturb > 0 && dt > 0) {
        dt += grain * noise.uniform(-1, 1);
      }
    }
    last = t;
    last_clock = clock;
    predict(dt);
    ++since;
    if (disturb > 0) {
      for (int i = 0; i < x.size(); ++i) {
        x(i) *= 1 + disturb * noise.uniform(-1, 1);
      }
      for (int i = 0; i < P.rows(); ++i) {
        for (int j = 0; j < P.cols(); ++j) {
          P(i, j) += disturb * noise.uniform(-1, 1) * std::sqrt(std::abs(P(i, i) * P(j, j)));
        }
      }
    }
    for (size_t k = poses.size(); k > 0; --k) {
      P0 q = poses.front();
      poses.pop_front();
      if (++q.age < c.pose_smooth) {
        poses.push_back(q);
      }
      fuse_pose(*q.m, clock, dt);
    }
    for (size_t k = twists.size(); k > 0; --k) {
      T0 q = twists.front();
      twists.pop_front();
      if (++q.age < c.twist_smooth) {
        twists.push_back(q);
      }
      fuse_twist(*q.m, clock, dt);
    }
    return true;
  }

  double yaw() const {return x(2) + x(3);}

private:
  void predict(double dt)
  {
    const int m = 6 * c.N;
    const double yb = x(2) + x(3), v = x(4), w = x(5);
    Mat A = Mat::Identity(6, 6);
    A(0, 2) = A(0, 3) = -v * std::sin(yb) * dt;
    A(1, 2) = A(1, 3) = v * std::cos(yb) * dt;
    A(0, 4) = std::cos(yb) * dt;
    A(1, 4) = std::sin(yb) * dt;
    A(2, 5) = dt;
    Vec xn(6);
    xn << x(0) + v * std::cos(yb) * dt, x(1) + v * std::sin(yb) * dt, wrap(x(2) + w * dt), x(3), v, w;
    const Mat top = A * P.topLeftCorner(6, m);
    Mat Pn(m, m);
    Pn.bottomRightCorner(m - 6, m - 6) = P.topLeftCorner(m - 6, m - 6);
    Pn.topLeftCorner(6, 6) = top.leftCols(6) * A.transpose();
    Pn.topRightCorner(6, m - 6) = top.leftCols(m - 6);
    Pn.bottomLeftCorner(m - 6, 6) = Pn.topRightCorner(6, m - 6).transpose();
    const double s[4] = {c.s_yaw, c.yaw_bias ? c.s_bias : 0.0, c.s_vx, c.s_wz};
    for (int i = 0; i < 4; ++i) {
      Pn(2 + i, 2 + i) += s[i] * s[i] * dt * dt;
    }
    Vec xs(m);
    xs.head(6) = xn;
    xs.tail(m - 6) = x.head(m - 6);
    x = xs;
    P = Pn;
  }

  // -1: not used
  int step_of(i64 clock, i64 stamp, double dt)
  {
    const double delay = std::max(0.0, static_cast<double>(clock - stamp) * 1e-9);
    if (!(dt > 0)) {
      if (delay > 0) {
        ++n["older_than_window"];
        return -1;
      }
      ambiguous = true;
      why = "no time has passed";
      return -1;
    }
    const double ratio = delay / dt;
    const double frac = ratio - std::floor(ratio);
    if (std::abs(frac - 0.5) < 2e-5 * (1 + ratio * 0.01) + 2 * grain / dt * (1 + ratio) &&
      ratio < c.N + 1)
    {
      ambiguous = true;
      why = "delay falls between two steps";
      return -1;
    }
    if (ratio > c.N + 1) {
      ++n["older_than_window"];
      return -1;
    }
    const int k = static_cast<int>(std::floor(ratio + 0.5));
    if (k >= c.N) {
      ++n["older_than_window"];
      return -1;
    }
    if (k > 0) {
      ++n["late"];
    }
    return k;
  }

  void fuse(const Vec & innovation, const std::vector<int> & idx, const Mat & R, double gate, int k)
  {
    const int h = static_cast<int>(idx.size()), m = 6 * c.N;
    Mat G(h, h);
    for (int i = 0; i < h; ++i) {
      for (int j = 0; j < h; ++j) {
        G(i, j) = P(idx[i], idx[j]);
      }
    }
    const Eigen::FullPivLU<Mat> lu(G);
    const double d2 = innovation.dot(lu.solve(innovation));
    if (std::abs(d2 - gate * gate) < 1e-5 * gate * gate || d2 < 0 || !std::isfinite(d2) ||
      lu.rcond() < 1e-11)
    {
      ambiguous = true;
      why = "close to the gate";
      return;
    }
    if (d2 > gate * gate) {
      ++n["gated"];
      return;
    }
    if (k > since) {
      ++n["before_start"];
      return;          // nothing before the restart is correlated with the present
    }
    Mat PH(m, h);
    for (int j = 0; j < h; ++j) {
      PH.col(j) = P.col(6 * k + idx[j]);
    }
    Mat S = R;
    for (int i = 0; i < h; ++i) {
      for (int j = 0; j < h; ++j) {
        S(i, j) += P(6 * k + idx[i], 6 * k + idx[j]);
      }
    }
    const Mat K = S.transpose().partialPivLu().solve(PH.transpose()).transpose();
    x += K * innovation;
    P -= K * PH.transpose();
    ++n["fused"];
  }

  void fuse_pose(const PoseMsg & m, i64 clock, double dt)
  {
    const int k = step_of(clock, ns_of(m.header.stamp), dt);
    if (k < 0) {
      return;
    }
    double r, p, y;
    to_rpy(quat_of(m.pose.pose.orientation), r, p, y);
    Vec e(3);
    e << m.pose.pose.position.x - x(6 * k), m.pose.pose.position.y - x(6 * k + 1),
      wrap(y - x(6 * k + 2));
    if (M_PI - std::abs(e(2)) < 1e-6) {
      ambiguous = true;
      why = "heading exactly opposite";
      return;
    }
    if (std::abs(wrap(y) - x(6 * k + 2)) > M_PI) {
      ++n["seam"];
    }
    const auto & C = m.pose.covariance;
    Mat R(3, 3);
    const int ix[3] = {0, 1, 5};
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        R(i, j) = C[6 * ix[i] + ix[j]] * c.pose_smooth;
      }
    }
    fuse(e, {0, 1, 2}, R, c.pose_gate, k);
  }

  void fuse_twist(const TwistMsg & m, i64 clock, double dt)
  {
    const int k = step_of(clock, ns_of(m.header.stamp), dt);
    if (k < 0) {
      return;
    }
    Vec e(2);
    e << m.twist.twist.linear.x - x(6 * k + 4), m.twist.twist.angular.z - x(6 * k + 5);
    const auto & C = m.twist.covariance;
    Mat R(2, 2);
    R << C[0], C[5], C[30], C[35];
    R *= c.twist_smooth;
    fuse(e, {4, 5}, R, c.twist_gate, k);
  }
};

// ------------------------------------------------------------------ common judgements
inline bool finite_odom(const OdomMsg & o)
{
  const auto & p = o.pose.pose;
  const auto & t = o.twist.twist;
  for (double v : {p.position.x, p.position.y, p.position.z, p.orientation.w, p.orientation.x,
      p.orientation.y, p.orientation.z, t.linear.x, t.linear.y, t.linear.z, t.angular.x,
      t.angular.y, t.angular.z})
  {
    if (!std::isfinite(v)) {
      return false;
    }
  }
  for (int i = 0; i < 36; ++i) {
    if (!std::isfinite(o.pose.covariance[i]) || !std::isfinite(o.twist.covariance[i])) {
      return false;
    }
  }
  return true;
}

// Compares an odometry message with another one. Empty: equal within tolerance.
inline std::string differs(const OdomMsg & a, const OdomMsg & b, double tol)
{
  auto bad = [&](double u, double v, double scale) {
      return !(std::abs(u - v) <= tol * (1 + std::abs(v) + scale));
    };
  const auto & pa = a.pose.pose, & pb = b.pose.pose;
  // positions: the same tolerance wherever on the map
  auto apart = [&](double u, double v) {
      return !(std::abs(u - v) <= tol * (1 + 1e-5 * std::abs(v)));
    };
  if (apart(pa.position.x, pb.position.x)) {
    return fmt("x is %.12g instead of %.12g", pa.position.x, pb.position.x);
  }
  if (apart(pa.position.y, pb.position.y)) {
    return fmt("y is %.12g instead of %.12g", pa.position.y, pb.position.y);
  }
  if (apart(pa.position.z, pb.position.z)) {
    return fmt("z is %.12g instead of %.12g", pa.position.z, pb.position.z);
  }
  const double ang = quat_angle(quat_of(pa.orientation), quat_of(pb.orientation));
  if (!(ang <= tol * 3)) {
    return fmt("orientation is off by %.12g rad", ang);
  }
  const auto & q = pa.orientation;
  if (!(std::abs(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z - 1) < 1e-6)) {
    return "orientation is not a unit quaternion";
  }
  const auto & ta = a.twist.twist, & tb = b.twist.twist;
  const double va[6] = {ta.linear.x, ta.linear.y, ta.linear.z, ta.angular.x, ta.angular.y, ta.angular.z};
  const double vb[6] = {tb.linear.x, tb.linear.y, tb.linear.z, tb.angular.x, tb.angular.y, tb.angular.z};
  for (int i = 0; i < 6; ++i) {
    if (bad(va[i], vb[i], 0)) {
      return fmt("velocity component %d is %.12g instead of %.12g", i, va[i], vb[i]);
    }
  }
  for (int i = 0; i < 36; ++i) {
    const double sa = std::sqrt(std::abs(b.pose.covariance[7 * (i / 6)] * b.pose.covariance[7 * (i % 6)]));
    if (bad(a.pose.covariance[i], b.pose.covariance[i], sa)) {
      return fmt("pose covariance %d is %.12g instead of %.12g", i, a.pose.covariance[i],
               b.pose.covariance[i]);
    }
    if (bad(a.twist.covariance[i], b.twist.covariance[i], 0)) {
      return fmt("twist covariance %d is %.12g instead of %.12g", i, a.twist.covariance[i],
               b.twist.covariance[i]);
    }
  }
  return "";
}

// The model and its shadow: decides when rounding makes comparing pointless.
class ShadowedModel : public EkfModel
{
public:
  explicit ShadowedModel(const EkfCfg & c, i64 epoch = 0)
  : EkfModel(c), shadow(c)
  {
    grain = shadow.grain = epoch > 1000000000000000LL ? 5e-7 : 0;
    shadow.disturb = 1e-13;
  }
  double tolerance() const {return grain > 0 ? 2e-3 : 2e-6;}
  void init(const PoseMsg & m)
  {
    EkfModel::init(m);
    shadow.init(m);
  }
  void pose(const std::shared_ptr<const PoseMsg> & m)
  {
    EkfModel::pose(m);
    shadow.pose(m);
  }
  void twist(const std::shared_ptr<const TwistMsg> & m)
  {
    EkfModel::twist(m);
    shadow.twist(m);
  }
  bool tick(i64 clock);

private:
  EkfModel shadow;
};

inline OdomMsg model_odom(const EkfModel & m, i64 clock)
{
  OdomMsg o;
  o.header.stamp = stamp_of(clock);
  o.header.frame_id = m.c.frame;
  o.child_frame_id = "base_link";
  o.pose.pose.position.x = m.x(0);
  o.pose.pose.position.y = m.x(1);
  o.pose.pose.position.z = m.z.x;
  set_quat(o.pose.pose.orientation, from_rpy(m.roll.x, m.pitch.x, m.yaw()));
  o.twist.twist.linear.x = m.x(4);
  o.twist.twist.angular.z = m.x(5);
  const int ix[3] = {0, 1, 5};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      o.pose.covariance[6 * ix[i] + ix[j]] = m.P(i, j);
    }
  }
  o.twist.covariance[0] = m.P(4, 4);
  o.twist.covariance[5] = m.P(4, 5);
  o.twist.covariance[30] = m.P(5, 4);
  o.twist.covariance[35] = m.P(5, 5);
  return o;
}

inline bool ShadowedModel::tick(i64 clock)
{
  const bool a = EkfModel::tick(clock), b = shadow.tick(clock);
  if (!ambiguous && (shadow.ambiguous || a != b ||
    (a && !differs(model_odom(*this, clock), model_odom(shadow, clock), grain > 0 ? 2e-4 : 1e-8).empty())))
  {
    ambiguous = true;
    why = "rounding errors have been amplified too far";
  }
  return a;
}

// Odometry and transform of one tick must say the same.
inline std::string tf_differs(const TransformMsg & t, const OdomMsg & o)
{
  if (t.header.frame_id != o.header.frame_id || t.child_frame_id != o.child_frame_id) {
    return fmt("transform %s -> %s, odometry %s -> %s", t.header.frame_id.c_str(),
             t.child_frame_id.c_str(), o.header.frame_id.c_str(), o.child_frame_id.c_str());
  }
  if (ns_of(t.header.stamp) != ns_of(o.header.stamp)) {
    return fmt("transform stamped %.9f, odometry %.9f", ns_of(t.header.stamp) / 1e9,
             ns_of(o.header.stamp) / 1e9);
  }
  const auto & a = t.transform.translation;
  const auto & b = o.pose.pose.position;
  if (!(std::abs(a.x - b.x) <= 1e-9 * (1 + std::abs(b.x)) &&
    std::abs(a.y - b.y) <= 1e-9 * (1 + std::abs(b.y)) &&
    std::abs(a.z - b.z) <= 1e-9 * (1 + std::abs(b.z))))
  {
    return fmt("transform at (%.12g, %.12g, %.12g), odometry at (%.12g, %.12g, %.12g)", a.x, a.y,
             a.z, b.x, b.y, b.z);
  }
  const double ang =
    quat_angle(quat_of(t.transform.rotation), quat_of(o.pose.pose.orientation));
  if (!(ang <= 1e-8)) {
    return fmt("transform and odometry orientations are %.3g rad apart", ang);
  }
  return "";
}

}  // namespace sim

#endif  // SIM_LIB_EKF_SIM_HPP_
