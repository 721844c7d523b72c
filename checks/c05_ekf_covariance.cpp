// C05: published covariances: valid on every tick of every schedule, growing by
// the process noise alone while nothing is fused, and never larger for having
// received one measurement more.
#include "lib/ekf_sim.hpp"

using namespace sim;

namespace
{

Eigen::Matrix3d pose_block(const OdomMsg & o)
{
  Eigen::Matrix3d m;
  const int ix[3] = {0, 1, 5};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      m(i, j) = o.pose.covariance[6 * ix[i] + ix[j]];
    }
  }
  return m;
}

Eigen::Matrix2d twist_block(const OdomMsg & o)
{
  Eigen::Matrix2d m;
  const auto & c = o.twist.covariance;
  m << c[0], c[5], c[30], c[35];
  return m;
}

// positive semidefinite up to rounding at the scale of s
template<class M>
bool psd(const M & m, const M & scale, double tol)
{
  M n = 0.5 * (m + m.transpose());
  for (int i = 0; i < n.rows(); ++i) {
    for (int j = 0; j < n.cols(); ++j) {
      n(i, j) /= std::sqrt(scale(i, i) * scale(j, j));
    }
  }
  Eigen::SelfAdjointEigenSolver<M> s(n, Eigen::EigenvaluesOnly);
  return s.eigenvalues().minCoeff() >= -tol;
}

class C05 : public Check
{
public:
  std::string id() const override {return "C05";}
  std::string rule() const override
  {
    return "one run = one parameter set and one schedule; either one drive under faults, or a "
           "vehicle at rest simulated twice, with and without additional measurements; "
           "non-trivial: at least 10 covariances were judged after a measurement was fused";
  }
  std::string real_components() const override
  {
    return "ekf_localizer node with its main function, kalman_filter, lib, rotationlib";
  }
  std::string stub_components() const override
  {
    return "rclcpp, tf2 and message types (simulated), sensors";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"covariances of the inputs are positive semidefinite with standard deviations between "
      "1e-3 and 10",
      "definiteness and symmetry are judged up to 1e-8 of the largest variance since the restart",
      "more measurements are compared with fewer where the motion (and so the linearisation) is "
      "the same for both"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"judged", "grew_unmeasured", "noise_steps", "pairs_compared", "extra_measurements",
      "fault_loss", "fault_duplicate", "fault_delay", "fault_stall"};
  }
  u64 quick_runs() const override {return 15000;}
  u64 thorough_runs() const override {return 500000;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    EkfCfg c = random_ekf_cfg(r, r.chance(0.03) ? 50 : 10);
    const bool rest = r.chance(0.4);
    c.store(p);
    EkfScenario s = EkfScenario::random(r, c, thorough);
    if (rest || r.chance(0.5)) {
      // pauses in the measurements
      s.pose_hz = r.pick(std::vector<double>{0.5, 1, 2, 5});
      s.twist_hz = r.pick(std::vector<double>{0.5, 1, 2, 10});
    }
    if (rest) {
      s.clock_faults = false;
    }
    if (r.chance(0.3)) {
      s.pre_init_traffic = false;
    }
    generate_ekf(p, r, c, s);
    p.cfg["rest"] = rest;
    if (rest) {
      p.cfg["fifo"] = 1;
      p.cfg["exec"] = 0;
      const int n = static_cast<int>(r.range(1, 20));
      for (int k = 0; k < n; ++k) {
        p.ops.push_back({r.range(0, static_cast<i64>(s.seconds * 1e9)),
            r.chance(0.5) ? "extrapose" : "extratwist",
            {std::floor(r.chance(0.6) ? 0.0 : r.uniform(0, c.N + 2) * 1e9 / c.freq),
              static_cast<double>(r.below(1u << 30)), 0, 1, 0}, ""});
      }
      std::stable_sort(
        p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    }
    return p;
  }

  struct Out {i64 stamp; std::shared_ptr<const OdomMsg> o;};

  void simulate(World & w, const Plan & plan, bool extras, std::vector<Out> & out)
  {
    EkfSim s(w, plan);
    const bool rest = plan.get("rest") != 0;
    if (rest) {
      // a vehicle at rest, measured without error (but with uncertainty)
      const TruthState home = [&] {
          TruthState q = s.truth.at(0);
          q.v = q.w = 0;
          q.roll = q.pitch = 0;
          return q;
        }();
      auto mp = s.make_pose;
      auto mt = s.make_twist;
      auto mi = s.make_init;
      s.make_pose = [=](const Op & op) {
          PoseMsg m = mp(op);
          m.pose.pose.position.x = home.x;
          m.pose.pose.position.y = home.y;
          m.pose.pose.position.z = home.z;
          set_quat(m.pose.pose.orientation, from_rpy(0, 0, home.yaw));
          return m;
        };
      s.make_init = [=](const Op & op) {
          PoseMsg m = mi(op);
          m.pose.pose.position.x = home.x;
          m.pose.pose.position.y = home.y;
          m.pose.pose.position.z = home.z;
          set_quat(m.pose.pose.orientation, from_rpy(0, 0, home.yaw));
          return m;
        };
      s.make_twist = [=](const Op & op) {
          TwistMsg m = mt(op);
          m.twist.twist.linear.x = 0;
          m.twist.twist.angular.z = 0;
          return m;
        };
    }
    auto base_pose = s.make_pose;
    auto base_init = s.make_init;
    auto base_twist = s.make_twist;
    // standard deviations over a wide range
    auto rescale = [](Rng r, std::array<double, 36> & c) {
        if (r.chance(0.4)) {
          double k[6];
          for (int i = 0; i < 6; ++i) {
            const double sd = std::sqrt(c[7 * i]);
            k[i] = sd > 0 ? std::exp(r.uniform(std::log(1e-3), std::log(3.0))) / sd : 1;
          }
          for (int i = 0; i < 36; ++i) {
            c[i] *= k[i / 6] * k[i % 6];
          }
        }
      };
    s.make_pose = [&, base_pose](const Op & op) {
        PoseMsg m = base_pose(op);
        rescale(keyed(static_cast<u64>(op.a[1]), 1), m.pose.covariance);
        return m;
      };
    s.make_init = [&, base_init](const Op & op) {
        PoseMsg m = base_init(op);
        rescale(keyed(static_cast<u64>(op.a[0]), 2), m.pose.covariance);
        return m;
      };
    s.make_twist = [&, base_twist](const Op & op) {
        TwistMsg m = base_twist(op);
        rescale(keyed(static_cast<u64>(op.a[1]), 3), m.twist.covariance);
        return m;
      };
    s.other_op = [&](const Op & op) {
        const bool pose = op.kind == "extrapose";
        const std::string topic = pose ? "/in_pose_with_covariance" : "/in_twist_with_covariance";
        // it must not push another measurement out of a full queue
        if (!extras || s.open || s.stalled_until >= w.now) {
          return true;
        }
        for (auto * q : rclcpp::mw().topics[topic].subs) {
          if (!q->queue.empty()) {
            return true;
          }
        }
        s.next_delays = {0};
        w.count("extra_measurements");
        if (pose) {
          rclcpp::mw().inject(topic, s.make_pose(op), "sensors");
        } else {
          rclcpp::mw().inject(topic, s.make_twist(op), "sensors");
        }
        return true;
      };

    std::shared_ptr<const OdomMsg> before;
    i64 quiet = INT64_MAX / 2;            // ticks since the last measurement was taken
    bool measured = false;                // since the last restart
    bool started = false;
    Eigen::Matrix3d ps = Eigen::Matrix3d::Zero();
    Eigen::Matrix2d ts = Eigen::Matrix2d::Zero();
    const int longest = std::max(s.cfg.pose_smooth, s.cfg.twist_smooth);
    s.on_rec = [&](const EkfRec & e) {
        switch (e.kind) {
          case EkfRec::INIT:
            before.reset();
            measured = false;
            quiet = INT64_MAX / 2;
            started = true;
            {
              const auto & c = e.pose->pose.covariance;
              ps.diagonal() << std::max(c[0], 1e-9), std::max(c[7], 1e-9), std::max(c[35], 1e-9);
              ts.diagonal() << 0.01, 0.01;
            }
            return;
          case EkfRec::POSE:
          case EkfRec::TWIST:
            measured = true;
            quiet = 0;
            return;
          case EkfRec::TICK:
            break;
        }
        for (const auto & o : e.odom) {
          const Eigen::Matrix3d P = pose_block(*o);
          const Eigen::Matrix2d T = twist_block(*o);
          for (int i = 0; i < 36; ++i) {
            const int a = i / 6, b = i % 6;
            const auto planar = [](int k) {return k == 0 || k == 1 || k == 5;};
            const auto speed = [](int k) {return k == 0 || k == 5;};
            if (!std::isfinite(o->pose.covariance[i]) || !std::isfinite(o->twist.covariance[i])) {
              w.fail("not-finite", fmt("covariance entry (%d, %d) is not finite", a, b));
              return;
            }
            if (!(planar(a) && planar(b)) && o->pose.covariance[i] != 0) {
              w.fail("layout", fmt("pose covariance (%d, %d) is %.9g", a, b, o->pose.covariance[i]));
              return;
            }
            if (!(speed(a) && speed(b)) && o->twist.covariance[i] != 0) {
              w.fail("layout", fmt("twist covariance (%d, %d) is %.9g", a, b, o->twist.covariance[i]));
              return;
            }
          }
          ps.diagonal() = ps.diagonal().cwiseMax(P.diagonal());
          ts.diagonal() = ts.diagonal().cwiseMax(T.diagonal());
          if (!symmetric(w, P, ps, "pose") || !symmetric(w, T, ts, "twist")) {
            return;
          }
          if (!psd(P, ps, 1e-6)) {
            w.fail("indefinite", fmt("pose covariance has a negative eigenvalue, variances %.6g %.6g %.6g",
              P(0, 0), P(1, 1), P(2, 2)));
            return;
          }
          if (!psd(T, ts, 1e-6)) {
            w.fail("indefinite", fmt("twist covariance has a negative eigenvalue, variances %.6g %.6g",
              T(0, 0), T(1, 1)));
            return;
          }
          w.count("judged");
          if (before && started) {
            const Eigen::Matrix3d P0 = pose_block(*before);
            const Eigen::Matrix2d T0 = twist_block(*before);
            if (!measured) {
              if (!psd(Eigen::Matrix3d(P - P0), ps, 1e-6)) {
                w.fail("shrank", "pose uncertainty shrank although nothing was ever measured");
                return;
              }
              w.count("grew_unmeasured");
            }
            if (quiet >= longest) {
              // nothing is pending: only the process noise of the interval is added
              const double dt =
                std::min(10.0, (ns_of(o->header.stamp) - ns_of(before->header.stamp)) / 1e9);
              Eigen::Matrix2d Q = Eigen::Matrix2d::Zero();
              Q.diagonal() << s.cfg.s_vx * s.cfg.s_vx * dt * dt, s.cfg.s_wz * s.cfg.s_wz * dt * dt;
              const Eigen::Matrix2d D = T - T0 - Q;
              for (int i = 0; i < 2; ++i) {
                for (int j = 0; j < 2; ++j) {
                  const double tol = 1e-6 * std::sqrt(Q(i, i) * Q(j, j)) +
                    1e-12 * std::sqrt(ts(i, i) * ts(j, j));
                  if (!(std::abs(D(i, j)) <= tol)) {
                    w.fail(
                      "growth", fmt("velocity covariance (%d, %d) went from %.9g to %.9g in %.6f s "
                      "without any measurement", i, j, T0(i, j), T(i, j), dt));
                    return;
                  }
                }
              }
              w.count("noise_steps");
            }
          }
          before = o;
          out.push_back({ns_of(o->header.stamp), o});
        }
        if (!e.odom.empty()) {
          ++quiet;
        }
      };
    s.run();
    if (!w.stop && s.terminated()) {
      w.fail("terminated", s.proc->exit_error.empty() ? "the node ended" : s.proc->exit_error);
    }
    if (measured) {
      w.count("measured_runs");
    }
  }

  template<class M>
  bool symmetric(World & w, const M & m, const M & scale, const char * what)
  {
    for (int i = 0; i < m.rows(); ++i) {
      for (int j = 0; j < i; ++j) {
        if (!(std::abs(m(i, j) - m(j, i)) <= 1e-6 * std::sqrt(scale(i, i) * scale(j, j)))) {
          w.fail(
            "asymmetric", fmt("%s covariance (%d, %d) is %.12g and (%d, %d) is %.12g", what, i, j,
            m(i, j), j, i, m(j, i)));
          return false;
        }
      }
    }
    return true;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    std::vector<Out> few, many;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    const bool rest = plan.get("rest") != 0;
    if (rest) {
      World base(plan.seed);
      base.fifo = true;
      simulate(base, plan, false, few);
      o.sim_seconds += base.now / 1e9;
      if (!base.violations.empty()) {
        w.fail(base.violations[0].cls, base.violations[0].detail);
      }
      set_world(&w);
    }
    if (!w.stop) {
      simulate(w, plan, true, many);
    }
    if (rest && !w.stop) {
      if (few.size() != many.size()) {
        w.fail("outputs", fmt("%zu outputs with and %zu without additional measurements",
          many.size(), few.size()));
      }
      for (size_t i = 0; i < few.size() && !w.stop; ++i) {
        const Eigen::Matrix3d A = pose_block(*few[i].o), B = pose_block(*many[i].o);
        const Eigen::Matrix2d C = twist_block(*few[i].o), D = twist_block(*many[i].o);
        Eigen::Matrix3d sa = Eigen::Matrix3d::Identity();
        Eigen::Matrix2d sc = Eigen::Matrix2d::Identity();
        sa.diagonal() = A.diagonal().cwiseMax(1e-6);
        sc.diagonal() = C.diagonal().cwiseMax(1e-6);
        if (!psd(Eigen::Matrix3d(A - B), sa, 1e-6) || !psd(Eigen::Matrix2d(C - D), sc, 1e-6)) {
          w.fail(
            "information-hurts", fmt("output %zu: variances %.9g %.9g %.9g, %.9g %.9g with fewer, "
            "%.9g %.9g %.9g, %.9g %.9g with more measurements", i, A(0, 0), A(1, 1), A(2, 2),
            C(0, 0), C(1, 1), B(0, 0), B(1, 1), B(2, 2), D(0, 0), D(1, 1)));
        }
        w.count("pairs_compared");
      }
    }
    o.nontrivial = w.stats["judged"] >= 10 && w.stats["measured_runs"] > 0;
    o.state_hash = w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C05 c;
  return harness_main(argc, argv, c);
}
