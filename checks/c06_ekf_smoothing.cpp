// C06: how often, when and with what weight each accepted measurement is used.
//
// Without process noise the published covariance is the inverse of the
// information collected since the restart, so every use of a measurement can be
// read off it. A batch estimator that knows which measurements were taken, and
// that each one is to be used on so many consecutive ticks, says what it must
// be after every tick.
#include "lib/ekf_sim.hpp"

using namespace sim;

namespace
{

class C06 : public Check
{
public:
  std::string id() const override {return "C06";}
  std::string rule() const override
  {
    return "one run = one pair of smoothing counts and one schedule of measurements under faults; "
           "non-trivial: at least three measurements were used up completely and at least two "
           "were waiting together on some tick";
  }
  std::string real_components() const override
  {
    return "ekf_localizer node with its main function, kalman_filter, lib, rotationlib";
  }
  std::string stub_components() const override
  {
    return "rclcpp, tf2 and message types (simulated), sensors";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"uses are counted with process noise configured to zero; half of the runs use a "
      "vehicle at rest and both kinds of measurement, half twist measurements of any value",
      "comparison stops at a tick whose delay falls between two steps within rounding"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"judged", "used_up", "waiting_together", "reinit_with_pending", "older_than_window",
      "late", "fault_duplicate", "fault_stall", "mode_rest", "mode_twist"};
  }
  u64 quick_runs() const override {return 8000;}
  u64 thorough_runs() const override {return 400000;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    EkfCfg c = random_ekf_cfg(r, r.chance(0.05) ? 50 : 10);
    c.pose_smooth = static_cast<int>(r.range(1, 8));
    c.twist_smooth = static_cast<int>(r.range(1, 8));
    c.pose_gate = c.twist_gate = 1e6;
    c.s_vx = c.s_wz = c.s_yaw = c.s_bias = 0;
    c.store(p);
    EkfScenario s = EkfScenario::random(r, c, thorough);
    s.outlier = 0;
    s.reinits = r.chance(0.4) ? static_cast<int>(r.range(1, 3)) : 0;
    s.pose_hz = r.pick(std::vector<double>{1, 2, 5, 10, 25});
    s.twist_hz = r.pick(std::vector<double>{1, 2, 5, 10, 25});
    generate_ekf(p, r, c, s);
    const bool rest = r.chance(0.5);
    p.cfg["rest"] = rest;
    if (!rest) {               // twist measurements alone, whatever their values
      p.ops.erase(
        std::remove_if(
          p.ops.begin(), p.ops.end(), [](const Op & op) {return op.kind == "pose";}),
        p.ops.end());
    }
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    using Mat6 = Eigen::Matrix<double, 6, 6>;
    using Vec6 = Eigen::Matrix<double, 6, 1>;
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    EkfSim s(w, plan);
    const bool rest = plan.get("rest") != 0;
    w.count(rest ? "mode_rest" : "mode_twist");
    const TruthState home = [&] {
        TruthState q = s.truth.at(0);
        q.v = q.w = q.roll = q.pitch = 0;
        return q;
      }();
    auto at_home = [&](PoseMsg m) {
        m.pose.pose.position.x = home.x;
        m.pose.pose.position.y = home.y;
        m.pose.pose.position.z = home.z;
        set_quat(m.pose.pose.orientation, from_rpy(0, 0, home.yaw));
        return m;
      };
    auto mp = s.make_pose;
    auto mi = s.make_init;
    auto mt = s.make_twist;
    s.make_pose = [&, mp](const Op & op) {return at_home(mp(op));};
    s.make_init = [&, mi](const Op & op) {return at_home(mi(op));};
    s.make_twist = [&, mt](const Op & op) {
        TwistMsg m = mt(op);
        if (rest) {
          m.twist.twist.linear.x = 0;
          m.twist.twist.angular.z = 0;
        }
        return m;
      };

    struct Live {bool is_pose; Eigen::MatrixXd info; Eigen::VectorXd y; i64 stamp; int left;};
    std::deque<Live> live[2];
    bool alive = false, ambiguous = false;
    std::optional<double> last;
    std::vector<Mat6> phi;             // state at tick k from the state at the restart
    Mat6 L = Mat6::Zero();             // information about the state at the restart
    Vec6 b = Vec6::Zero();
    u64 judged = 0;

    s.on_rec = [&](const EkfRec & e) {
        if (ambiguous) {
          return;
        }
        if (e.kind == EkfRec::INIT) {
          if (alive && (!live[0].empty() || !live[1].empty())) {
            w.count("reinit_with_pending");
          }
          alive = true;
          live[0].clear();
          live[1].clear();
          phi.assign(1, Mat6::Identity());
          const auto & c = e.pose->pose.covariance;
          L.setZero();
          L.diagonal() << 1 / c[0], 1 / c[7], 1 / c[35], 1 / 1e-4, 1 / 0.01, 1 / 0.01;
          b.setZero();
          return;
        }
        if (e.kind == EkfRec::POSE) {
          Eigen::Matrix3d R;
          const int ix[3] = {0, 1, 5};
          for (int i = 0; i < 3; ++i) {
            for (int j = 0; j < 3; ++j) {
              R(i, j) = e.pose->pose.covariance[6 * ix[i] + ix[j]];
            }
          }
          live[0].push_back({true, R.inverse() / s.cfg.pose_smooth, Eigen::Vector3d::Zero(),
              ns_of(e.pose->header.stamp), s.cfg.pose_smooth});
          return;
        }
        if (e.kind == EkfRec::TWIST) {
          const auto & c = e.twist->twist.covariance;
          Eigen::Matrix2d R;
          R << c[0], c[5], c[30], c[35];
          Eigen::Vector2d y(e.twist->twist.twist.linear.x, e.twist->twist.twist.angular.z);
          live[1].push_back({false, R.inverse() / s.cfg.twist_smooth, y,
              ns_of(e.twist->header.stamp), s.cfg.twist_smooth});
          return;
        }
        if (!alive) {
          return;
        }
        const double t = static_cast<double>(e.clock) * 1e-9;
        double dt = 1 / s.cfg.freq;
        if (last) {
          if (t < *last) {
            return;
          }
          dt = std::min(10.0, t - *last);
        }
        last = t;
        Mat6 A = Mat6::Identity();
        A(0, 4) = std::cos(home.yaw) * dt;
        A(1, 4) = std::sin(home.yaw) * dt;
        A(2, 5) = dt;
        phi.push_back(A * phi.back());
        if (live[0].size() + live[1].size() > 1) {
          w.count("waiting_together");
        }
        for (auto & queue : live) {
          for (auto & m : queue) {
            --m.left;
            const double delay = std::max(0.0, (e.clock - m.stamp) * 1e-9);
            if (!(dt > 0)) {
              if (delay > 0) {
                continue;
              }
              ambiguous = true;
              return;
            }
            const double ratio = delay / dt;
            if (std::abs(ratio - std::floor(ratio) - 0.5) < 2e-5 * (1 + ratio * 0.01) &&
              ratio < s.cfg.N + 1)
            {
              ambiguous = true;
              w.count("ambiguous");
              return;
            }
            if (ratio > s.cfg.N + 1 || std::floor(ratio + 0.5) >= s.cfg.N) {
              w.count("older_than_window");
              continue;
            }
            const size_t k = static_cast<size_t>(std::floor(ratio + 0.5));
            if (k >= phi.size()) {
              w.count("before_start");
              continue;
            }
            if (k > 0) {
              w.count("late");
            }
            Eigen::MatrixXd C;
            if (m.is_pose) {
              C = Eigen::MatrixXd::Zero(3, 6);
              C(0, 0) = C(1, 1) = C(2, 2) = 1;
            } else {
              C = Eigen::MatrixXd::Zero(2, 6);
              C(0, 4) = C(1, 5) = 1;
            }
            const Eigen::MatrixXd H = C * phi[phi.size() - 1 - k];
            L += H.transpose() * m.info * H;
            b += H.transpose() * m.info * m.y;
            w.count("uses");
          }
          while (!queue.empty() && queue.front().left == 0) {
            queue.pop_front();
            w.count("used_up");
          }
        }
        if (e.odom.size() != 1) {
          w.fail("output-count", fmt("%zu odometry messages on one tick", e.odom.size()));
          return;
        }
        const OdomMsg & got = *e.odom[0];
        const Mat6 P = phi.back() * L.inverse() * phi.back().transpose();
        // read as information: a missing or repeated use shows at its full weight
        auto compare = [&](const Eigen::MatrixXd & have, const Eigen::MatrixXd & want, const char * what) {
            for (int i = 0; i < want.rows(); ++i) {
              for (int j = 0; j < want.cols(); ++j) {
                if (!(std::abs(have(i, j) - want(i, j)) <=
                  1e-6 * std::sqrt(want(i, i) * want(j, j))))
                {
                  w.fail(
                    "weight", fmt("tick %zu after the restart, %zu poses and %zu twists waiting: %s "
                    "covariance (%d, %d) is %.9g instead of %.9g", phi.size() - 1, live[0].size(),
                    live[1].size(), what, i, j, have(i, j), want(i, j)));
                  return false;
                }
              }
            }
            return true;
          };
        const auto & tc = got.twist.covariance;
        Eigen::Matrix2d T;
        T << tc[0], tc[5], tc[30], tc[35];
        if (!compare(T, P.bottomRightCorner(2, 2), "velocity")) {
          return;
        }
        if (rest) {
          Eigen::Matrix3d Q;
          const int ix[3] = {0, 1, 5};
          for (int i = 0; i < 3; ++i) {
            for (int j = 0; j < 3; ++j) {
              Q(i, j) = got.pose.covariance[6 * ix[i] + ix[j]];
            }
          }
          if (!compare(Q, P.topLeftCorner(3, 3), "pose")) {
            return;
          }
        } else {
          const Vec6 x = phi.back() * L.inverse() * b;
          if (!(std::abs(got.twist.twist.linear.x - x(4)) <= 1e-6 * (1 + std::abs(x(4)))) ||
            !(std::abs(got.twist.twist.angular.z - x(5)) <= 1e-6 * (1 + std::abs(x(5)))))
          {
            w.fail(
              "value", fmt("tick %zu after the restart: velocities %.9g, %.9g instead of the "
              "weighted mean %.9g, %.9g", phi.size() - 1, got.twist.twist.linear.x,
              got.twist.twist.angular.z, x(4), x(5)));
            return;
          }
        }
        ++judged;
      };
    s.run();
    if (!w.stop && s.terminated()) {
      w.fail("terminated", s.proc->exit_error.empty() ? "the node ended" : s.proc->exit_error);
    }
    w.count("judged", judged);
    o.nontrivial = judged >= 10 && w.stats["used_up"] >= 3 && w.stats["waiting_together"] > 0;
    o.state_hash = w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C06 c;
  return harness_main(argc, argv, c);
}
