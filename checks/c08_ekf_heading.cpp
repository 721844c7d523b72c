// C08: the same drive on a turned and shifted map.
//
// Every run simulates one schedule twice: as it is, and with all poses turned
// and shifted. What is published must be turned and shifted by the same amount,
// message by message. Turns are chosen so that headings cross the seam at plus
// or minus pi in one world where they do not in the other.
#include "lib/ekf_sim.hpp"

using namespace sim;

namespace
{

class C08 : public Check
{
public:
  std::string id() const override {return "C08";}
  std::string rule() const override
  {
    return "one run = one drive simulated on two maps; non-trivial: at least 10 outputs compared, "
           "a pose was fused, and a heading crossed or straddled the seam in one of the worlds";
  }
  std::string real_components() const override
  {
    return "ekf_localizer node with its main function, kalman_filter, lib, rotationlib";
  }
  std::string stub_components() const override
  {
    return "rclcpp, tf2 and message types (simulated), sensors";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"maps are shifted by up to 100 km; rounding that grows beyond 1e-8 of the estimate "
      "ends the comparison"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"compared", "seam", "turned_by_pi", "spinning", "fused", "gated", "late",
      "fault_loss", "fault_stall"};
  }
  u64 quick_runs() const override {return 10000;}
  u64 thorough_runs() const override {return 400000;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    EkfCfg c = random_ekf_cfg(r, 8);
    c.store(p);
    EkfScenario s = EkfScenario::random(r, c, thorough);
    const bool exact = r.chance(0.3);
    if (exact) {
      s.outlier = 0;
      s.clock_faults = false;
      s.max_late_steps = std::min(s.max_late_steps, c.N - 1.5);
      s.pose_hz = 10;
      s.twist_hz = 20;
    }
    generate_ekf(p, r, c, s);
    p.cfg["exact"] = exact;
    p.cfg["turn"] = r.chance(0.3) ? M_PI : (r.chance(0.3) ? r.uniform(-0.2, 0.2) + M_PI : r.uniform(-M_PI, M_PI));
    const double far = r.chance(0.3) ? 1e5 : 300;
    p.cfg["dx"] = r.uniform(-far, far);
    p.cfg["dy"] = r.uniform(-far, far);
    // spin fast, or start close to the seam
    p.cfg["spin"] = r.chance(0.5) ? r.uniform(-2.5, 2.5) : 0;
    p.cfg["yaw0"] = r.chance(0.5) ? (r.chance(0.5) ? 1 : -1) * (M_PI - r.uniform(-0.05, 0.05)) : r.uniform(-M_PI, M_PI);
    return p;
  }

  struct Frame
  {
    double th = 0, dx = 0, dy = 0;
    Frame() {}
    Frame(double t, double x, double y)
    : th(t), dx(x), dy(y) {}
    template<class PoseWithCov>
    void apply(PoseWithCov & p) const
    {
      const double c = std::cos(th), s = std::sin(th);
      auto & q = p.pose.position;
      const double x = q.x, y = q.y;
      q.x = c * x - s * y + dx;
      q.y = s * x + c * y + dy;
      set_quat(p.pose.orientation, qmul({std::cos(th / 2), 0, 0, std::sin(th / 2)},
        quat_of(p.pose.orientation)));
      Eigen::Matrix<double, 6, 6> C, R = Eigen::Matrix<double, 6, 6>::Identity();
      for (int i = 0; i < 36; ++i) {
        C(i / 6, i % 6) = p.covariance[i];
      }
      R(0, 0) = R(1, 1) = c;
      R(0, 1) = -s;
      R(1, 0) = s;
      C = R * C * R.transpose();
      for (int i = 0; i < 36; ++i) {
        p.covariance[i] = C(i / 6, i % 6);
      }
    }
  };

  struct Out {std::shared_ptr<const OdomMsg> o; bool judge;};

  void simulate(World & w, const Plan & plan, const Frame & f, std::vector<Out> & out, u64 & seams)
  {
    EkfSim s(w, plan);
    const bool exact = plan.get("exact") != 0;
    const double spin = plan.get("spin"), yaw0 = plan.get("yaw0");
    auto truth = [&](double t) {
        TruthState q = s.truth.at(t);
        const TruthState start = s.truth.at(0);
        if (spin != 0) {
          // a circle driven at the speed of the moment
          q.v = 3;
          q.w = spin;
          q.yaw = yaw0 + spin * t;
          q.x = q.v / spin * (std::sin(q.yaw) - std::sin(yaw0));
          q.y = -q.v / spin * (std::cos(q.yaw) - std::cos(yaw0));
        } else {
          const double d = yaw0 - start.yaw;
          const double x = q.x - start.x, y = q.y - start.y;
          q.x = std::cos(d) * x - std::sin(d) * y;
          q.y = std::sin(d) * x + std::cos(d) * y;
          q.yaw += d;
        }
        return q;
      };
    s.make_pose = [&](const Op & op) {
        Rng r(static_cast<u64>(op.a[1]) * 31 + 5);
        const i64 age = static_cast<i64>(op.a[0]);
        const TruthState q = truth((op.t - age) / 1e9);
        PoseMsg m = noisy_pose(q, r, std::max<i64>(0, s.epoch + op.t - age), s.cfg.frame, op.a[2] != 0);
        if (exact) {
          m.pose.pose.position.x = q.x;
          m.pose.pose.position.y = q.y;
          set_quat(m.pose.pose.orientation, from_rpy(0, 0, q.yaw));
        }
        f.apply(m.pose);
        return m;
      };
    s.make_init = [&](const Op & op) {
        Rng r(static_cast<u64>(op.a[0]) * 41 + 13);
        PoseMsg m = noisy_pose(truth(op.t / 1e9), r, s.epoch + op.t, s.cfg.frame, false);
        // its planar covariance is used without correlations: isotropic turns into itself
        m.pose.covariance.fill(0);
        const double v = r.uniform(0.01, 1);
        m.pose.covariance[0] = m.pose.covariance[7] = v;
        m.pose.covariance[14] = 0.1;
        m.pose.covariance[21] = m.pose.covariance[28] = 0.01;
        m.pose.covariance[35] = r.uniform(0.001, 0.2);
        f.apply(m.pose);
        return m;
      };
    s.make_twist = [&](const Op & op) {
        Rng r(static_cast<u64>(op.a[1]) * 37 + 9);
        const i64 age = static_cast<i64>(op.a[0]);
        const TruthState q = truth((op.t - age) / 1e9);
        TwistMsg m = noisy_twist(q, r, std::max<i64>(0, s.epoch + op.t - age), op.a[2] != 0);
        if (exact) {
          m.twist.twist.linear.x = q.v;
          m.twist.twist.angular.z = q.w;
        }
        return m;
      };
    ShadowedModel model(s.cfg);
    double last_yaw = 0;
    bool have_yaw = false;
    s.on_rec = [&](const EkfRec & e) {
        if (!model.ambiguous) {
          switch (e.kind) {
            case EkfRec::INIT: model.init(*e.pose); break;
            case EkfRec::POSE: model.pose(e.pose); break;
            case EkfRec::TWIST: model.twist(e.twist); break;
            case EkfRec::TICK: model.tick(e.clock); break;
          }
        }
        for (const auto & od : e.odom) {
          double ro, pi, ya;
          to_rpy(quat_of(od->pose.pose.orientation), ro, pi, ya);
          if (have_yaw && std::abs(ya - last_yaw) > M_PI) {
            ++seams;
          }
          last_yaw = ya;
          have_yaw = true;
          out.push_back({od, !model.ambiguous});
        }
      };
    s.run();
    if (!w.stop && s.terminated()) {
      w.fail("terminated", s.proc->exit_error.empty() ? "the node ended" : s.proc->exit_error);
    }
    for (const auto & [k, v] : model.n) {
      w.count(k, v);
    }
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    std::vector<Out> a, b;
    u64 sa = 0, sb = 0;
    const Frame f(plan.get("turn"), plan.get("dx"), plan.get("dy"));
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    {
      World base(plan.seed);
      base.fifo = w.fifo;
      simulate(base, plan, Frame(), a, sa);
      o.sim_seconds += base.now / 1e9;
      if (!base.violations.empty()) {
        w.fail(base.violations[0].cls, base.violations[0].detail);
      }
      set_world(&w);
    }
    if (!w.stop) {
      simulate(w, plan, f, b, sb);
    }
    if (!w.stop && a.size() != b.size()) {
      w.fail("outputs", fmt("%zu outputs on one map, %zu on the other", a.size(), b.size()));
    }
    u64 compared = 0;
    for (size_t i = 0; i < a.size() && !w.stop; ++i) {
      if (!a[i].judge || !b[i].judge) {
        break;
      }
      OdomMsg want = *a[i].o, got = *b[i].o;
      f.apply(want.pose);
      // positions are compared relative to the shift
      want.pose.pose.position.x -= f.dx;
      want.pose.pose.position.y -= f.dy;
      got.pose.pose.position.x -= f.dx;
      got.pose.pose.position.y -= f.dy;
      const std::string d = differs(got, want, 1e-5);
      if (!d.empty() || ns_of(got.header.stamp) != ns_of(want.header.stamp)) {
        w.fail(
          "orientation-matters", fmt("turned by %.6f rad, output %zu: %s (turned back and shifted "
          "back from the other map)", f.th, i, d.empty() ? "other stamp" : d.c_str()));
      }
      ++compared;
    }
    w.count("compared", compared);
    w.count("seam", sa + sb);
    if (plan.get("spin") != 0) {
      w.count("spinning");
    }
    if (std::abs(std::abs(wrap(f.th)) - M_PI) < 0.25) {
      w.count("turned_by_pi");
    }
    o.nontrivial = compared >= 10 && w.stats["fused"] > 0 && sa + sb > 0;
    o.state_hash = w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C08 c;
  return harness_main(argc, argv, c);
}
