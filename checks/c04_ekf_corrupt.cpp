// C04: malformed messages neither end the fusion node nor get into its
// estimate. Half of the runs compare a run with unusable measurements against
// the same run without them, the other half throws everything at the node and
// asks it to follow valid inputs afterwards.
#include "lib/ekf_sim.hpp"

using namespace sim;

namespace
{

double weird(Rng & r, bool finite)
{
  static const std::vector<double> f{0, -0.0, 1e-320, 1e-30, 1, -1, 3.5, 1e6, -1e6, 1e30, -1e30,
    1e60, -1e60, 6.28, 1e15};
  static const std::vector<double> n{NAN, INFINITY, -INFINITY};
  return finite || r.chance(0.5) ? r.pick(f) : r.pick(n);
}

builtin_interfaces::msg::Time weird_stamp(Rng & r, i64 now)
{
  builtin_interfaces::msg::Time t = stamp_of(now);
  switch (r.below(7)) {
    case 0: t.sec = 0; t.nanosec = 0; break;
    case 1: t.sec = -1; break;
    case 2: t.sec = INT32_MIN; t.nanosec = 999999999; break;
    case 3: t.sec = INT32_MAX; t.nanosec = 999999999; break;
    case 4: t.nanosec = 4294967295u; break;
    case 5: t = stamp_of(now + 3600000000000LL); break;
    default: break;
  }
  return t;
}

std::string weird_frame(Rng & r)
{
  static const std::vector<std::string> f{"", "/", "map", "/map", "base_link", "%s%s%s%s%n%n%n",
    "%d %x %p %f", "{} {0} {:d}", "//map", "%1000000d", "\xff\xfe\x01", "no such frame"};
  return r.chance(0.05) ? std::string(20000, '%') : r.pick(f);
}

// a message that cannot be used by anyone
void spoil(PoseMsg & m, Rng & r, int how)
{
  auto & p = m.pose.pose;
  const std::vector<double> bad{NAN, INFINITY, -INFINITY};
  switch (how % 6) {
    case 0: p.position.x = r.pick(bad); break;
    case 1: p.position.y = r.pick(bad); p.position.z = r.pick(bad); break;
    case 2: set_quat(p.orientation, {0, 0, 0, 0}); break;
    case 3: p.orientation.z = r.pick(bad); break;
    case 4:
      for (auto & c : m.pose.covariance) {
        c = r.pick(bad);
      }
      break;
    case 5:
      for (int i = 0; i < 6; ++i) {
        m.pose.covariance[7 * i] = -std::abs(m.pose.covariance[7 * i]) - 0.01;
      }
      break;
  }
}

void spoil(TwistMsg & m, Rng & r, int how)
{
  const std::vector<double> bad{NAN, INFINITY, -INFINITY};
  switch (how % 4) {
    case 0: m.twist.twist.linear.x = r.pick(bad); break;
    case 1: m.twist.twist.angular.z = r.pick(bad); break;
    case 2:
      for (auto & c : m.twist.covariance) {
        c = r.pick(bad);
      }
      break;
    case 3:
      for (int i = 0; i < 6; ++i) {
        m.twist.covariance[7 * i] = -std::abs(m.twist.covariance[7 * i]) - 0.01;
      }
      break;
  }
}

class C04 : public Check
{
public:
  std::string id() const override {return "C04";}
  std::string rule() const override
  {
    return "one run = one drive with malformed messages mixed in; non-trivial: at least three "
           "malformed messages were taken by the node while it was running";
  }
  std::string real_components() const override
  {
    return "ekf_localizer node with its main function, kalman_filter, lib, rotationlib";
  }
  std::string stub_components() const override
  {
    return "rclcpp, tf2 and message types (simulated; stamps and times convert and throw as in "
           "rclcpp), sensors";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"finite magnitudes are drawn up to 1e60: products of state and covariance entries stay "
      "representable",
      "unusable for certain: non-finite position, orientation, velocity or covariance, a null "
      "quaternion, negative variances; other oddities must only leave the node alive, its output "
      "finite, and able to follow after a valid initial pose"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"corrupt_pose_taken", "corrupt_twist_taken", "corrupt_init_taken", "compared_ticks",
      "recovered", "weird_stamp", "weird_frame"};
  }
  u64 quick_runs() const override {return 7000;}
  u64 thorough_runs() const override {return 250000;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    EkfCfg c = random_ekf_cfg(r, 8);
    const bool chaos = r.chance(0.6);
    if (chaos) {
      c.pose_gate = c.twist_gate = 10000;
    }
    c.store(p);
    EkfScenario s = EkfScenario::random(r, c, thorough);
    s.outlier = 0;
    if (!chaos) {
      s.init_at = r.uniform(0, 0.3);
      s.reinits = 0;
    }
    generate_ekf(p, r, c, s);
    p.cfg["chaos"] = chaos;
    p.cfg["exec"] = 0;
    if (!chaos) {
      p.cfg["fifo"] = 1;
    }
    const i64 end = static_cast<i64>(s.seconds * 1e9);
    const int n = static_cast<int>(r.range(1, chaos ? 25 : 20));
    for (int k = 0; k < n; ++k) {
      const double what = r.uniform();
      const std::string kind = chaos && what < 0.15 ? "badinit" : (what < 0.6 ? "badpose" : "badtwist");
      Op o{r.range(0, end), kind, {static_cast<double>(r.below(1u << 30)),
          static_cast<double>(r.below(12)), 1, 0}, ""};
      p.ops.push_back(o);
      if (r.chance(0.2)) {
        for (int j = 0; j < 3; ++j) {      // a burst of them
          o.t += 1000;
          o.a[0] = static_cast<double>(r.below(1u << 30));
          p.ops.push_back(o);
        }
      }
    }
    std::stable_sort(
      p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    return p;
  }

  // one world; corrupt messages are sent only if asked for
  void simulate(
    World & w, const Plan & plan, bool with_corrupt,
    std::vector<std::shared_ptr<const OdomMsg>> & out)
  {
    EkfSim s(w, plan);
    const bool chaos = plan.get("chaos") != 0;
    std::set<const void *> corrupt;
    u64 sent = 0;
    auto may_send = [&](const std::string & topic) {
        if (chaos) {
          return true;
        }
        // it must not push a valid message out of a full queue
        if (s.open || s.stalled_until >= w.now) {
          return false;
        }
        for (auto * q : rclcpp::mw().topics[topic].subs) {
          if (!q->queue.empty()) {
            return false;
          }
        }
        return true;
      };
    s.other_op = [&](const Op & op) {
        if (!with_corrupt) {
          return true;
        }
        Rng r(static_cast<u64>(op.a[0]) * 53 + 17);
        const i64 now = s.epoch + op.t;
        s.deliveries(op, 2);
        ++sent;
        if (op.kind == "badpose" || op.kind == "badinit") {
          const char * topic = op.kind == "badpose" ? "/in_pose_with_covariance" : "/initialpose";
          if (!may_send(topic)) {
            w.count("skipped");
            return true;
          }
          PoseMsg m = noisy_pose(s.truth.at(op.t / 1e9), r, std::max<i64>(0, now), s.cfg.frame, false);
          if (!chaos) {
            spoil(m, r, static_cast<int>(op.a[1]));
          } else {
            if (r.chance(0.3)) {
              spoil(m, r, static_cast<int>(r.below(6)));
            }
            if (r.chance(0.3)) {
              m.header.stamp = weird_stamp(r, now);
              w.count("weird_stamp");
            }
            if (r.chance(op.kind == "badinit" ? 0.15 : 0.3)) {
              m.header.frame_id = weird_frame(r);
              w.count("weird_frame");
            }
            if (r.chance(0.3)) {
              double * v[7] = {&m.pose.pose.position.x, &m.pose.pose.position.y,
                &m.pose.pose.position.z, &m.pose.pose.orientation.w, &m.pose.pose.orientation.x,
                &m.pose.pose.orientation.y, &m.pose.pose.orientation.z};
              *v[r.below(7)] = weird(r, false);
            }
            for (int k = static_cast<int>(r.below(4)); k > 0; --k) {
              m.pose.covariance[r.chance(0.6) ? 7 * r.below(6) : r.below(36)] = weird(r, false);
            }
            if (r.chance(0.15)) {
              m.pose.covariance.fill(r.chance(0.7) ? 0 : weird(r, true));
            }
          }
          w.count(op.kind == "badpose" ? "corrupt_pose_taken" : "corrupt_init_taken");
          rclcpp::mw().inject(topic, m, "sensors");
        } else {
          if (!may_send("/in_twist_with_covariance")) {
            w.count("skipped");
            return true;
          }
          TwistMsg m = noisy_twist(s.truth.at(op.t / 1e9), r, std::max<i64>(0, now), false);
          if (!chaos) {
            spoil(m, r, static_cast<int>(op.a[1]));
          } else {
            if (r.chance(0.3)) {
              spoil(m, r, static_cast<int>(r.below(4)));
            }
            if (r.chance(0.3)) {
              m.header.stamp = weird_stamp(r, now);
              w.count("weird_stamp");
            }
            if (r.chance(0.3)) {
              m.header.frame_id = weird_frame(r);
              w.count("weird_frame");
            }
            if (r.chance(0.3)) {
              (r.chance(0.5) ? m.twist.twist.linear.x : m.twist.twist.angular.z) = weird(r, false);
            }
            for (int k = static_cast<int>(r.below(4)); k > 0; --k) {
              m.twist.covariance[r.chance(0.6) ? (r.chance(0.5) ? 0 : 35) : r.below(36)] =
                weird(r, false);
            }
            if (r.chance(0.15)) {
              m.twist.covariance.fill(r.chance(0.7) ? 0 : weird(r, true));
            }
          }
          w.count("corrupt_twist_taken");
          rclcpp::mw().inject("/in_twist_with_covariance", m, "sensors");
        }
        return true;
      };
    s.on_rec = [&](const EkfRec & e) {
        for (const auto & od : e.odom) {
          if (!finite_odom(*od)) {
            w.fail("non-finite", "the published odometry contains non-finite values");
            return;
          }
          const auto & q = od->pose.pose.orientation;
          if (std::abs(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z - 1) > 1e-6) {
            w.fail("quaternion", "the published orientation is not a unit quaternion");
            return;
          }
          out.push_back(od);
        }
        for (const auto & t : e.tf) {
          const auto & v = t.transform.translation;
          const auto & q = t.transform.rotation;
          for (double d : {v.x, v.y, v.z, q.w, q.x, q.y, q.z}) {
            if (!std::isfinite(d)) {
              w.fail("non-finite", "the published transform contains non-finite values");
              return;
            }
          }
        }
      };
    s.run();
    if (!w.stop && s.terminated()) {
      w.fail("terminated", s.proc->exit_error.empty() ? "the node ended" : s.proc->exit_error);
    }
    if (w.stop || !with_corrupt || !chaos) {
      return;
    }
    // valid inputs only from here on
    rclcpp::mw().timer_jitter = nullptr;
    rclcpp::mw().exec_time = nullptr;
    if (s.proc->clock_offset != s.epoch) {
      s.proc->clock_offset = std::max(s.proc->clock_offset, s.epoch);
    }
    // clock steps backwards in the plan, and lookups of odd frames, must have passed
    w.run_until(w.now + 20000000000LL + 6000000000LL * std::count_if(plan.ops.begin(), plan.ops.end(),
      [](const Op & o) {return o.kind == "badinit";}));
    if (w.stop) {
      return;
    }
    const double t0 = w.now / 1e9;
    TruthState home;
    home.x = 12;
    home.y = -7;
    home.yaw = 2.9;
    home.z = 1.5;
    home.roll = 0.03;
    home.pitch = -0.02;
    home.v = 2;
    home.w = 0.4;
    auto where = [&](double t) {
        TruthState q = home;
        q.yaw = home.yaw + home.w * (t - t0);
        q.x = home.x + home.v / home.w * (std::sin(q.yaw) - std::sin(home.yaw));
        q.y = home.y - home.v / home.w * (std::cos(q.yaw) - std::cos(home.yaw));
        return q;
      };
    const double var[6] = {0.25, 0.25, 0.04, 0.01, 0.01, 0.03};
    s.next_delays = {0};
    rclcpp::mw().inject(
      "/initialpose", pose_msg(where(t0), s.proc->clock_now(), s.cfg.frame, var), "sensors");
    w.run_until(w.now + 400000000LL);
    for (int k = 0; k < 80 && !w.stop; ++k) {
      const double t = w.now / 1e9;
      s.next_delays = {0};
      Rng r = keyed(plan.seed, 0xF11, k);
      TwistMsg tw = noisy_twist(where(t), r, s.proc->clock_now(), false);
      tw.twist.twist.linear.x = home.v + 0.02 * r.normal();
      tw.twist.twist.angular.z = home.w + 0.01 * r.normal();
      rclcpp::mw().inject("/in_twist_with_covariance", tw, "sensors");
      if (k % 2 == 0) {
        const double v2[6] = {0.01, 0.01, 0.01, 0.001, 0.001, 0.001};
        rclcpp::mw().inject(
          "/in_pose_with_covariance", pose_msg(where(t), s.proc->clock_now(), s.cfg.frame, v2),
          "sensors");
      }
      w.run_until(w.now + 50000000LL);
    }
    if (w.stop) {
      return;
    }
    if (s.terminated()) {
      w.fail("terminated", s.proc->exit_error.empty() ? "the node ended" : s.proc->exit_error);
      return;
    }
    if (out.empty()) {
      w.fail("no-recovery", "no output after a valid initial pose");
      return;
    }
    const OdomMsg & o = *out.back();
    const double age = (s.proc->clock_now() - ns_of(o.header.stamp)) / 1e9;
    if (age > 2.5 / s.cfg.freq + 1e-3) {
      w.fail("no-recovery", fmt("the last output is %.3f s old", age));
      return;
    }
    const TruthState q = where(w.now / 1e9 - age);
    double ro, pi, ya;
    to_rpy(quat_of(o.pose.pose.orientation), ro, pi, ya);
    const double err = std::hypot(o.pose.pose.position.x - q.x, o.pose.pose.position.y - q.y);
    if (!(err < 1.0) || !(std::abs(wrap(ya - q.yaw)) < 0.3) ||
      !(std::abs(o.pose.pose.position.z - q.z) < 0.5) || !(std::abs(ro - q.roll) < 0.1) ||
      !(std::abs(pi - q.pitch) < 0.1))
    {
      w.fail(
        "no-recovery", fmt("4 s after a valid initial pose: %.3f m, %.3f rad, height %.3f m, roll "
        "%.3f, pitch %.3f off", err, wrap(ya - q.yaw), o.pose.pose.position.z - q.z, ro - q.roll,
        pi - q.pitch));
      return;
    }
    w.count("recovered");
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    std::vector<std::shared_ptr<const OdomMsg>> a, b;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    if (plan.get("chaos") == 0) {
      World clean(plan.seed);
      clean.fifo = true;
      simulate(clean, plan, false, a);
      o.sim_seconds += clean.now / 1e9;
      if (!clean.violations.empty()) {
        w.fail("without-corruption-" + clean.violations[0].cls, clean.violations[0].detail);
      }
      set_world(&w);
    }
    if (!w.stop) {
      simulate(w, plan, true, b);
    }
    if (!w.stop && plan.get("chaos") == 0) {
      if (a.size() != b.size()) {
        w.fail("not-ignored", fmt("%zu outputs with and %zu without unusable measurements",
          b.size(), a.size()));
      }
      for (size_t i = 0; i < a.size() && !w.stop; ++i) {
        const std::string d = differs(*b[i], *a[i], 1e-9);
        if (!d.empty() || ns_of(a[i]->header.stamp) != ns_of(b[i]->header.stamp)) {
          w.fail(
            "not-ignored", fmt("with unusable measurements, output %zu: %s than without", i,
            d.empty() ? "other stamp" : d.c_str()));
        }
        w.count("compared_ticks");
      }
    }
    o.nontrivial = w.stats["corrupt_pose_taken"] + w.stats["corrupt_twist_taken"] +
      w.stats["corrupt_init_taken"] >= 3 && b.size() > 3;
    o.state_hash = w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C04 c;
  return harness_main(argc, argv, c);
}
