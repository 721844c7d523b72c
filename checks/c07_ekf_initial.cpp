// C07: initial poses in every kind of frame, while transforms appear, change
// and get lost.
//
// What the node has heard about transforms is mirrored in a second buffer; the
// reference model restarts at the initial pose carried into the map frame by
// it. Where the node may have seen either of two transforms, each is followed
// as a hypothesis, and one must go on to agree with everything published.
#include "lib/ekf_sim.hpp"

#include <tf2/buffer_core.h>

using namespace sim;

namespace
{

struct Rigid
{
  Quat q;
  double t[3] = {0, 0, 0};
  bool operator==(const Rigid & o) const
  {
    return q.w == o.q.w && q.x == o.q.x && q.y == o.q.y && q.z == o.q.z && t[0] == o.t[0] &&
           t[1] == o.t[1] && t[2] == o.t[2];
  }
};

class C07 : public Check
{
public:
  std::string id() const override {return "C07";}
  std::string rule() const override
  {
    return "one run = one set of transforms with their faults and one schedule of initial poses "
           "in various frames; non-trivial: at least two initial poses were taken, at least one "
           "of them not in the map frame, and at least 10 ticks were compared";
  }
  std::string real_components() const override
  {
    return "ekf_localizer node with its main function and transform listener wrapper, "
           "kalman_filter, lib, rotationlib";
  }
  std::string stub_components() const override
  {
    return "rclcpp, tf2 buffer, listener and message types (simulated), sensors, transform sources";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"initial poses in other frames have isotropic position and orientation covariances, "
      "for which rotating the covariance or keeping it is the same",
      "a transform is known to the node once its listener has taken it; one that arrives while "
      "the node waits for it may or may not be used",
      "roll and pitch of transforms and poses stay below 0.5 rad"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"init_map", "init_transformed", "init_unknown", "init_base_link", "tick_compared",
      "tf_static_late", "tf_dynamic", "tf_invalid", "reinit", "fault_tf_loss", "fault_tf_delay",
      "fault_crash", "slash", "unknown_while_running"};
  }
  u64 quick_runs() const override {return 15000;}
  u64 thorough_runs() const override {return 1000000;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    EkfCfg c = random_ekf_cfg(r, 8);
    c.pose_gate = c.twist_gate = 10000;
    c.store(p);
    EkfScenario s = EkfScenario::random(r, c, thorough);
    s.outlier = 0;
    s.clock_faults = r.chance(0.1);
    s.pose_hz = r.pick(std::vector<double>{0.3, 2, 10});
    s.twist_hz = r.pick(std::vector<double>{0.3, 5, 20});
    s.seconds = r.uniform(2, thorough ? 16 : 9);
    generate_ekf(p, r, c, s);
    const i64 end = static_cast<i64>(s.seconds * 1e9);
    // further initial poses
    for (int k = 0, n = static_cast<int>(r.range(1, 4)); k < n; ++k) {
      const std::vector<std::string> frames{"MAP", "/MAP", "odom", "odom", "sensor", "gnss", "gnss",
        "/gnss", "raft", "nowhere", "", "/", "base_link", "island"};
      Op o{r.range(0, end), "init", {static_cast<double>(r.below(1u << 30)), 1, 0}, r.pick(frames)};
      p.ops.push_back(o);
    }
    auto tf = [&](i64 t, const std::string & what) {
        Op o{t, "tf", {static_cast<double>(r.below(1u << 30))}, what};
        int copies = 1;
        if (s.faults && r.chance(0.15)) {
          copies = 0;
        } else if (s.faults && r.chance(0.1)) {
          copies = 2;
        }
        o.a.push_back(copies);
        for (int i = 0; i < copies; ++i) {
          o.a.push_back(r.chance(0.6) ? 0 : static_cast<double>(r.range(0, r.chance(0.2) ? 2000000000 : 20000000)));
        }
        p.ops.push_back(o);
      };
    if (r.chance(0.8)) {
      tf(r.chance(0.4) ? 0 : r.range(0, end), "static gnss");
    }
    if (r.chance(0.8)) {
      tf(r.chance(0.5) ? 0 : r.range(0, end), "static sensor");
    }
    if (r.chance(0.3)) {
      tf(r.range(0, end), "static gnss");         // somewhere else from now on
    }
    if (r.chance(0.6)) {
      tf(r.range(0, end / 2), "static raft");
    }
    if (r.chance(0.8)) {
      i64 t = r.range(0, end / 2);
      const i64 stop = r.range(t, end);
      while (t < stop) {
        tf(t, "odom");
        t += static_cast<i64>(r.uniform(0.02, 0.6) * 1e9);
      }
    }
    if (r.chance(0.3)) {
      tf(r.range(0, end), "reparent");
    }
    if (r.chance(0.4)) {
      tf(r.range(0, end), "invalid");
    }
    if (r.chance(0.1)) {
      p.ops.push_back({r.range(0, end), "crash", {static_cast<double>(r.range(1, 800000000))}, ""});
    }
    std::stable_sort(
      p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    return p;
  }

  static TransformMsg tf_msg(const std::string & parent, const std::string & child, i64 stamp, Rng r)
  {
    TransformMsg m;
    m.header.frame_id = parent;
    m.child_frame_id = child;
    m.header.stamp = stamp_of(std::max<i64>(1, stamp));
    m.transform.translation.x = r.uniform(-40, 40);
    m.transform.translation.y = r.uniform(-40, 40);
    m.transform.translation.z = r.uniform(-5, 5);
    const double tilt = r.chance(0.5) ? 0 : 0.2;
    set_quat(
      m.transform.rotation,
      from_rpy(r.uniform(-tilt, tilt), r.uniform(-tilt, tilt), r.uniform(-M_PI, M_PI)));
    return m;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    EkfSim s(w, plan);
    const std::string map = s.cfg.frame;
    std::vector<i64> tf_delays{0};
    s.other_net = [&](const rclcpp::Link & l) {
        return l.src == "tf" && l.dst == "ekf" ? tf_delays : std::vector<i64>{0};
      };
    s.make_init = [&](const Op & op) {
        Rng r(static_cast<u64>(op.a[0]) * 41 + 13);
        PoseMsg m = noisy_pose(s.truth.at(op.t / 1e9), r, s.epoch + op.t, map, false);
        if (!op.s.empty()) {
          m.header.frame_id = op.s == "MAP" ? map : (op.s == "/MAP" ? "/" + map : op.s);
          const double cp = r.uniform(1e-4, 4), cr = r.uniform(1e-5, 0.1);
          m.pose.covariance.fill(0);
          for (int i = 0; i < 6; ++i) {
            m.pose.covariance[7 * i] = i < 3 ? cp : cr;
          }
          if (op.s == "base_link") {
            m.pose.pose.position.x = r.uniform(-3, 3);
            m.pose.pose.position.y = r.uniform(-3, 3);
            m.pose.pose.position.z = r.uniform(-1, 1);
          }
        }
        return m;
      };
    std::shared_ptr<tf2::BufferCore> mirror;
    std::vector<std::shared_ptr<ShadowedModel>> models;
    auto reset = [&] {
        mirror = std::make_shared<tf2::BufferCore>();
        models.assign(1, std::make_shared<ShadowedModel>(s.cfg));
      };
    reset();
    u64 compared = 0, inits = 0, other = 0;
    std::vector<std::optional<Rigid>> candidates;
    std::string asked;
    auto look = [&] {
        std::string f = asked;
        std::string m = map;
        if (!f.empty() && f[0] == '/') {
          f = f.substr(1);
        }
        std::optional<Rigid> c;
        try {
          const TransformMsg t = mirror->lookupTransform(m, f, tf2::TimePointZero);
          Rigid g;
          g.q = quat_of(t.transform.rotation);
          g.t[0] = t.transform.translation.x;
          g.t[1] = t.transform.translation.y;
          g.t[2] = t.transform.translation.z;
          c = g;
        } catch (const tf2::TransformException &) {
        }
        for (const auto & k : candidates) {
          if (k.has_value() == c.has_value() && (!c || *k == *c)) {
            return;
          }
        }
        candidates.push_back(c);
      };
    auto carried = [&](const PoseMsg & m, const Rigid & g) {
        PoseMsg n = m;
        n.header.frame_id = map;
        double R[3][3];
        rotation(g.q, R);
        const double v[3] = {m.pose.pose.position.x, m.pose.pose.position.y, m.pose.pose.position.z};
        double u[3];
        for (int i = 0; i < 3; ++i) {
          u[i] = g.t[i];
          for (int j = 0; j < 3; ++j) {
            u[i] += R[i][j] * v[j];
          }
        }
        n.pose.pose.position.x = u[0];
        n.pose.pose.position.y = u[1];
        n.pose.pose.position.z = u[2];
        set_quat(n.pose.pose.orientation, qmul(g.q, quat_of(m.pose.pose.orientation)));
        return n;
      };
    s.other_op = [&](const Op & op) {
        if (op.kind == "crash") {
          s.crash_and_restart(static_cast<i64>(op.a[0]));
          reset();
          return true;
        }
        Rng r(static_cast<u64>(op.a[0]) * 7 + 3);
        const i64 stamp = s.epoch + op.t;
        tf_delays.clear();
        for (size_t i = 2; i < op.a.size(); ++i) {
          tf_delays.push_back(static_cast<i64>(op.a[i]));
          if (op.a[i] > 20000000) {
            w.count("fault_tf_delay");
          }
        }
        if (tf_delays.empty()) {
          w.count("fault_tf_loss");
        }
        TfMsg m;
        const bool fixed = op.s.rfind("static ", 0) == 0;
        if (op.s == "static gnss") {
          m.transforms.push_back(tf_msg(map, "gnss", stamp, r));
        } else if (op.s == "static sensor") {
          m.transforms.push_back(tf_msg("odom", "sensor", stamp, r));
        } else if (op.s == "static raft") {
          m.transforms.push_back(tf_msg("island", "raft", stamp, r));
        } else if (op.s == "reparent") {
          m.transforms.push_back(tf_msg("gnss", "odom", stamp, r));
        } else if (op.s == "invalid") {
          m.transforms.push_back(tf_msg(map, "gnss", stamp, r));
          if (r.chance(0.5)) {
            m.transforms[0].transform.rotation.w = NAN;
          } else {
            m.transforms[0].transform.rotation.w += 3;
          }
          w.count("tf_invalid");
        } else {
          m.transforms.push_back(tf_msg(r.chance(0.9) ? map : "/" + map, "odom", stamp, r));
          w.count("tf_dynamic");
        }
        if (fixed && op.t > 0) {
          w.count("tf_static_late");
        }
        rclcpp::QoS q(100);
        if (fixed) {
          q.transient_local();
        }
        rclcpp::mw().inject(fixed ? "/tf_static" : "/tf", m, "tf", q);
        return true;
      };
    s.on_rec = [&](const EkfRec & e) {
        switch (e.kind) {
          case EkfRec::INIT:
            {
              look();
              ++inits;
              const bool in_map = e.pose->header.frame_id == map ||
                e.pose->header.frame_id == "/" + map;
              if (!in_map) {
                ++other;
              }
              if (e.pose->header.frame_id.size() > 1 && e.pose->header.frame_id[0] == '/') {
                w.count("slash");
              }
              bool known = false;
              for (const auto & c : candidates) {
                known = known || c;
              }
              w.count(in_map ? "init_map" : (known ? "init_transformed" : "init_unknown"));
              if (e.pose->header.frame_id == "base_link" && known) {
                w.count("init_base_link");
              }
              if (!known && models[0]->alive) {
                w.count("unknown_while_running");
              }
              std::vector<std::shared_ptr<ShadowedModel>> next;
              for (const auto & m : models) {
                if (m->alive && known) {
                  w.count("reinit");
                }
                for (const auto & c : candidates) {
                  auto n = std::make_shared<ShadowedModel>(*m);
                  if (c) {
                    n->init(carried(*e.pose, *c));
                  }
                  next.push_back(n);
                }
              }
              if (next.size() > 8) {
                next.resize(8);
                for (auto & m : next) {
                  m->ambiguous = true;
                }
              }
              models = next;
              w.note("initial pose from '%s': %zu hypotheses", e.pose->header.frame_id.c_str(),
                models.size());
              return;
            }
          case EkfRec::POSE:
            for (auto & m : models) {
              m->pose(e.pose);
            }
            return;
          case EkfRec::TWIST:
            for (auto & m : models) {
              m->twist(e.twist);
            }
            return;
          case EkfRec::TICK:
            break;
        }
        std::vector<std::shared_ptr<ShadowedModel>> left;
        std::string why;
        for (auto & m : models) {
          const bool expect = m->tick(e.clock);
          if (m->ambiguous) {
            left.push_back(m);
            continue;
          }
          if (!expect) {
            if (e.odom.empty() && e.tf.empty()) {
              left.push_back(m);
            } else {
              why = "published before it was initialised";
            }
            continue;
          }
          if (e.odom.size() != 1 || e.tf.size() != 1) {
            why = fmt("%zu odometry messages and %zu transforms on one tick", e.odom.size(), e.tf.size());
            continue;
          }
          const std::string d = differs(*e.odom[0], model_odom(*m, e.clock), 2e-6);
          if (!d.empty()) {
            why = fmt("tick %d after the start: ", m->since) + d;
            continue;
          }
          left.push_back(m);
          ++compared;
        }
        if (left.empty()) {
          w.fail("initial-pose", why);
          return;
        }
        models = left;
        if (!e.tf.empty()) {
          const std::string t = e.odom.size() == 1 && e.tf.size() == 1 ?
            tf_differs(e.tf[0], *e.odom[0]) : "";
          if (!t.empty()) {
            w.fail("transform", t);
          }
        }
      };
    s.start();
    auto & mw = rclcpp::mw();
    auto take = mw.on_take;
    mw.on_take = [&, take](rclcpp::SubBase & sub, const rclcpp::AnyMsg & msg) {
        take(sub, msg);
        if (sub.proc != s.proc) {
          return;
        }
        if (sub.type == typeid(TfMsg)) {
          for (const auto & t : rclcpp::as<TfMsg>(msg).transforms) {
            mirror->setTransform(t, "mirror", sub.topic == "/tf_static");
          }
          if (s.busy_with_init()) {
            look();
          }
        } else if (sub.topic == "/initialpose") {
          candidates.clear();
          asked = rclcpp::as<PoseMsg>(msg).header.frame_id;
          look();
        }
      };
    w.run_until(static_cast<i64>(plan.get("seconds") * 1e9));
    if (!w.stop && (s.proc->exited || (s.terminated() && !w.stats["fault_crash"]))) {
      w.fail("terminated", s.proc->exit_error.empty() ? "the node ended" : s.proc->exit_error);
    }
    w.count("tick_compared", compared);
    o.nontrivial = inits >= 2 && other >= 1 && compared >= 10;
    o.state_hash = w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C07 c;
  return harness_main(argc, argv, c);
}
