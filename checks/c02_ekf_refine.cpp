// C02: what the fusion node publishes, tick by tick, against an executable
// model of the documented estimator fed with the messages the node took.
#include "lib/ekf_sim.hpp"

using namespace sim;

namespace
{

class C02 : public Check
{
public:
  std::string id() const override {return "C02";}
  std::string rule() const override
  {
    return "one run = one parameter set, one drive and one schedule of initial poses, pose and "
           "twist messages under faults; non-trivial: at least 10 ticks were compared and at "
           "least one pose and one late measurement were fused";
  }
  std::string real_components() const override
  {
    return "ekf_localizer node with its main function, kalman_filter, lib, rotationlib";
  }
  std::string stub_components() const override
  {
    return "rclcpp, tf2 and message types (simulated), sensors";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"measurements are well formed (malformed ones: C04)",
      "comparison stops at a tick whose delay or gate decision is within rounding of its boundary",
      "a pose measurement bears on the heading state without bias, the published heading adds it"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"fused", "late", "older_than_window", "gated", "before_start", "tick_compared",
      "fault_loss", "fault_duplicate", "fault_delay", "fault_stall", "fault_clock_back",
      "fault_clock_forward", "reinit", "tick_refused", "seam"};
  }
  u64 quick_runs() const override {return 4000;}
  u64 thorough_runs() const override {return 120000;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    EkfCfg c = random_ekf_cfg(r, r.chance(0.03) ? 50 : (r.chance(0.3) ? 16 : 8));
    if (r.chance(0.03)) {
      c.N = static_cast<int>(r.range(1, 2));
    }
    c.store(p);
    generate_ekf(p, r, c, EkfScenario::random(r, c, thorough));
    if (r.chance(0.15)) {
      p.cfg["epoch"] = 1700000000;
    }
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    EkfSim s(w, plan);
    ShadowedModel model(s.cfg, s.epoch);
    u64 compared = 0;
    s.on_rec = [&](const EkfRec & e) {
        if (model.ambiguous) {
          return;
        }
        switch (e.kind) {
          case EkfRec::INIT:
            if (model.alive) {
              w.count("reinit");
            }
            model.init(*e.pose);
            break;
          case EkfRec::POSE:
            model.pose(e.pose);
            break;
          case EkfRec::TWIST:
            model.twist(e.twist);
            break;
          case EkfRec::TICK:
            {
              const bool expect = model.tick(e.clock);
              if (model.ambiguous) {
                w.count("ambiguous");
                w.note("ambiguous: %s", model.why.c_str());
                return;
              }
              if (!expect) {
                if (!e.odom.empty() || !e.tf.empty()) {
                  w.fail("unexpected-output", "published on a tick on which there is nothing to say");
                }
                return;
              }
              if (e.odom.size() != 1 || e.tf.size() != 1) {
                w.fail(
                  "output-count", fmt("%zu odometry messages and %zu transforms on one tick",
                  e.odom.size(), e.tf.size()));
                return;
              }
              const OdomMsg want = model_odom(model, e.clock);
              const OdomMsg & got = *e.odom[0];
              if (got.header.frame_id != want.header.frame_id ||
                got.child_frame_id != want.child_frame_id)
              {
                w.fail("frame", "odometry from " + got.header.frame_id + " to " + got.child_frame_id);
                return;
              }
              const std::string d = differs(got, want, model.tolerance());
              if (!d.empty()) {
                w.fail("estimate", fmt("tick %d after the start: %s", model.since, d.c_str()));
                return;
              }
              const std::string t = tf_differs(e.tf[0], got);
              if (!t.empty()) {
                w.fail("transform", t);
                return;
              }
              ++compared;
              if (model.grain > 0) {
                w.count("tick_of_today");
              }
            }
        }
      };
    s.run();
    if (s.terminated() && w.violations.empty()) {
      w.fail("terminated", s.proc->exit_error.empty() ? "the node ended" : s.proc->exit_error);
    }
    for (const auto & [k, v] : model.n) {
      w.count(k, v);
    }
    w.count("tick_compared", compared);
    o.nontrivial = compared >= 10 && model.n["fused"] > 0 && model.n["late"] > 0;
    o.state_hash = w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C02 c;
  return harness_main(argc, argv, c);
}
