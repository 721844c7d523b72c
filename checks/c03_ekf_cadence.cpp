// C03: when the fusion node publishes, how much, and with which stamps, under
// clock faults, stalls, crashes and every kind of traffic.
#include "lib/ekf_sim.hpp"

using namespace sim;

namespace
{

class C03 : public Check
{
public:
  std::string id() const override {return "C03";}
  std::string rule() const override
  {
    return "one run = one parameter set, clock behaviour and schedule of messages and faults "
           "followed by a quiet tail; non-trivial: at least one disturbance of clock, timer or "
           "process happened after output had begun, and output resumed";
  }
  std::string real_components() const override
  {
    return "ekf_localizer node with its main function, kalman_filter, lib, rotationlib";
  }
  std::string stub_components() const override
  {
    return "rclcpp (executor, timers, clock), tf2 and message types (simulated), sensors";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"the process gets the processor again once a stall ends",
      "clock differences below a microsecond count as no difference",
      "waiting for the transform of an initial pose is a disturbance of bounded length (10 s)"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"published", "fault_stall", "fault_clock_back", "fault_clock_forward", "fault_crash",
      "fault_clock_drift", "clock_moves_within_callback", "tick_before_init", "tick_suppressed",
      "init_unknown_frame", "init_unusable", "tail_ok", "timer_periods_skipped"};
  }
  u64 quick_runs() const override {return 20000;}
  u64 thorough_runs() const override {return 600000;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    const EkfCfg c = random_ekf_cfg(r, 6);
    c.store(p);
    EkfScenario s = EkfScenario::random(r, c, thorough);
    s.stalls = r.chance(0.5);
    s.clock_faults = r.chance(0.6);
    s.pose_hz = 5;
    s.twist_hz = 10;
    generate_ekf(p, r, c, s);
    p.cfg["epoch"] = r.pick(std::vector<double>{1, 100, 5000, 1600000000, 1700000000});
    p.cfg["drift"] = r.chance(0.3) ? r.uniform(0.9, 1.1) : 1;
    p.cfg["tick_ns"] = r.chance(0.3) ? std::floor(r.uniform(1, 20000)) : 0;
    const i64 end = static_cast<i64>(s.seconds * 1e9);
    if (r.chance(0.4)) {
      // initial poses of no use
      for (int k = 0, n = static_cast<int>(r.range(1, 2)); k < n; ++k) {
        Op o{r.range(0, end), "init", {static_cast<double>(r.below(1u << 30)), 1, 0},
          r.chance(0.4) ? "nan" : "frame"};
        p.ops.push_back(o);
      }
    }
    if (r.chance(0.25)) {
      const i64 t = r.range(0, end), down = r.range(1, 800000000);
      p.ops.push_back({t, "crash", {static_cast<double>(down)}, ""});
      if (r.chance(0.8)) {
        p.ops.push_back({t + down + r.range(1, 300000000), "init",
            {static_cast<double>(r.below(1u << 30)), 1, 0}, ""});
      }
    }
    std::stable_sort(
      p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    p.cfg["tail"] = 1.5;
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    EkfSim s(w, plan);
    bool inited = false;
    std::optional<i64> last;           // clock of the last tick that had to publish
    i64 last_end = 0;
    std::vector<i64> outputs;          // world times
    std::vector<i64> ticks;
    u64 published = 0, inits = 0;
    s.make_init = [&](const Op & op) {
        Rng r(static_cast<u64>(op.a[0]) * 41 + 13);
        PoseMsg m = noisy_pose(
          s.truth.at(op.t / 1e9), r, std::max<i64>(0, s.epoch + op.t), s.cfg.frame, false);
        if (op.s == "nan") {
          m.pose.pose.position.x = NAN;
          m.pose.pose.position.y = NAN;
        } else if (op.s == "frame") {
          m.header.frame_id = "nowhere";
        }
        return m;
      };
    s.other_op = [&](const Op & op) {
        if (op.kind == "crash") {
          inited = false;
          last.reset();
          s.crash_and_restart(static_cast<i64>(op.a[0]));
          return true;
        }
        return false;
      };
    s.on_rec = [&](const EkfRec & e) {
        if (e.kind == EkfRec::INIT) {
          ++inits;
          const bool nan = !std::isfinite(e.pose->pose.pose.position.x);
          const bool frame = e.pose->header.frame_id == "nowhere";
          w.count(nan ? "init_unusable" : (frame ? "init_unknown_frame" : "init_usable"));
          if (!nan && !frame) {
            inited = true;
          }
          if (w.now - e.world > 10000000000LL) {
            w.fail("init-blocks", fmt("an initial pose blocked the node for %.1f s",
              (w.now - e.world) / 1e9));
            return;
          }
        }
        const bool tick = e.kind == EkfRec::TICK;
        if (tick) {
          ticks.push_back(e.world);
        }
        if (!tick || !inited) {
          if (!e.odom.empty() || !e.tf.empty()) {
            w.fail(
              tick ? "early-output" : "output-off-tick", fmt("%zu odometry messages, %zu transforms",
              e.odom.size(), e.tf.size()));
            return;
          }
          w.count(tick ? "tick_before_init" : "other_callbacks");
          return;
        }
        // differences below a microsecond are below the resolution of seconds as a double
        const bool back = last && e.clock < *last - 1000;
        const bool same = last && !back && e.clock <= std::max(*last, last_end) + 1000;
        const size_t a = e.odom.size(), b = e.tf.size();
        if (back && (a || b) && !(e.clock_end >= *last)) {
          w.fail("output-in-the-past", fmt("published at clock %.9f after %.9f", e.clock / 1e9, *last / 1e9));
          return;
        }
        if (!back && !same && (a != 1 || b != 1)) {
          w.fail(
            "output-count", fmt("%zu odometry messages and %zu transforms on a tick at clock %.9f "
            "(the one before: %.9f)", a, b, e.clock / 1e9, last ? *last / 1e9 : -1));
          return;
        }
        if (a != b || a > 1) {
          w.fail("output-count", fmt("%zu odometry messages, %zu transforms", a, b));
          return;
        }
        if (back) {
          w.count("tick_suppressed");
        }
        if (a == 1) {
          last_end = last ? std::max(last_end, e.clock_end) : e.clock_end;   // it read its clock in between
          last = last ? std::max(*last, e.clock) : e.clock;
          outputs.push_back(e.world);
          ++published;
          const OdomMsg & od = *e.odom[0];
          for (const i64 st : {ns_of(od.header.stamp), ns_of(e.tf[0].header.stamp)}) {
            if (st < e.clock || st > e.clock_end) {
              w.fail("stamp", fmt("stamped %.9f on a tick from %.9f to %.9f", st / 1e9,
                e.clock / 1e9, e.clock_end / 1e9));
              return;
            }
          }
          if (od.header.frame_id != s.cfg.frame || od.child_frame_id != "base_link") {
            w.fail("frame", "odometry from " + od.header.frame_id + " to " + od.child_frame_id);
            return;
          }
          TransformMsg t = e.tf[0];
          t.header.stamp = od.header.stamp;       // readings within one tick may differ
          const std::string d = tf_differs(t, od);
          if (!d.empty()) {
            w.fail("transform", d);
          }
        }
      };
    s.start();
    const double drift = plan.get("drift", 1);
    if (drift != 1) {
      w.count("fault_clock_drift");
      s.proc->clock_rate = drift;
    }
    const double tick_ns = plan.get("tick_ns");
    if (tick_ns > 0) {
      w.count("clock_moves_within_callback");
      rclcpp::mw().now_tick = [tick_ns] {return static_cast<i64>(tick_ns);};
    }
    w.run_until(static_cast<i64>(plan.get("seconds") * 1e9));
    // the disturbances end: what is still to come settles, then output must be regular
    const auto jitter = rclcpp::mw().timer_jitter;
    const auto exec = rclcpp::mw().exec_time;
    const i64 period = static_cast<i64>(std::llround(1e9 / s.cfg.freq));
    if (!w.stop) {
      const bool was_suppressed = last && s.proc->clock_now() <= *last;
      i64 settle = std::max<i64>(w.now, s.stalled_until) + 2 * period + 6000000000LL;
      if (last && s.proc->clock_now() < *last) {
        settle += static_cast<i64>((*last - s.proc->clock_now()) / std::min(1.0, drift)) + period;
      }
      rclcpp::mw().timer_jitter = nullptr;
      rclcpp::mw().exec_time = nullptr;
      rclcpp::mw().now_tick = nullptr;
      w.run_until(settle);
      // an initial pose that waits for its transform may still hold the node up
      for (u64 n = ~0ULL; !w.stop && (inits != n || s.busy_with_init()) && w.now < settle + 60000000000LL; ) {
        n = inits;
        w.run_until(w.now + 1000000000LL);
      }
      const i64 from = w.now;
      const i64 tail = static_cast<i64>(plan.get("tail") * 1e9) + 3 * period;
      w.run_until(from + tail);
      if (!w.stop && s.terminated()) {
        w.fail("terminated", s.proc->exit_error.empty() ? "the node ended" : s.proc->exit_error);
      }
      if (!w.stop && !s.proc->dead) {
        const auto & v = inited ? outputs : ticks;
        i64 prev = from - period;
        u64 n = 0;
        for (i64 t : v) {
          if (t < from) {
            continue;
          }
          ++n;
          if (n > 1 && std::llabs(t - prev - period) > 2000) {
            w.fail("irregular", fmt("%.6f s between two outputs of a timer with a period of %.6f s",
              (t - prev) / 1e9, period / 1e9));
            break;
          }
          prev = t;
        }
        if (!w.stop && n + 1 < static_cast<u64>(tail / period)) {
          w.fail(
            "silent", fmt("%llu of %lld expected outputs after the disturbances (started: %d)",
            (unsigned long long)n, (long long)(tail / period), inited));
        }
        if (!w.stop) {
          w.count("tail_ok");
          w.count(was_suppressed ? "resumed_after_suppression" : "resumed");
        }
      }
    }
    w.count("published", published);
    const bool disturbed = w.stats["fault_stall"] + w.stats["fault_clock_back"] +
      w.stats["fault_clock_forward"] + w.stats["fault_crash"] + w.stats["timer_jitter"] > 0;
    o.nontrivial = published > 5 && disturbed;
    o.state_hash = w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C03 c;
  return harness_main(argc, argv, c);
}
