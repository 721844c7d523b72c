// C14: the path generator's published paths against the history of poses it
// took, and what viewers that join late, stall or restart get to see.
#include <cstring>

#include <nav_msgs/msg/path.hpp>

#include "lib/faults.hpp"
#include "lib/msgs.hpp"

#include "path_generator/path_generator.hpp"

SIM_MAIN(path_generator)

using namespace sim;

namespace
{

using Path = nav_msgs::msg::Path;
using PoseCov = geometry_msgs::msg::PoseWithCovarianceStamped;
using Pose = geometry_msgs::msg::PoseStamped;

bool same_bits(double a, double b) {return memcmp(&a, &b, sizeof(a)) == 0 || (a != a && b != b);}

std::string differs(const Pose & a, const Pose & b)
{
  if (ns_of(a.header.stamp) != ns_of(b.header.stamp)) {
    return fmt("stamp %.9f instead of %.9f", ns_of(a.header.stamp) / 1e9,
             ns_of(b.header.stamp) / 1e9);
  }
  if (a.header.frame_id != b.header.frame_id) {
    return "frame " + a.header.frame_id + " instead of " + b.header.frame_id;
  }
  const auto & p = a.pose, & q = b.pose;
  if (!same_bits(p.position.x, q.position.x) || !same_bits(p.position.y, q.position.y) ||
    !same_bits(p.position.z, q.position.z) || !same_bits(p.orientation.x, q.orientation.x) ||
    !same_bits(p.orientation.y, q.orientation.y) || !same_bits(p.orientation.z, q.orientation.z) ||
    !same_bits(p.orientation.w, q.orientation.w))
  {
    return fmt("pose (%.9g, %.9g, %.9g) instead of (%.9g, %.9g, %.9g) or another orientation",
             p.position.x, p.position.y, p.position.z, q.position.x, q.position.y, q.position.z);
  }
  return "";
}

std::string differs(const Path & got, const std::vector<Pose> & want)
{
  if (got.poses.size() != want.size()) {
    return fmt("%zu poses instead of %zu", got.poses.size(), want.size());
  }
  for (size_t i = 0; i < want.size(); ++i) {
    const std::string d = differs(got.poses[i], want[i]);
    if (!d.empty()) {
      return fmt("pose %zu of %zu: ", i + 1, want.size()) + d;
    }
  }
  if (!want.empty()) {
    if (ns_of(got.header.stamp) != ns_of(want.back().header.stamp) ||
      got.header.frame_id != want.back().header.frame_id)
    {
      return "the header is not that of the latest pose";
    }
  }
  return "";
}

template<typename Node>
int run_variant()
{
  if constexpr (std::is_constructible_v<Node, std::string, std::string>) {
    rclcpp::init(0, static_cast<char **>(nullptr));
    rclcpp::spin(std::make_shared<Node>("path", "pose"));
    rclcpp::shutdown();
    return 0;
  } else {
    return run_main_path_generator();
  }
}

struct Viewer
{
  Process * proc = nullptr;
  i64 joined = 0;
  i64 delay = 0;
  bool late_durable = false;
  bool overflowed = false;
  std::shared_ptr<const Path> last;
  i64 last_at = 0;
  u64 n = 0;
};

class C14 : public Check
{
public:
  std::string id() const override {return "C14";}
  std::string rule() const override
  {
    return "one run = one stream of poses with its message faults, node stalls and restarts and "
           "viewers joining; non-trivial: at least 5 poses were taken and a viewer joined late";
  }
  std::string real_components() const override
  {
    return "path_generator node with its main function (and its PoseStamped variant)";
  }
  std::string stub_components() const override
  {
    return "rclcpp and message types (simulated), pose source, viewers";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"viewers that subscribe reliably and transient local count as viewers that may join "
      "at any time; the middleware keeps as many samples for them as the publisher's depth says"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"fault_loss", "fault_duplicate", "fault_delay", "fault_stall", "fault_crash",
      "late_joiner", "join_before_first", "reordered", "path_checked", "viewer_restart"};
  }
  u64 quick_runs() const override {return 150000;}
  u64 thorough_runs() const override {return 4000000;}
  std::vector<std::string> shrinkable() const override {return {"exec"};}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    p.cfg["variant"] = r.below(4) == 0;
    p.cfg["exec"] = r.chance(0.5) ? 0 : r.uniform(0, 0.3);
    const bool marathon = r.chance(0.001);
    const int n = static_cast<int>(
      marathon ? r.range(300, thorough ? 12000 : 3000) : r.range(1, thorough ? 120 : 50));
    p.cfg["epoch"] = r.pick(std::vector<double>{1, 1700000000, 2100000000});
    const Faults f = Faults::random(r, 2.0);
    const double period = r.pick(std::vector<double>{0.02, 0.1, 0.5});
    double t = 0.05;
    for (int i = 0; i < n; ++i) {
      t += period * (r.chance(0.2) ? 0 : r.uniform(0.5, 1.5));
      Op o;
      o.t = static_cast<i64>(t * 1e9);
      o.kind = "pose";
      o.a = {static_cast<double>(i), static_cast<double>(r.below(1000000))};
      f.add(o, r);
      p.ops.push_back(o);
    }
    const double end = t;
    const int nv = static_cast<int>(r.range(1, 4));
    for (int i = 0; i < nv; ++i) {
      Op o;
      o.t = static_cast<i64>(r.uniform(0, end * 1.2) * 1e9);
      o.kind = "join";
      o.a = {static_cast<double>(i), r.chance(0.5) ? 0.0 : r.uniform(0, 0.2) * 1e9,
        static_cast<double>(r.chance(0.85)), static_cast<double>(1 + r.below(10))};
      p.ops.push_back(o);
      if (r.chance(0.3)) {
        Op k = o;
        k.kind = "rejoin";
        k.t += static_cast<i64>(r.uniform(0, end) * 1e9);
        p.ops.push_back(k);
      }
    }
    for (int i = static_cast<int>(r.below(3)); i > 0; --i) {
      Op o;
      o.t = static_cast<i64>(r.uniform(0, end) * 1e9);
      o.kind = r.chance(0.5) ? "stall" : "crash";
      o.a = {r.uniform(0.01, 3) * 1e9};
      p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    p.cfg["seconds"] = std::max(end, p.ops.back().t / 1e9) + 12;
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    auto & m = rclcpp::mw();
    const bool variant = plan.get("variant") != 0;
    Process * node = nullptr;
    std::vector<Pose> taken;            // by this incarnation
    u64 in_path = 0, total = 0, late = 0;
    std::map<u64, i64> delivered;       // of this incarnation, not yet taken
    std::shared_ptr<const Path> current;
    i64 current_at = 0;
    bool open = false;
    u64 published_now = 0;
    i64 stalled_until = 0;
    std::map<int, Viewer> viewers;
    std::vector<i64> next;
    i64 last_stamp = INT64_MIN;

    auto spawn = [&] {
        const i64 offset = static_cast<i64>(plan.get("epoch", 1)) * 1000000000LL;
        node = w.spawn(
          "path", [variant] {
            return variant ? run_variant<FromPose>() : run_main_path_generator();
          }, [offset](Process & p) {p.clock_offset = offset;});
        taken.clear();
        delivered.clear();
        current = nullptr;
        open = false;
        stalled_until = 0;
        last_stamp = INT64_MIN;
        // what viewers hold is from an earlier life of the node
        for (auto & [i, v] : viewers) {
          v.last = nullptr;
        }
      };
    auto join = [&](const Op & op) {
        const int i = static_cast<int>(op.a[0]);
        Viewer & v = viewers[i];
        if (v.proc && !v.proc->dead) {
          w.kill(v.proc);
          w.count("viewer_restart");
        }
        v = Viewer();
        v.joined = w.now;
        v.delay = static_cast<i64>(op.a[1]);
        v.late_durable = op.a[2] != 0;
        const size_t depth = static_cast<size_t>(op.a[3]);
        const bool durable = v.late_durable;
        w.count(current ? "late_joiner" : "join_before_first");
        if (current) {
          ++late;
        }
        v.proc = w.spawn(
          fmt("viewer%d", i), [depth, durable] {
            rclcpp::init(0, static_cast<char **>(nullptr));
            auto n = std::make_shared<rclcpp::Node>("viewer");
            rclcpp::QoS q(depth);
            q.reliable();
            if (durable) {
              q.transient_local();
            }
            auto s = n->create_subscription<Path>("path", q, [](const Path::ConstSharedPtr) {});
            rclcpp::spin(n);
            return 0;
          });
      };
    m.network = [&](const rclcpp::Link & l, const rclcpp::AnyMsg & msg) -> std::vector<i64> {
        if (l.topic == "/pose" && l.dst == "path") {
          const u64 id = static_cast<u64>(
            variant ? rclcpp::as<Pose>(msg).pose.position.x :
            rclcpp::as<PoseCov>(msg).pose.pose.position.x);
          Process * p = node;
          for (i64 d : next) {
            w.after(
              d, [&, id, p] {
                if (p == node && !node->dead) {
                  delivered[id] += 1;
                }
              });
          }
          return next;
        }
        for (auto & [i, v] : viewers) {
          if (v.proc && l.dst == v.proc->name) {
            return {v.delay};
          }
        }
        return {0};
      };
    m.on_take = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        if (s.proc == node && s.topic == "/pose") {
          Pose p;
          if (variant) {
            p = rclcpp::as<Pose>(msg);
          } else {
            p.header = rclcpp::as<PoseCov>(msg).header;
            p.pose = rclcpp::as<PoseCov>(msg).pose.pose;
          }
          taken.push_back(p);
          if (ns_of(p.header.stamp) < last_stamp) {
            w.count("reordered");
          }
          last_stamp = ns_of(p.header.stamp);
          const u64 id = static_cast<u64>(p.pose.position.x);
          delivered[id] -= 1;
          ++total;
          open = true;
          published_now = 0;
          w.note("take %llu", (unsigned long long)id);
          return;
        }
        for (auto & [i, v] : viewers) {
          if (s.proc == v.proc && s.topic == "/path") {
            v.last = std::make_shared<const Path>(rclcpp::as<Path>(msg));
            v.last_at = w.now;
            ++v.n;
            w.note("viewer %d sees %zu", i, v.last->poses.size());
          }
        }
      };
    m.on_overflow = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg &) {
        if (s.proc == node) {
          w.fail("dropped", "a pose that had arrived was dropped before the node read it");
        }
      };
    m.on_done = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg &) {
        if (s.proc == node && s.topic == "/pose") {
          open = false;
          if (published_now != 1 && !w.stop) {
            w.fail("path-count", fmt("%llu paths published for one pose",
              (unsigned long long)published_now));
          }
        }
      };
    m.on_publish = [&](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.proc != node || p.type != typeid(Path)) {
          return;
        }
        const Path & path = rclcpp::as<Path>(msg);
        if (p.topic != "/path") {
          w.fail("topic", "a path was published on " + p.topic);
          return;
        }
        if (!open) {
          w.fail("stray-output", "a path was published without a pose");
          return;
        }
        ++published_now;
        current = std::make_shared<const Path>(path);
        current_at = w.now;
        const std::string d = differs(path, taken);
        if (!d.empty()) {
          w.fail("path", d);
          return;
        }
        w.count("path_checked");
        if (taken.size() > 1000) {
          w.count("path_over_1000");
        }
        ++in_path;
      };
    const double ex = plan.get("exec");
    m.exec_time = [&, k = u64(0)](Process * p, const std::string &) mutable {
        std::pair<i64, i64> d{0, 0};
        if (p == node) {
          if (ex > 0) {
            Rng r = keyed(plan.seed, 0xE8EC, k++);
            d.first = static_cast<i64>(r.uniform(0, ex) * 1e9);
          }
          if (stalled_until > w.now) {
            d.first += stalled_until - w.now;
          }
        }
        return d;
      };

    spawn();
    for (const auto & op : plan.ops) {
      w.at(
        op.t, [&, op] {
          if (w.stop) {
            return;
          }
          if (op.kind == "pose") {
            Rng r(static_cast<u64>(op.a[1]) * 977 + 3);
            PoseCov pc;
            pc.header.stamp = stamp_of(
              static_cast<i64>(plan.get("epoch", 1)) * 1000000000LL + op.t -
              static_cast<i64>(r.chance(0.1) ? r.uniform(0, 3) * 1e9 : 0) % (900000000LL + op.t));
            pc.header.frame_id = r.chance(0.85) ? "map" : fmt("f%d", (int)r.below(3));
            pc.pose.pose.position.x = op.a[0];
            pc.pose.pose.position.y = r.chance(0.05) ? NAN : r.normal() * 100;
            pc.pose.pose.position.z = r.normal();
            set_quat(pc.pose.pose.orientation, from_rpy(r.normal(), 0.1, r.normal()));
            next = Faults::deliveries(w, op, 2);
            if (variant) {
              Pose p;
              p.header = pc.header;
              p.pose = pc.pose.pose;
              m.inject("/pose", p, "source");
            } else {
              m.inject("/pose", pc, "source");
            }
          } else if (op.kind == "join" || op.kind == "rejoin") {
            join(op);
          } else if (op.kind == "stall") {
            w.count("fault_stall");
            stalled_until = std::max(stalled_until, w.now + static_cast<i64>(op.a[0]));
          } else if (op.kind == "crash") {
            if (!node->dead) {
              w.count("fault_crash");
              w.kill(node);
              w.after(static_cast<i64>(op.a[0]), [&] {if (node->dead) {spawn();}});
            }
          }
        });
    }
    w.run_until(static_cast<i64>(plan.get("seconds") * 1e9));
    // pending work may take long when the node is slow
    for (int i = 0; i < 400 && !w.stop; ++i) {
      bool pending = false;
      for (const auto & [k, c] : delivered) {
        pending = pending || c > 0;
      }
      if (!pending) {
        break;
      }
      w.run_until(w.now + 1000000000LL);
    }
    w.run_until(w.now + 1000000000LL);
    if ((node->dead || node->exited) && !w.stop) {
      w.fail("terminated", node->exit_error.empty() ? "the node ended" : node->exit_error);
    }
    if (!w.stop) {
      for (const auto & [k, c] : delivered) {
        if (c > 0) {
          w.fail("lost", fmt("pose %llu arrived but was never read", (unsigned long long)k));
          break;
        }
      }
    }
    if (!w.stop && current) {
      for (const auto & [i, v] : viewers) {
        if (!v.proc || !(v.late_durable || v.joined < current_at)) {
          continue;
        }
        if (!v.last) {
          if (v.late_durable || v.joined < current_at) {
            w.fail("viewer", fmt("viewer %d, who joined at %.3f s, never saw the path", i,
              v.joined / 1e9));
          }
          break;
        }
        const std::string d = differs(*v.last, taken);
        if (!d.empty()) {
          w.fail("viewer", fmt("viewer %d, who joined at %.3f s, was left with another path: %s", i,
            v.joined / 1e9, d.c_str()));
          break;
        }
      }
    }
    o.nontrivial = total >= 5 && late > 0;
    o.state_hash = w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C14 c;
  return harness_main(argc, argv, c);
}
