// C11: the localization node in a known room, fed with scans and priors of any
// content under message faults, stalls and crashes; each estimate against what a
// freshly started node answers to that pair and that prior.
#include <sys/stat.h>
#include <unistd.h>

#include "lib/clouds.hpp"
#include "lib/faults.hpp"
#include "lib/msgs.hpp"
#include "lib/scene.hpp"

SIM_MAIN(localization)

using namespace sim;

namespace
{

using Estimate = geometry_msgs::msg::PoseWithCovarianceStamped;
using PoseMsg = geometry_msgs::msg::PoseStamped;
using Odom = nav_msgs::msg::Odometry;
using Tf = tf2_msgs::msg::TFMessage;

const char * const SCANS[] = {"good", "no_edges", "no_surfaces", "nothing", "nan_points",
  "one_place", "huge", "single_point", "garbage", "no_z", "one_wall", "double_fields"};
const char * const PRIORS[] = {"near", "far", "nan", "zero_rotation", "infinite", "non_unit",
  "negative_stamp", "any_rotation", "huge"};

struct Prior
{
  i64 stamp = 0;
  int kind = 0;
  bool odom = false, usable = true;
  u64 order = 0;
  geometry_msgs::msg::Pose pose;
};

struct Answer
{
  bool given = false;
  geometry_msgs::msg::Pose pose;
};

bool usable(const geometry_msgs::msg::Pose & p)
{
  const auto & o = p.orientation;
  const double n = o.w * o.w + o.x * o.x + o.y * o.y + o.z * o.z;
  return std::isfinite(p.position.x) && std::isfinite(p.position.y) &&
         std::isfinite(p.position.z) && std::abs(std::sqrt(n) - 1) < 1e-3;
}

double apart(const geometry_msgs::msg::Pose & a, const geometry_msgs::msg::Pose & b)
{
  // the two signs of a quaternion are one rotation
  const double g = a.orientation.w * b.orientation.w + a.orientation.x * b.orientation.x +
    a.orientation.y * b.orientation.y + a.orientation.z * b.orientation.z < 0 ? -1 : 1;
  const double e[7] = {a.position.x - b.position.x, a.position.y - b.position.y,
    a.position.z - b.position.z, a.orientation.w - g * b.orientation.w,
    a.orientation.x - g * b.orientation.x, a.orientation.y - g * b.orientation.y,
    a.orientation.z - g * b.orientation.z};
  double m = 0;
  for (double x : e) {
    if (!(std::abs(x) <= m)) {
      m = std::abs(x);
    }
  }
  return m;
}

void prior_message(const Prior & p, PoseMsg & m)
{
  m.header.stamp = stamp_of(p.stamp);
  m.header.frame_id = "map";
  m.pose = p.pose;
}
void prior_message(const Prior & p, Odom & m)
{
  m.header.stamp = stamp_of(p.stamp);
  m.header.frame_id = "map";
  m.child_frame_id = "base_link";
  m.pose.pose = p.pose;
}

// What a node started afresh answers to one prior and one pair.
Answer fresh(u64 seed, const Prior & prior, const CloudMsg & edge, const CloudMsg & surface)
{
  Answer a;
  World * old = W();
  {
    World w(seed);
    set_world(&w);
    w.fifo = true;
    auto & m = rclcpp::mw();
    m.on_publish = [&](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.topic == "/estimated_pose" && p.type == typeid(Estimate)) {
          a.given = true;
          a.pose = rclcpp::as<Estimate>(msg).pose.pose;
        }
      };
    w.spawn("fresh", [] {return run_main_localization();});
    w.run_until(1000000);
    if (prior.odom) {
      Odom q;
      prior_message(prior, q);
      m.inject("/optimization_start_odom", q, "ref", rclcpp::QoS(10).reliable());
    } else {
      PoseMsg q;
      prior_message(prior, q);
      m.inject("/optimization_start_pose", q, "ref", rclcpp::QoS(10).reliable());
    }
    w.run_until(2000000);
    m.inject("/scan_edge", edge, "ref", rclcpp::QoS(10).reliable());
    m.inject("/scan_surface", surface, "ref", rclcpp::QoS(10).reliable());
    w.run_until(3000000);
    w.finish();
    m.on_publish = nullptr;
    for (const auto & v : w.violations) {
      old->fail("fresh-" + v.cls, v.detail);
    }
  }
  set_world(old);
  return a;
}

struct Pair
{
  i64 stamp = 0;
  bool required = false;      // complete also for a synchroniser with ten places
  std::shared_ptr<const CloudMsg> edge, surface;
  std::vector<Prior> certain;
  std::vector<Prior> possible;
  std::vector<Estimate> estimates;
  std::vector<geometry_msgs::msg::TransformStamped> transforms;
  i64 newest = INT64_MIN;     // newest stamp processed before
};

struct Pairing
{
  struct Slot
  {
    std::shared_ptr<const CloudMsg> edge, surface;
  };
  std::map<i64, Slot> slots;
  size_t limit = 0;
  u64 dropped = 0, overflow = 0;
  bool add(i64 s, const std::shared_ptr<const CloudMsg> & m, bool edge, Slot & out)
  {
    Slot & x = slots[s];
    (edge ? x.edge : x.surface) = m;
    bool full = false;
    if (x.edge && x.surface) {
      out = x;
      full = true;
      slots.erase(s);
      while (!slots.empty() && slots.begin()->first <= s) {
        slots.erase(slots.begin());
        ++dropped;
      }
    }
    while (limit && slots.size() > limit) {
      slots.erase(slots.begin());
      ++overflow;
    }
    return full;
  }
};

class C11 : public Check
{
public:
  std::string id() const override {return "C11";}
  std::string rule() const override
  {
    return "one run = one drive in one room (scans and priors with their stamps, contents, fates "
           "and delays) and one schedule; non-trivial: at least two pairs were estimated and one "
           "scan stayed without partner or one prior was not the nearest";
  }
  std::string real_components() const override
  {
    return "localization application with its main, lib, rotationlib, PCL reader and filters, "
           "nanoflann, Eigen, real map files";
  }
  std::string stub_components() const override
  {
    return "rclcpp, message_filters (ExactTime reimplemented), transform broadcaster, message types";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"the synchroniser gives up incomplete pairs older than a complete one, and keeps at "
      "most ten, as message_filters does",
      "two priors less than a microsecond apart in distance to a scan count as equally near",
      "a prior more than a second older than a scan already processed may have been forgotten",
      "scan messages are consistent with their declared layout and their stamps are not negative"};
  }
  std::vector<std::string> required_probes() const override
  {
    std::vector<std::string> v{"estimated", "compared", "no_prior", "no_partner", "several_priors",
      "older_prior", "newer_prior", "accurate", "dropped_older", "replaced_prior", "fault_loss",
      "fault_duplicate", "fault_delay", "fault_stall", "fault_crash", "late_pair", "old_scan",
      "forgotten_possible", "unconstrained", "slots_overflow", "near_stamp"};
    for (const char * s : SCANS) {
      v.push_back(std::string("scan_") + s);
    }
    for (const char * s : PRIORS) {
      v.push_back(std::string("prior_") + s);
    }
    return v;
  }
  u64 quick_runs() const override {return 20000;}
  u64 thorough_runs() const override {return 500000;}

  // edge, surface: stamp, seed, kind, true time, deliveries
  // prior: stamp, seed, kind, odometry?, true time, deliveries
  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    const Faults f = Faults::random(r, r.chance(0.5) ? 0.3 : 2.5);
    p.cfg["scene"] = static_cast<double>(r.below(6));
    p.cfg["exec"] = r.chance(0.6) ? 0 : r.uniform(0, 0.1);
    p.cfg["base"] = r.pick(std::vector<double>{2, 1700000000, 1700000000});   // seconds
    const int n = static_cast<int>(r.range(1, thorough ? 25 : 10));
    const double period = r.pick(std::vector<double>{0.05, 0.1, 0.1, 0.5, 1.5});
    const double odd_scans = r.pick(std::vector<double>{0, 0.2, 0.6});
    const double odd_priors = r.pick(std::vector<double>{0, 0.2, 0.6});
    const double first_prior = r.chance(0.7) ? -1 : r.uniform(0, 1);
    auto ns = [](double s) {return static_cast<double>(static_cast<i64>(s * 1e9));};
    auto op = [&](const char * kind, double t, std::vector<double> a) {
        Op o;
        o.kind = kind;
        o.t = static_cast<i64>(t * 1e9);
        o.a = std::move(a);
        f.add(o, r);
        p.ops.push_back(o);
      };
    double t = 0.5;
    const double T = n * period;
    for (int i = 0; i < n; ++i) {
      t += r.chance(0.05) ? 0 : period * r.uniform(0.6, 1.4);
      double stamp = t + (r.chance(0.1) ? r.uniform(-2, 1) : 0);
      const double odd = r.chance(odd_scans) ? static_cast<double>(r.range(1, 11)) : 0;
      const double s = static_cast<double>(r.below(100000));
      const double off = r.chance(0.05) ? (r.chance(0.5) ? 1 : -1) : 0;    // one nanosecond
      if (r.chance(0.93)) {
        op("edge", t, {ns(stamp), s, odd, t});
      }
      if (r.chance(0.93)) {
        op("surface", t + (r.chance(0.8) ? 0.0005 : r.uniform(-0.3, 1) * period),
          {ns(stamp) + off, s + 1, odd, t});
      }
      if (r.chance(0.04)) {
        op(r.chance(0.5) ? "edge" : "surface", t + r.uniform(0, 3) * period, {ns(stamp), s + 2, 0, t});
      }
    }
    if (r.chance(0.15)) {
      // many scans of which only one half arrives
      const double at = r.uniform(0.5, 0.5 + T);
      const int m = static_cast<int>(r.range(8, 16));
      const bool e = r.chance(0.5);
      for (int i = 0; i < m; ++i) {
        op(e ? "edge" : "surface", at + 0.002 * i, {ns(at + 0.002 * i), 5.0 + i, 0, at});
      }
      for (int i = 0; i < m; ++i) {
        if (r.chance(0.3)) {
          op(e ? "surface" : "edge", at + 0.1 + 0.01 * i, {ns(at + 0.002 * i), 6.0 + i, 0, at});
        }
      }
    }
    const int k = static_cast<int>(r.range(1, 2 * n + 1));
    for (int i = 0; i < k; ++i) {
      const double at = (i == 0 ? (first_prior < 0 ? 0.4 : 0.5 + first_prior * T) :
        0.5 + r.uniform(std::max(0.0, first_prior), 1) * (T + 0.5));
      const double stamp = std::max(0.01, at + (r.chance(0.6) ? r.uniform(-0.1, 0.05) : r.uniform(-3, 2)));
      const double odd = r.chance(odd_priors) ? static_cast<double>(r.range(1, 8)) : 0;
      op("prior", at, {ns(stamp), static_cast<double>(r.below(100000)), odd,
          static_cast<double>(r.chance(0.7)), at});
      if (r.chance(0.08)) {
        op("prior", at + 0.01, {ns(stamp), static_cast<double>(r.below(100000)), 0,
            static_cast<double>(r.chance(0.5)), at});
      }
    }
    if (r.chance(0.04)) {
      // a fast source: many priors for one scan
      const double from = 0.5 + r.uniform(std::max(0.0, first_prior), 1) * T;
      const double step = r.pick(std::vector<double>{0.001, 0.005, 0.01});
      const int m = static_cast<int>(r.range(60, r.chance(0.1) ? 1500 : 400));
      for (int i = 0; i < m; ++i) {
        op("prior", from + step * i, {ns(from + step * i), static_cast<double>(r.below(100000)), 0, 1,
            from + step * i});
      }
    }
    for (int i = static_cast<int>(r.below(3)); i > 0 && r.chance(0.5); --i) {
      Op o;
      o.t = static_cast<i64>(r.uniform(0.3, 0.5 + T) * 1e9);
      o.kind = r.chance(0.7) ? "stall" : "crash";
      o.a = {r.uniform(0.01, 1) * 1e9};
      p.ops.push_back(o);
    }
    p.cfg["end"] = 0.5 + T + 10;
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    return p;
  }
  std::vector<std::string> shrinkable() const override {return {"exec", "scene"};}

  static RawCloud scan(const Scene & sc, const Op & o, bool edge)
  {
    const u64 s = static_cast<u64>(o.a[1]);
    const int kind = static_cast<int>(o.a[2]);
    const Pose6 at = sc.truth(o.a[3]);
    RawCloud c = edge ? sc.edge_scan(at, 20, s) : sc.surface_scan(at, 45, s);
    Rng r(s * 1009 + 17);
    switch (kind) {
      case 1: if (edge) {c.points.clear();} break;
      case 2: if (!edge) {c.points.clear();} break;
      case 3: c.points.clear(); break;
      case 4:
        for (auto & p : c.points) {
          if (r.chance(0.2)) {
            p[r.below(3)] = r.chance(0.7) ? NAN : INFINITY;
          }
        }
        c.dense = r.chance(0.5);
        break;
      case 5: for (auto & p : c.points) {p = c.points[0];} break;
      case 6:
        for (auto & p : c.points) {
          if (r.chance(0.5)) {
            p[r.below(3)] = r.pick(std::vector<double>{1e5, -1e9, 1e20, 3e38});
          }
        }
        break;
      case 7: c.points.resize(1); break;
      case 8:
        for (auto & p : c.points) {
          for (int k = 0; k < 3; ++k) {
            p[k] = static_cast<double>(static_cast<float>(r.normal() * r.pick(std::vector<double>{1, 10, 1000})));
          }
        }
        break;
      case 9: c.fields[2].name = "depth"; break;
      case 10:
        c.points.clear();
        {
          std::vector<V3> p;
          for (int i = 0; i < 30; ++i) {
            p.push_back({sc.x0, r.uniform(sc.y0 + 3, sc.y1 - 3), r.uniform(sc.floor + 2, sc.top - 1)});
          }
          c = Scene::sight(at, p);
        }
        break;
      case 11: c.fields[0].type = F_FLOAT64; break;
      default: break;
    }
    return c;
  }

  static Prior prior(const Scene & sc, const Op & o, i64 base)
  {
    Rng r(static_cast<u64>(o.a[1]) * 7919 + 3);
    Prior p;
    p.stamp = base + static_cast<i64>(o.a[0]);
    p.kind = static_cast<int>(o.a[2]);
    p.odom = o.a[3] != 0;
    const Pose6 at = sc.truth(o.a[0] / 1e9);
    auto & x = p.pose.position;
    x.x = at.t[0] + r.uniform(-0.2, 0.2);
    x.y = at.t[1] + r.uniform(-0.2, 0.2);
    x.z = at.t[2] + r.uniform(-0.1, 0.1);
    Quat q = qmul(at.q, from_rpy(r.uniform(-0.02, 0.02), r.uniform(-0.02, 0.02), r.uniform(-0.04, 0.04)));
    switch (p.kind) {
      case 1: x.x += r.normal() * 20; x.y += r.normal() * 20; break;
      case 2: (r.chance(0.5) ? x.y : q.z) = NAN; break;
      case 3: q = Quat{0, 0, 0, 0}; break;
      case 4: (r.chance(0.5) ? x.z : q.w) = r.chance(0.5) ? INFINITY : -INFINITY; break;
      case 5:
        {
          const double s = r.pick(std::vector<double>{2, 0.1, 1.01, 1e-3});
          q = Quat{q.w * s, q.x * s, q.y * s, q.z * s};
        }
        break;
      case 6: p.stamp = -1 - static_cast<i64>(r.below(3000000000ULL)); break;
      case 7: q = from_rpy(r.uniform(-3, 3), r.uniform(-1.5, 1.5), r.uniform(-3, 3)); break;
      case 8: x.x = r.pick(std::vector<double>{1e6, -1e12, 1e300}); break;
      default: break;
    }
    set_quat(p.pose.orientation, q);
    p.usable = usable(p.pose) && p.kind != 6;
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    auto & m = rclcpp::mw();
    const std::string dir = make_scratch_dir("c11");
    char old[4096];
    if (!getcwd(old, sizeof(old)) || chdir(dir.c_str()) != 0 || mkdir("maps", 0755) != 0) {
      abort();
    }
    const Scene sc = Scene::make(static_cast<u64>(plan.get("scene")), 0.7);
    write_file("maps/edge.pcd", pcd_text(sc.edge, 1));
    write_file("maps/surface.pcd", pcd_text(sc.surface, 1));
    const i64 base = static_cast<i64>(plan.get("base")) * 1000000000LL;

    Process * node = nullptr;
    i64 stalled_until = 0;
    std::vector<i64> next;
    bool finishing = false;
    u64 order = 0, estimated = 0, side = 0;
    std::map<std::pair<i64, u64>, int> kinds;

    // one life of the node
    struct Life
    {
      Pairing limited, unlimited;
      std::vector<Prior> priors;       // processed
      std::vector<Prior> taken;        // perhaps processed
      std::vector<Pair> pairs;
      i64 newest = INT64_MIN;
    };
    std::unique_ptr<Life> life;
    std::map<const void *, Prior> in_flight;
    std::vector<std::unique_ptr<Life>> past;

    m.network = [&](const rclcpp::Link & l, const rclcpp::AnyMsg &) {
        return l.dst == "localization" && l.src == "world" ? next : std::vector<i64>{0};
      };
    const double ex = plan.get("exec");
    m.exec_time = [&, k = u64(0)](Process *, const std::string &) mutable {
        std::pair<i64, i64> d{0, 0};
        if (ex > 0) {
          Rng r = keyed(plan.seed, 0xE8EC, k++);
          d.first = static_cast<i64>(r.uniform(0, ex) * 1e9);
          d.second = static_cast<i64>(r.uniform(0, ex) * 1e9);
        }
        if (stalled_until > w.now) {
          d.first += stalled_until - w.now;
        }
        return d;
      };
    auto decode = [&](const rclcpp::SubBase & s, const rclcpp::AnyMsg & msg, Prior & p) {
        if (s.type == typeid(Odom)) {
          const Odom & q = rclcpp::as<Odom>(msg);
          p.stamp = ns_of(q.header.stamp);
          p.pose = q.pose.pose;
          p.odom = true;
        } else if (s.type == typeid(PoseMsg)) {
          const PoseMsg & q = rclcpp::as<PoseMsg>(msg);
          p.stamp = ns_of(q.header.stamp);
          p.pose = q.pose;
          p.odom = false;
        } else {
          return false;
        }
        p.usable = usable(p.pose) && p.stamp >= 0;
        return true;
      };
    m.on_overflow = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg &) {
        w.count("fault_overflow");
        if (s.type == typeid(CloudMsg) && s.proc == node) {
          w.fail("scan-overflow", "the queue of " + s.topic + " lost a scan");
        }
      };
    m.on_take = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        if (s.proc != node || !life) {
          return;
        }
        Prior pr;
        if (s.type == typeid(CloudMsg)) {
          auto c = std::make_shared<const CloudMsg>(rclcpp::as<CloudMsg>(msg));
          const i64 stamp = ns_of(c->header.stamp);
          const bool edge = s.topic == "/scan_edge";
          w.note("take %s %lld", s.topic.c_str(), (long long)(stamp - base));
          auto & u = life->unlimited;
          if (u.slots.count(stamp + 1) || u.slots.count(stamp - 1)) {
            w.count("near_stamp");
          }
          Pairing::Slot a, b;
          const bool pl = life->limited.add(stamp, c, edge, a);
          const bool pu = u.add(stamp, c, edge, b);
          if (pl || pu) {
            Pair x;
            x.stamp = stamp;
            x.required = pl;
            x.edge = pl ? a.edge : b.edge;
            x.surface = pl ? a.surface : b.surface;
            x.certain = life->priors;
            x.possible = life->taken;
            x.newest = life->newest;
            if (stamp < life->newest) {
              w.count("late_pair");
            }
            life->newest = std::max(life->newest, stamp);
            life->pairs.push_back(x);
          }
        } else if (decode(s, msg, pr)) {
          pr.order = ++order;
          w.note("take prior %lld %s", (long long)(pr.stamp - base), pr.usable ? "" : "unusable");
          life->taken.push_back(pr);
        }
      };
    m.on_done = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        Prior pr;
        if (s.proc != node || !life || !decode(s, msg, pr)) {
          return;
        }
        // the oldest taken one that is this message
        for (size_t i = 0; i < life->taken.size(); ++i) {
          const Prior & x = life->taken[i];
          if (x.stamp == pr.stamp && x.odom == pr.odom && !(apart(x.pose, pr.pose) > 0)) {
            life->priors.push_back(x);
            life->taken.erase(life->taken.begin() + static_cast<long>(i));
            break;
          }
        }
      };
    m.on_publish = [&](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.proc != node || !life) {
          return;
        }
        if (p.type == typeid(Estimate)) {
          const Estimate & e = rclcpp::as<Estimate>(msg);
          const i64 stamp = ns_of(e.header.stamp);
          w.note("estimate %lld %.17g %.17g", (long long)(stamp - base), e.pose.pose.position.x,
            e.pose.pose.orientation.z);
          const auto & q = e.pose.pose.orientation;
          const double n = std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z);
          if (p.topic != "/estimated_pose") {
            w.fail("topic", "an estimate on " + p.topic);
          }
          if (e.header.frame_id != "map") {
            w.fail("frame", "an estimate in frame " + e.header.frame_id);
          }
          if (!usable(e.pose.pose) || std::abs(n - 1) > 1e-6) {
            w.fail("improper", fmt("the estimate of scan %lld is no pose: %g %g %g, rotation norm %g",
              (long long)(stamp - base), e.pose.pose.position.x, e.pose.pose.position.y,
              e.pose.pose.position.z, n));
          }
          for (int a = 0; a < 6; ++a) {
            for (int b = 0; b < 6; ++b) {
              const double c = e.pose.covariance[6 * a + b], d = e.pose.covariance[6 * b + a];
              if (!(std::abs(c - d) < 1e-12) || (a == b && !(c > 0))) {
                w.fail("covariance", fmt("the covariance at %d,%d is %g", a, b, c));
              }
            }
          }
          for (auto it = life->pairs.rbegin(); it != life->pairs.rend(); ++it) {
            if (it->stamp == stamp && it->estimates.empty()) {
              it->estimates.push_back(e);
              return;
            }
          }
          w.fail("unpaired", fmt("an estimate with stamp %lld, for which no new pair was complete",
            (long long)(stamp - base)));
        } else if (p.type == typeid(Tf)) {
          for (const auto & t : rclcpp::as<Tf>(msg).transforms) {
            const i64 stamp = ns_of(t.header.stamp);
            w.note("transform %lld", (long long)(stamp - base));
            if (p.topic != "/tf" || t.header.frame_id != "map" ||
              t.child_frame_id != "lidar_feature_base_link")
            {
              w.fail("transform-frame", p.topic + ": " + t.header.frame_id + " -> " + t.child_frame_id);
            }
            bool found = false;
            for (auto it = life->pairs.rbegin(); it != life->pairs.rend() && !found; ++it) {
              if (it->stamp == stamp && it->transforms.empty()) {
                it->transforms.push_back(t);
                found = true;
              }
            }
            if (!found) {
              w.fail("unpaired", fmt("a transform with stamp %lld, for which no new pair was complete",
                (long long)(stamp - base)));
            }
          }
        }
      };

    // everything a life has answered, checked when it has ended
    auto inspect = [&](Life & l, bool killed) {
        w.count("dropped_older", l.limited.dropped);
        w.count("slots_overflow", l.limited.overflow);
        w.count("no_partner", l.limited.slots.size());
        side += l.limited.slots.size() + l.limited.dropped;
        for (size_t i = 0; i < l.pairs.size() && !w.stop; ++i) {
          const Pair & x = l.pairs[i];
          const bool cut = killed && i + 1 == l.pairs.size();
          // priors that may have been used: candidates in the order of receipt
          std::vector<Prior> all;
          size_t n_certain = 0;
          for (const auto & p : x.certain) {
            if (p.usable) {
              all.push_back(p);
              ++n_certain;
            }
          }
          for (const auto & p : x.possible) {
            if (p.usable) {
              all.push_back(p);
            }
          }
          const long long st = static_cast<long long>(x.stamp - base);
          if (x.estimates.size() != x.transforms.size() && !cut) {
            w.fail("transform-missing", fmt("scan %lld: %zu estimates and %zu transforms", st,
              x.estimates.size(), x.transforms.size()));
            return;
          }
          if (all.empty()) {
            w.count("no_prior");
            if (!x.estimates.empty()) {
              w.fail("without-prior", fmt("scan %lld was estimated before any prior had arrived", st));
            }
            continue;
          }
          if (!x.estimates.empty() && !x.transforms.empty()) {
            const auto & e = x.estimates[0].pose.pose;
            geometry_msgs::msg::Pose t;
            t.position.x = x.transforms[0].transform.translation.x;
            t.position.y = x.transforms[0].transform.translation.y;
            t.position.z = x.transforms[0].transform.translation.z;
            t.orientation = x.transforms[0].transform.rotation;
            if (apart(e, t) > 1e-9) {
              w.fail("transform-differs", fmt("scan %lld: transform and estimate differ by %g", st,
                apart(e, t)));
              return;
            }
          }
          // which of them are near enough
          const i64 cutoff = x.newest == INT64_MIN ? INT64_MIN : x.newest - 1000000000LL;
          auto dist = [&](const Prior & p) {return std::llabs(p.stamp - x.stamp);};
          i64 best = INT64_MAX;
          bool any_kept = false;
          for (size_t k = 0; k < n_certain; ++k) {
            if (all[k].stamp >= cutoff) {
              best = std::min(best, static_cast<i64>(dist(all[k])));
              any_kept = true;
            }
          }
          std::vector<Prior> ok;
          for (size_t k = 0; k < all.size(); ++k) {
            if (dist(all[k]) > (best == INT64_MAX ? best : best + 1000)) {
              continue;
            }
            if (all[k].stamp < cutoff) {
              w.count("forgotten_possible");
            }
            bool replaced = false;
            for (size_t q = k + 1; q < n_certain; ++q) {
              replaced |= all[q].stamp == all[k].stamp;
            }
            if (replaced) {
              w.count("replaced_prior");
            } else {
              ok.push_back(all[k]);
            }
          }
          (void)any_kept;
          if (n_certain > 1) {
            w.count("several_priors");
          }
          side += n_certain > ok.size();
          // what a fresh node says to each of them
          bool match = false, may_be_silent = cut || !x.required || n_certain == 0;
          double closest = INFINITY;
          for (const auto & p : ok) {
            const Answer a = fresh(plan.seed, p, *x.edge, *x.surface);
            w.count("compared");
            if (!a.given) {
              may_be_silent = true;
              w.count("fresh_silent");
              continue;
            }
            if (x.estimates.empty()) {
              continue;
            }
            const double d = apart(a.pose, x.estimates[0].pose.pose);
            closest = std::min(closest, d);
            if (d <= 1e-9 * (1 + std::abs(a.pose.position.x) + std::abs(a.pose.position.y) +
              std::abs(a.pose.position.z)))
            {
              match = true;
              w.count(p.stamp < x.stamp ? "older_prior" : "newer_prior");
              accuracy(w, sc, x, p, base);
              break;
            }
          }
          if (x.estimates.empty()) {
            if (!may_be_silent || (ordinary(x, ok, sc, base) && !cut && x.required && n_certain)) {
              w.fail("no-estimate", fmt("scan %lld has a partner and a prior but got no estimate", st));
              return;
            }
            continue;
          }
          if (!match) {
            w.fail("not-fresh", fmt("the estimate for scan %lld differs by %g from what a fresh node "
              "answers to any of the %zu nearest priors (%zu received)", st, closest, ok.size(),
              all.size()));
            return;
          }
          ++estimated;
          w.count("estimated");
        }
      };
    auto end_life = [&](bool killed) {
        if (!life || w.stop) {
          return;
        }
        if (!node->exit_error.empty() || (!killed && !finishing && (node->exited || node->dead))) {
          w.fail("terminated", fmt("the node ended with status %d: %s", node->exit_code,
            node->exit_error.c_str()));
          return;
        }
        if (killed) {
          past.push_back(std::move(life));
        }
      };
    auto spawn = [&] {
        life = std::make_unique<Life>();
        life->limited.limit = 10;
        stalled_until = 0;
        node = w.spawn("localization", [] {return run_main_localization();});
      };
    spawn();

    auto perform = [&](const Op & op) {
        if (w.stop || finishing) {
          return;
        }
        if (op.kind == "edge" || op.kind == "surface") {
          const bool e = op.kind == "edge";
          next = Faults::deliveries(w, op, 4);
          const RawCloud c = scan(sc, op, e);
          w.count(std::string("scan_") + SCANS[static_cast<int>(op.a[2])]);
          if (op.a[0] / 1e9 < op.a[3] - 1) {
            w.count("old_scan");
          }
          m.inject(e ? "/scan_edge" : "/scan_surface", to_msg(c, base + static_cast<i64>(op.a[0]),
            "lidar_feature_base_link"), "world", rclcpp::QoS(10).reliable());
        } else if (op.kind == "prior") {
          next = Faults::deliveries(w, op, 5);
          const Prior p = prior(sc, op, base);
          w.count(std::string("prior_") + PRIORS[p.kind]);
          if (p.odom) {
            Odom q;
            prior_message(p, q);
            m.inject("/optimization_start_odom", q, "world", rclcpp::QoS(10).reliable());
          } else {
            PoseMsg q;
            prior_message(p, q);
            m.inject("/optimization_start_pose", q, "world", rclcpp::QoS(10).reliable());
          }
        } else if (op.kind == "stall") {
          w.count("fault_stall");
          stalled_until = w.now + static_cast<i64>(op.a[0]);
        } else if (op.kind == "crash") {
          if (node && !node->dead && !node->exited) {
            w.count("fault_crash");
            w.kill(node);
            end_life(true);
            w.after(static_cast<i64>(op.a[0]), [&] {if (!finishing) {spawn();}});
          }
        }
      };
    for (const auto & op : plan.ops) {
      w.at(op.t, [&perform, op] {perform(op);});
    }
    w.run_until(static_cast<i64>(plan.get("end") * 1e9));
    finishing = true;
    if (!w.stop && node && node->exit_error.empty() && !node->dead) {
      for (const char * t : {"/scan_edge", "/scan_surface", "/optimization_start_odom",
          "/optimization_start_pose"})
      {
        for (auto * s : m.topics[t].subs) {
          if (s->proc == node && !s->queue.empty() && plan.get("exec") == 0) {
            w.fail("not-taken", fmt("%zu messages on %s were never taken", s->queue.size(), t));
          }
        }
      }
    }
    if (!w.stop && life) {
      end_life(false);
    }
    if (!w.stop) {
      w.finish();
    }
    m.on_publish = nullptr;
    m.on_take = nullptr;
    for (auto & l : past) {
      if (!w.stop) {
        inspect(*l, true);
      }
    }
    if (!w.stop && life) {
      inspect(*life, false);
    }
    o.nontrivial = estimated >= 2 && side > 0;
    o.state_hash = mix(estimated * 131 + side, w.hash);
    collect(w, o);
    if (chdir(old) != 0) {
      abort();
    }
    remove_scratch_dir(dir);
    return o;
  }

  // a scan with enough of everything, and only priors near the truth
  static bool ordinary(const Pair & x, const std::vector<Prior> & ok, const Scene & sc, i64)
  {
    RawCloud e, s;
    if (ok.empty() || !from_msg(*x.edge, e) || !from_msg(*x.surface, s) || e.size() < 20 || s.size() < 45) {
      return false;
    }
    for (const RawCloud * c : {&e, &s}) {
      const int ix = c->index("x"), iy = c->index("y"), iz = c->index("z");
      if (ix < 0 || iy < 0 || iz < 0 || c->fields[ix].type != F_FLOAT32) {
        return false;
      }
      std::set<double> different;
      for (const auto & p : c->points) {
        different.insert(p[static_cast<size_t>(ix)]);
        if (!(std::abs(p[ix]) < 40 && std::abs(p[iy]) < 40 && std::abs(p[iz]) < 40)) {
          return false;
        }
      }
      if (different.size() < 6) {
        return false;
      }
    }
    for (const auto & p : ok) {
      const double n = std::sqrt(p.pose.orientation.w * p.pose.orientation.w +
          p.pose.orientation.z * p.pose.orientation.z);
      if (!(std::abs(p.pose.position.x - sc.cx()) < 15 && std::abs(p.pose.position.y - sc.cy()) < 15) ||
        !(std::abs(n - 1) < 0.01))
      {
        return false;
      }
    }
    return true;
  }

  // a scan of two places or less does not determine a pose: the prior is all there is
  void unconstrained(World & w, const Scene & sc, const Pair & x, const Prior & p, i64 base) const
  {
    std::set<std::vector<double>> places;
    for (const CloudMsg * m : {x.edge.get(), x.surface.get()}) {
      RawCloud c;
      from_msg(*m, c);
      const int ix = c.index("x"), iy = c.index("y"), iz = c.index("z");
      for (const auto & q : c.points) {
        if (ix < 0 || iy < 0 || iz < 0 || c.fields[ix].type != F_FLOAT32) {
          return;
        }
        places.insert({q[ix], q[iy], q[iz]});
        if (!(std::abs(q[ix]) < 100 && std::abs(q[iy]) < 100 && std::abs(q[iz]) < 100)) {
          return;
        }
      }
    }
    if (places.size() > 2 || !(std::abs(p.pose.position.x - sc.cx()) < 100) ||
      !(std::abs(p.pose.position.y - sc.cy()) < 100))
    {
      return;
    }
    w.count("unconstrained");
    geometry_msgs::msg::Pose q = p.pose;
    const Quat o = quat_of(q.orientation);
    const double n = std::sqrt(o.w * o.w + o.x * o.x + o.y * o.y + o.z * o.z);
    set_quat(q.orientation, Quat{o.w / n, o.x / n, o.y / n, o.z / n});
    const double d = apart(q, x.estimates[0].pose.pose);
    if (!(d < 1e-6)) {
      w.fail("unconstrained", fmt("scan %lld shows %zu places only, yet moves the prior by %g",
        (long long)(x.stamp - base), places.size(), d));
    }
  }

  void accuracy(World & w, const Scene & sc, const Pair & x, const Prior & p, i64 base) const
  {
    unconstrained(w, sc, x, p, base);
    if (!ordinary(x, {p}, sc, base)) {
      return;
    }
    // where the scan was taken is known from what it shows: every point on its pole or plane
    RawCloud e, s;
    from_msg(*x.edge, e);
    from_msg(*x.surface, s);
    auto off = [&](const geometry_msgs::msg::Pose & pose) {
        Pose6 at;
        at.t[0] = pose.position.x;
        at.t[1] = pose.position.y;
        at.t[2] = pose.position.z;
        at.q = quat_of(pose.orientation);
        std::vector<double> d;
        for (const auto & q : e.points) {
          const V3 v = at.apply({q[0], q[1], q[2]});
          double b = INFINITY;
          for (const auto & pole : sc.poles) {
            b = std::min(b, std::hypot(v.x - pole.x, v.y - pole.y));
          }
          d.push_back(b);
        }
        for (const auto & q : s.points) {
          const V3 v = at.apply({q[0], q[1], q[2]});
          d.push_back(std::min({std::abs(v.x - sc.x0), std::abs(v.x - sc.x1), std::abs(v.y - sc.y0),
              std::abs(v.y - sc.y1), std::abs(v.z - sc.floor)}));
        }
        return *std::max_element(d.begin(), d.end());
      };
    const double before = off(p.pose), after = off(x.estimates[0].pose.pose);
    if (before > 0.6) {
      return;
    }
    w.count("accurate");
    if (after > 0.1) {
      w.fail("inaccurate", fmt("scan %lld, from a prior that leaves its points up to %.3g m off, is "
        "placed %.3g m off", (long long)(x.stamp - base), before, after));
    }
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C11 c;
  return harness_main(argc, argv, c);
}
