// C09: the mapping node, fed with scans and poses under message faults, stalls,
// crashes and shutdowns; the saved map against a model of the keyframe rule.
#include <sys/stat.h>
#include <unistd.h>

#include <deque>

#include <pcl/io/pcd_io.h>

#include "lib/clouds.hpp"
#include "lib/faults.hpp"
#include "lib/msgs.hpp"

SIM_MAIN(mapping)

using namespace sim;

namespace
{

using PoseMsg = geometry_msgs::msg::PoseStamped;

struct Pose3
{
  double t[3] = {0, 0, 0};
  Quat q;
};

// What the documented rule makes of the pairs: which scans are keyframes.
struct Model
{
  bool any = false;
  Pose3 last;
  std::set<i64> stamps;
  std::vector<std::pair<Pose3, RawCloud>> frames;
  bool ambiguous = false;

  static double move(const Pose3 & a, const Pose3 & b)
  {
    double s = 0;
    for (int k = 0; k < 3; ++k) {
      s += (a.t[k] - b.t[k]) * (a.t[k] - b.t[k]);
    }
    return std::sqrt(s);
  }
  // 0 added, 1 too close, 2 empty, 3 already there
  int add(i64 stamp, const Pose3 & p, const RawCloud & c)
  {
    if (c.size() == 0) {
      return 2;
    }
    if (stamps.count(stamp)) {
      return 3;
    }
    if (any) {
      const double d = move(last, p);
      const double r = std::sin(quat_angle(last.q, p.q) / 2);
      const bool exact = (d == 1.0 || d == 0.0) && r < 1e-12;
      if (!exact && (std::abs(d - 1.0) < 1e-7 || std::abs(r - 0.1) < 1e-7)) {
        ambiguous = true;
      }
      if (d < 1.0 && r < 0.1) {
        return 1;
      }
    }
    any = true;
    last = p;
    stamps.insert(stamp);
    frames.push_back({p, c});
    return 0;
  }
};

// The synchroniser: complete pairs in the order in which they become complete.
struct Pairing
{
  struct Slot
  {
    std::shared_ptr<RawCloud> cloud;
    std::shared_ptr<Pose3> pose;
  };
  std::map<i64, Slot> slots;
  std::function<void (i64, const Slot &)> on_pair;
  u64 dropped = 0;
  void check(i64 s)
  {
    Slot & x = slots[s];
    if (x.cloud && x.pose) {
      const Slot y = x;
      on_pair(s, y);
      slots.erase(s);
      while (!slots.empty() && slots.begin()->first <= s) {
        slots.erase(slots.begin());
        ++dropped;
      }
    }
  }
};

bool read_map(const std::string & path, RawCloud & out, std::string & why)
{
  pcl::PCLPointCloud2 c;
  Eigen::Vector4f origin;
  Eigen::Quaternionf orientation;
  int version = 0;
  const int rc = pcl::PCDReader().read(path, c, origin, orientation, version);
  if (rc < 0) {
    why = fmt("reader says %d", rc);
    return false;
  }
  CloudMsg m;
  for (const auto & f : c.fields) {
    if (f.name == "_") {
      continue;
    }
    sensor_msgs::msg::PointField x;
    x.name = f.name;
    x.offset = f.offset;
    x.datatype = f.datatype;
    x.count = f.count;
    m.fields.push_back(x);
  }
  m.width = c.width;
  m.height = c.height;
  m.point_step = c.point_step;
  m.row_step = c.row_step;
  m.data.assign(c.data.begin(), c.data.end());
  m.is_dense = c.is_dense;
  if (!from_msg(m, out)) {
    why = "its layout does not fit its data";
    return false;
  }
  return true;
}

struct Times
{
  static i64 stamp(const Plan & p, const Op & o)
  {
    return static_cast<i64>(p.get("epoch", 5)) * 1000000000LL + static_cast<i64>(o.a[0]);
  }
};

class C09 : public Check
{
public:
  std::string id() const override {return "C09";}
  std::string rule() const override
  {
    return "one run = one drive (scans and poses with their stamps, fates and delays) and one "
           "schedule; non-trivial: at least two keyframes were added and one pair was not";
  }
  std::string real_components() const override
  {
    return "mapping application with its main, lib, PCL transformation and writer, real files";
  }
  std::string stub_components() const override
  {
    return "rclcpp, message_filters (ExactTime reimplemented), message types";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"the synchroniser gives up incomplete pairs older than a complete one, as "
      "message_filters does", "at most 1000 stamps wait for their partner",
      "scans carry 32 bit floating point coordinates"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"keyframe", "too_close", "empty_scan", "replayed_pair", "pair_out_of_order",
      "dropped_older", "no_partner", "fault_loss", "fault_duplicate", "fault_delay", "fault_stall",
      "fault_crash", "fault_overflow", "exact_threshold", "rotation_keyframe", "map_checked",
      "no_map_checked", "old_map_kept", "shutdown_midway", "nan_points", "unusable_pose",
      "near_stamp"};
  }
  u64 quick_runs() const override {return 60000;}
  u64 thorough_runs() const override {return 1200000;}

  // scan: stamp, seed, points, kind, deliveries; pose: stamp, x, y, z, roll, pitch, yaw, kind, deliveries
  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    const Faults f = Faults::random(r, r.chance(0.5) ? 0.5 : 3.0);
    p.cfg["exec"] = r.chance(0.6) ? 0 : r.uniform(0, 0.05);
    p.cfg["old_map"] = r.chance(0.3);
    p.cfg["threads"] = r.range(1, 4);
    const bool marathon = r.chance(0.003), dense = r.chance(0.003);
    const int n = static_cast<int>(
      marathon ? r.range(200, 1000) : r.range(1, thorough ? 60 : 25));
    const double period = r.pick(std::vector<double>{0.001, 0.1, 0.1, 0.5});
    const bool grid = r.chance(0.35);       // moves of exactly the keyframe distance
    const double speed = r.pick(std::vector<double>{0.0, 0.3, 0.8, 1.5});
    const double turn = r.pick(std::vector<double>{0.0, 0.02, 0.1, 0.5});
    const double far = r.pick(std::vector<double>{0, 0, 1000, 50000});
    double x = far * r.uniform(-1, 1), y = far * r.uniform(-1, 1), z = 0, yaw = r.uniform(-3.1, 3.1);
    double roll = 0, pitch = 0;
    if (grid) {
      x = std::round(x);
      y = std::round(y);
      yaw = 0;
    }
    p.cfg["epoch"] = r.pick(std::vector<double>{5, 1700000000});
    i64 stamp = 0;
    double t = 0.5;
    for (int i = 0; i < n; ++i) {
      t += period * r.uniform(0.5, 1.5);
      stamp += r.chance(0.1) ? 1 : static_cast<i64>(period * 1e9) + static_cast<i64>(r.below(1000));
      if (grid) {
        const double step = r.pick(std::vector<double>{0, 0.25, 0.5, 1, 1, 2});
        (r.chance(0.5) ? x : y) += r.chance(0.8) ? step : -step;
      } else {
        x += speed * std::cos(yaw) * r.uniform(0.3, 1.2);
        y += speed * std::sin(yaw) * r.uniform(0.3, 1.2);
        z += 0.1 * speed * r.normal();
        yaw += turn * r.normal();
        roll = 0.3 * turn * r.normal();
        pitch = 0.3 * turn * r.normal();
      }
      Op s, q;
      s.kind = "scan";
      s.t = static_cast<i64>(t * 1e9);
      s.a = {static_cast<double>(stamp), static_cast<double>(r.below(1000000)),
        r.chance(0.08) ? 0.0 : static_cast<double>(
          dense && r.chance(0.2) ? r.range(1000, 40000) : r.range(1, thorough ? 60 : 20)),
        static_cast<double>(r.below(4))};
      f.add(s, r);
      q.kind = "pose";
      q.t = s.t + static_cast<i64>((r.chance(0.7) ? 0 : r.uniform(-1, 3) * period) * 1e9);
      q.a = {static_cast<double>(stamp), x, y, z, roll, pitch, yaw, 0};
      if (r.chance(0.06)) {
        q.a[7] = static_cast<double>(r.range(1, 4));      // unusable
      }
      if (r.chance(0.08)) {
        q.a[0] += r.chance(0.5) ? 1 : -1;                 // another stamp, one nanosecond off
      }
      f.add(q, r);
      if (r.chance(0.95)) {
        p.ops.push_back(s);
      }
      if (r.chance(0.95)) {
        p.ops.push_back(q);
      }
      if (r.chance(0.05)) {
        // the same pair once more, later
        s.t += static_cast<i64>(r.uniform(0, 10) * period * 1e9);
        q.t = s.t + 1000;
        p.ops.push_back(s);
        p.ops.push_back(q);
      }
    }
    for (int i = static_cast<int>(r.below(3)); i > 0 && r.chance(0.6); --i) {
      Op o;
      o.t = static_cast<i64>(r.uniform(0.3, t + 0.5) * 1e9);
      o.kind = r.chance(0.6) ? "stall" : "crash";
      o.a = {r.uniform(0.01, 1) * 1e9};
      p.ops.push_back(o);
    }
    p.cfg["end"] = r.chance(0.3) ? r.uniform(0.4, t + 0.5) : t + 20;
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    return p;
  }

  std::vector<std::string> shrinkable() const override {return {"exec", "old_map"};}

  static RawCloud make_cloud(const Op & o)
  {
    Rng r(static_cast<u64>(o.a[1]) * 77 + 5);
    RawCloud c;
    c.fields = {{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32}};
    const int kind = static_cast<int>(o.a[3]);
    if (kind == 1) {
      c.fields.push_back({"intensity", F_FLOAT32});
    } else {
      c.fields.push_back({"curvature", F_FLOAT32});
    }
    c.fields.push_back({"ring", F_UINT16});
    if (kind == 2) {
      std::swap(c.fields[0], c.fields[4]);
    }
    for (int i = 0; i < static_cast<int>(o.a[2]); ++i) {
      std::vector<double> v;
      for (const auto & f : c.fields) {
        v.push_back(
          f.type == F_UINT16 ? static_cast<double>(r.below(65536)) :
          static_cast<double>(static_cast<float>(r.normal() * (r.chance(0.1) ? 100 : 10))));
      }
      if (kind == 3 && r.chance(0.2)) {
        v[static_cast<size_t>(c.index(r.chance(0.5) ? "x" : "z"))] = r.chance(0.5) ? NAN : INFINITY;
        c.dense = false;
      }
      c.points.push_back(v);
    }
    return c;
  }

  static bool usable(const PoseMsg & m)
  {
    const auto & o = m.pose.orientation;
    const auto & x = m.pose.position;
    const double n = o.w * o.w + o.x * o.x + o.y * o.y + o.z * o.z;
    return std::isfinite(x.x) && std::isfinite(x.y) && std::isfinite(x.z) && std::isfinite(n) &&
           std::abs(n - 1) < 1e-9;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    auto & m = rclcpp::mw();
    m.n_threads = static_cast<int>(plan.get("threads", 3));
    const std::string dir = make_scratch_dir("c09");
    char old[4096];
    if (!getcwd(old, sizeof(old)) || chdir(dir.c_str()) != 0 || mkdir("maps", 0755) != 0) {
      abort();
    }
    const std::string path = "maps/edge.pcd";
    std::string before;
    if (plan.get("old_map") != 0) {
      Rng r(plan.seed ^ 0x01d);
      before = pcd_text(random_cloud(r, 5), 1);
      write_file(path, before);
    }
    auto content = [&]() {
        std::string s;
        if (FILE * f = fopen(path.c_str(), "rb")) {
          char b[65536];
          size_t n;
          while ((n = fread(b, 1, sizeof(b), f)) > 0) {
            s.append(b, n);
          }
          fclose(f);
        }
        return s;
      };

    Process * node = nullptr;
    Model model;
    Pairing pairing;
    i64 stalled_until = 0, last_pair = INT64_MIN;
    u64 added = 0, skipped = 0;
    std::vector<i64> next;
    bool finishing = false;

    auto reset = [&] {
        model = Model();
        pairing = Pairing();
        last_pair = INT64_MIN;
        pairing.on_pair = [&](i64 s, const Pairing::Slot & x) {
            if (s < last_pair) {
              w.count("pair_out_of_order");
            }
            last_pair = std::max(last_pair, s);
            if (!(x.pose->q.w == x.pose->q.w)) {
              w.count("unusable_pose");
              return;
            }
            const Model prev = model;
            const int k = model.add(s, *x.pose, *x.cloud);
            if (k == 0) {
              ++added;
              w.count("keyframe");
              if (prev.any && Model::move(prev.last, *x.pose) < 1) {
                w.count("rotation_keyframe");
              }
              if (prev.any && Model::move(prev.last, *x.pose) == 1.0) {
                w.count("exact_threshold");
              }
              if (!x.cloud->dense) {
                w.count("nan_points");
              }
            } else {
              ++skipped;
              w.count(k == 1 ? "too_close" : (k == 2 ? "empty_scan" : "replayed_pair"));
            }
            w.note("pair %lld: %d", (long long)s, k);
          };
      };
    reset();

    m.network = [&](const rclcpp::Link &, const rclcpp::AnyMsg &) {return next;};
    const double ex = plan.get("exec");
    m.exec_time = [&, k = u64(0)](Process *, const std::string &) mutable {
        std::pair<i64, i64> d{0, 0};
        if (ex > 0) {
          Rng r = keyed(plan.seed, 0xE8EC, k++);
          d.first = static_cast<i64>(r.uniform(0, ex) * 1e9);
          d.second = static_cast<i64>(r.uniform(0, ex) * 1e9);
        }
        if (stalled_until > w.now) {
          d.first += stalled_until - w.now;
        }
        return d;
      };
    m.on_overflow = [&](rclcpp::SubBase &, const rclcpp::AnyMsg &) {w.count("fault_overflow");};
    m.on_take = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        if (s.proc != node) {
          return;
        }
        i64 stamp = 0;
        if (s.type == typeid(CloudMsg)) {
          const CloudMsg & c = rclcpp::as<CloudMsg>(msg);
          stamp = ns_of(c.header.stamp);
          auto raw = std::make_shared<RawCloud>();
          from_msg(c, *raw);
          pairing.slots[stamp].cloud = raw;
        } else if (s.type == typeid(PoseMsg)) {
          const PoseMsg & q = rclcpp::as<PoseMsg>(msg);
          stamp = ns_of(q.header.stamp);
          auto pose = std::make_shared<Pose3>();
          pose->t[0] = q.pose.position.x;
          pose->t[1] = q.pose.position.y;
          pose->t[2] = q.pose.position.z;
          pose->q = quat_of(q.pose.orientation);
          if (!usable(q)) {
            pose->q.w = NAN;
          }
          pairing.slots[stamp].pose = pose;
        } else {
          return;
        }
        w.note("take %s %lld", s.topic.c_str(), (long long)stamp);
        if (pairing.slots.count(stamp + 1) || pairing.slots.count(stamp - 1)) {
          w.count("near_stamp");
        }
        pairing.check(stamp);
      };

    // the map on disk is looked at when a life of the node has ended
    auto inspect = [&](bool orderly) {
        if (w.stop || !node) {
          return;
        }
        if (!node->exit_error.empty() || (node->exited && node->exit_code != 0)) {
          w.fail("terminated", fmt("the node ended with status %d: %s", node->exit_code,
            node->exit_error.c_str()));
          return;
        }
        if (pairing.dropped) {
          w.count("dropped_older", pairing.dropped);
        }
        if (!pairing.slots.empty()) {
          w.count("no_partner", pairing.slots.size());
        }
        if (model.ambiguous) {
          w.count("ambiguous");
          before = content();
          return;
        }
        if (!orderly || model.frames.empty()) {
          const std::string now = content();
          if (now != before) {
            w.fail("map-touched", orderly ? "the map file was written though no scan had been added" :
              "the map file was written before mapping ended");
          }
          if (!before.empty()) {
            w.count("old_map_kept");
          }
          if (orderly) {
            w.count("no_map_checked");
          }
          return;
        }
        RawCloud got;
        std::string why;
        if (!read_map(path, got, why)) {
          w.fail("map-missing", "the map cannot be read: " + why);
          return;
        }
        size_t total = 0;
        for (const auto & f : model.frames) {
          total += f.second.size();
        }
        w.note("map %zu", got.size());
        if (got.size() != total) {
          w.fail("map-size", fmt("%zu points in the map, %zu in its %zu keyframes", got.size(), total,
            model.frames.size()));
          return;
        }
        const int gx = got.index("x"), gy = got.index("y"), gz = got.index("z");
        if (gx < 0 || gy < 0 || gz < 0) {
          w.fail("map-fields", "the map has no coordinates");
          return;
        }
        size_t at = 0;
        for (size_t k = 0; k < model.frames.size(); ++k) {
          const auto & [pose, c] = model.frames[k];
          const int ix = c.index("x"), iy = c.index("y"), iz = c.index("z");
          double R[3][3];
          rotation(pose.q, R);
          for (size_t i = 0; i < c.size(); ++i, ++at) {
            const auto & v = c.points[i];
            const double in[3] = {v[ix], v[iy], v[iz]};
            const auto & u = got.points[at];
            const double out[3] = {u[gx], u[gy], u[gz]};
            const bool finite = std::isfinite(in[0]) && std::isfinite(in[1]) && std::isfinite(in[2]);
            if (!finite) {
              if (std::isfinite(out[0]) && std::isfinite(out[1]) && std::isfinite(out[2])) {
                w.fail("map-invented", fmt("keyframe %zu: a point without position has got one", k));
                return;
              }
              continue;
            }
            for (int a = 0; a < 3; ++a) {
              const double e = R[a][0] * in[0] + R[a][1] * in[1] + R[a][2] * in[2] + pose.t[a];
              const double scale = std::abs(in[0]) + std::abs(in[1]) + std::abs(in[2]) +
                std::abs(pose.t[a]);
              if (!(std::abs(out[a] - e) <= 1e-6 + 6e-7 * scale)) {
                w.fail("map-position", fmt("keyframe %zu of %zu, point %zu: coordinate %d is %.7g, "
                  "should be %.7g", k, model.frames.size(), i, a, out[a], e));
                return;
              }
            }
            for (const char * name : {"curvature", "ring"}) {
              const int a = c.index(name), b = got.index(name);
              if (a >= 0 && (b < 0 || !same_value(u[b], v[a]))) {
                w.fail("map-field", fmt("keyframe %zu, point %zu: %s is lost", k, i, name));
                return;
              }
            }
          }
        }
        w.count("map_checked");
        before = content();
      };
    auto spawn = [&] {
        reset();
        stalled_until = 0;
        node = w.spawn("mapping", [] {return run_main_mapping();});
      };
    spawn();

    auto perform = [&](const Op & op) {
        if (w.stop || finishing) {
          return;
        }
        if (op.kind == "scan") {
          next = Faults::deliveries(w, op, 4);
          m.inject("/scan_edge", to_msg(make_cloud(op), Times::stamp(plan, op), "lidar_feature_base_link"),
            "extraction", rclcpp::QoS(10).reliable());
        } else if (op.kind == "pose") {
          next = Faults::deliveries(w, op, 8);
          PoseMsg q;
          q.header.stamp = stamp_of(Times::stamp(plan, op));
          q.header.frame_id = "map";
          q.pose.position.x = op.a[1];
          q.pose.position.y = op.a[2];
          q.pose.position.z = op.a[3];
          set_quat(q.pose.orientation, from_rpy(op.a[4], op.a[5], op.a[6]));
          switch (static_cast<int>(op.a[7])) {
            case 1: q.pose.position.y = NAN; break;
            case 2: q.pose.orientation.z = INFINITY; break;
            case 3: set_quat(q.pose.orientation, Quat{0, 0, 0, 0}); break;
            case 4: q.pose.orientation.w = NAN; break;
            default: break;
          }
          m.inject("/pose", q, "poses", rclcpp::QoS(10).reliable());
        } else if (op.kind == "stall") {
          w.count("fault_stall");
          stalled_until = w.now + static_cast<i64>(op.a[0]);
        } else if (op.kind == "crash") {
          if (node && !node->dead && !node->exited) {
            w.count("fault_crash");
            w.kill(node);
            inspect(false);
            w.after(static_cast<i64>(op.a[0]), [&] {if (!finishing) {spawn();}});
          }
        }
      };
    for (const auto & op : plan.ops) {
      w.at(op.t, [&perform, op] {perform(op);});
    }
    w.run_until(static_cast<i64>(plan.get("end") * 1e9));
    if (!plan.ops.empty() && plan.ops.back().t > w.now) {
      w.count("shutdown_midway");
    }
    finishing = true;
    const bool alive = node && !node->dead;
    if (alive && !w.stop && !node->exited && plan.ops.size() && w.now > plan.ops.back().t + 15000000000LL) {
      for (const char * t : {"/scan_edge", "/pose"}) {
        for (auto * s : m.topics[t].subs) {
          if (s->proc == node && !s->queue.empty()) {
            w.fail("not-taken", fmt("%zu messages on %s were never taken", s->queue.size(), t));
          }
        }
      }
    }
    if (!w.stop) {
      w.finish();
    }
    if (alive) {
      inspect(true);
    }
    o.nontrivial = added >= 2 && skipped >= 1;
    o.state_hash = mix(added * 131 + skipped, w.hash);
    collect(w, o);
    if (chdir(old) != 0) {
      abort();
    }
    remove_scratch_dir(dir);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C09 c;
  return harness_main(argc, argv, c);
}
