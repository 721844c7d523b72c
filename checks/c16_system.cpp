// C16: the whole system as the launch files wire it, driving in a room: lidar to
// converter to extraction to localization to fusion and back, on maps that the
// mapping launch has made, under message faults, stalls, crashes and restarts.
#include <sys/stat.h>
#include <unistd.h>

#include <map>
#include <memory>

#include "lib/faults.hpp"
#include "lib/system_sim.hpp"

using namespace sim;

namespace
{

using Estimate = geometry_msgs::msg::PoseWithCovarianceStamped;
using PoseMsg = geometry_msgs::msg::PoseStamped;
using Twist = geometry_msgs::msg::TwistWithCovarianceStamped;
using Odom = nav_msgs::msg::Odometry;

constexpr double READY = 7, RECOVERY = 12, TAIL = 3;
// once settled
constexpr double NEAR = 0.5, NEAR_ANGLE = 0.08;
// on dead reckoning
constexpr double STRAY = 0.5, STRAY_ANGLE = 0.12;
// when the operator has to help
constexpr double LOST = 0.8, LOST_ANGLE = 0.2;
constexpr u64 TRIES = 20;

const char * const TOPICS[] = {"/points_raw", "/points_converted", "/scan_edge", "/scan_surface",
  "/lidar_feature_pose", "/ekf_odom", "/twist"};
constexpr int N_TOPICS = 7, TWIST = 6;
// the launch arguments that choose topics
const std::map<std::string, std::string> ARGUMENTS = {
  {"/initialpose3d", "input_initial_pose_topic"}, {"/twist", "input_twist_topic"},
  {"/points_raw", "input_sensor_points_topic"}, {"/lidar_feature_pose", "lidar_feature_pose_topic"},
  {"/edge_map", "edge_map_topic"}, {"/surface_map", "surface_map_topic"}, {"/ekf_odom", "ekf_odometry"}};
const char * const NODES[] = {"point_type_converter", "lidar_feature_extraction",
  "lidar_feature_localization", "ekf_localizer"};
constexpr int N_NODES = 4, EKF = 3;

Pose6 pose_of(const geometry_msgs::msg::Pose & p)
{
  Pose6 q;
  q.t[0] = p.position.x;
  q.t[1] = p.position.y;
  q.t[2] = p.position.z;
  q.q = quat_of(p.orientation);
  return q;
}
void set_pose(geometry_msgs::msg::Pose & m, const Pose6 & p)
{
  m.position.x = p.t[0];
  m.position.y = p.t[1];
  m.position.z = p.t[2];
  set_quat(m.orientation, p.q);
}
bool finite(const geometry_msgs::msg::Pose & p)
{
  const Pose6 q = pose_of(p);
  return std::isfinite(q.t[0] + q.t[1] + q.t[2]) && std::isfinite(q.q.w + q.q.x + q.q.y + q.q.z);
}

struct Maps
{
  std::string edge, surface, error;
};

// The mapping launch, driven once around the room with known poses.
Maps survey(u64 scene)
{
  const Room room(scene);
  Maps maps;
  RawCloud surface;
  surface.fields = {{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32}};
  World * old = W();
  {
    World w(scene);
    set_world(&w);
    w.fifo = true;
    auto & m = rclcpp::mw();
    m.on_publish = [&](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.topic == "/scan_surface" && p.type == typeid(CloudMsg)) {
          const CloudMsg & c = rclcpp::as<CloudMsg>(msg);
          RawCloud r;
          from_msg(c, r);
          const Pose6 pose = room.truth(static_cast<double>(ns_of(c.header.stamp)) * 1e-9);
          for (const auto & v : r.points) {
            const V3 q = pose.apply({v[0], v[1], v[2]});
            surface.points.push_back({static_cast<float>(q.x), static_cast<float>(q.y),
                static_cast<float>(q.z)});
          }
        }
      };
    std::vector<Process *> nodes;
    for (const auto & n : launched("mapping")) {
      nodes.push_back(start(w, n));
    }
    w.run_until(100000000);
    const double round = 2 * M_PI / room.turn();
    u64 k = 0;
    for (double t = 0; t < round; t += 1.05 / room.speed) {
      const i64 stamp = static_cast<i64>((100 + t) * 1e9);
      const Pose6 truth = room.truth(static_cast<double>(stamp) * 1e-9);
      m.inject("/points_raw", to_msg(room.scan(truth, scene * 1000 + k++), stamp, "lidar"), "lidar",
        rclcpp::QoS(10).reliable());
      PoseMsg q;
      q.header.stamp = stamp_of(stamp);
      q.header.frame_id = "map";
      set_pose(q.pose, truth);
      m.inject("/pose", q, "surveyor", rclcpp::QoS(10).reliable());
      w.run_until(w.now + 50000000);
    }
    for (auto * p : nodes) {
      p->shutdown();
    }
    w.run_until(w.now + 1000000000);
    w.finish();
    for (const auto & v : w.violations) {
      maps.error = v.cls + ": " + v.detail;
    }
    m.on_publish = nullptr;
  }
  set_world(old);
  std::ifstream f("maps/edge.pcd", std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  maps.edge = s.str();
  if (maps.edge.empty() && maps.error.empty()) {
    maps.error = "no edge map was written";
  }
  maps.surface = pcd_text(surface, 1);
  return maps;
}

class C16 : public Check
{
public:
  std::string id() const override {return "C16";}
  std::string rule() const override
  {
    return "one run = one drive in one surveyed room, with its faults and schedule; non-trivial: a "
           "fault struck, and the end of the drive was checked";
  }
  std::string real_components() const override
  {
    return "point_type_converter (Python), extraction, mapping, localization, ekf_localizer and "
           "map_loader with their mains, wired "
           "and parametrised by the repository's own launch and parameter files; PCL; real map files";
  }
  std::string stub_components() const override
  {
    return "rclcpp, rclpy, tf2 and message_filters; the surface map, which nothing in the repository writes, is put together from the "
           "surveyed surface scans; lidar, wheels and operator";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"wheel speeds are right within 2 cm/s and 0.01 rad/s",
      "an operator gives a pose within half a metre when the system is lost after a disturbance that "
      "concerned the fusion node, its wheel speeds or its initial pose",
      "the room shows walls, floor and poles from everywhere"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"fault_loss", "fault_duplicate", "fault_delay", "fault_partition", "fault_stall",
      "fault_crash", "restart", "fault_kidnap", "lost", "recovered_alone", "recovered_helped",
      "stayed_near", "estimate_checked", "maps_published", "default_filter", "renamed_topics"};
  }
  u64 quick_runs() const override {return 160;}
  u64 thorough_runs() const override {return 6000;}
  double run_timeout_s() const override {return 240;}

  // net: topic, duration, loss, duplication, delay probability, delay; cut: node, duration;
  // stall: node, duration; crash: node, downtime; kidnap: x, y, yaw
  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    p.cfg["scene"] = static_cast<double>(r.below(thorough ? 64 : 12));
    p.cfg["default_filter"] = r.chance(0.05);
    p.cfg["renamed"] = r.chance(0.1);
    p.cfg["freq"] = r.pick(std::vector<double>{10, 20, 20, 25});
    // of a scan period, for each of a scan's two clouds
    p.cfg["epoch"] = r.chance(0.4) ? 0 : 1700000000;
    p.cfg["exec"] = r.chance(0.4) ? 0 : r.uniform(0, 0.35);
    p.cfg["jitter"] = r.chance(0.5) ? 0 : r.uniform(0, 0.01);
    p.cfg["scan_period"] = r.pick(std::vector<double>{0.2, 0.25, 0.4});
    p.cfg["start"] = r.uniform(0, 1.5);
    p.cfg["off_x"] = r.uniform(-0.4, 0.4);
    p.cfg["off_y"] = r.uniform(-0.4, 0.4);
    p.cfg["off_yaw"] = r.uniform(-0.1, 0.1);
    const double T = r.uniform(1, thorough ? 12 : 6);
    p.cfg["faults"] = T;
    const bool mild = r.chance(0.5);
    const int n = static_cast<int>(r.range(1, 5));
    for (int i = 0; i < n; ++i) {
      Op o;
      const double at = r.uniform(0, T);
      const double len = r.uniform(0.05, T - at);
      o.t = static_cast<i64>((READY + at) * 1e9);
      const double u = r.uniform();
      if (u < 0.4) {
        o.kind = "net";
        const int topic = static_cast<int>(r.below(mild ? N_TOPICS - 1 : N_TOPICS));
        o.a = {static_cast<double>(topic), len, r.chance(0.5) ? r.uniform(0, 1) : 0,
          r.chance(0.5) ? r.uniform(0, 1) : 0, r.chance(0.6) ? r.uniform(0, 1) : 0,
          r.chance(0.5) ? r.uniform(0, 0.3) : r.uniform(0, 3)};
      } else if (u < 0.55) {
        o.kind = "cut";
        o.a = {static_cast<double>(r.below(mild ? N_NODES - 1 : N_NODES)), len};
      } else if (u < 0.7) {
        o.kind = "stall";
        o.a = {static_cast<double>(r.below(mild ? N_NODES - 1 : N_NODES)), len};
      } else if (u < 0.95 || mild) {
        o.kind = "crash";
        o.a = {static_cast<double>(r.below(mild ? N_NODES - 1 : N_NODES)), len};
      } else {
        o.kind = "kidnap";
        o.a = {r.uniform(-20, 20), r.uniform(-20, 20), r.uniform(-3, 3)};
      }
      p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    return p;
  }
  std::vector<std::string> shrinkable() const override
  {
    return {"exec", "jitter", "renamed", "off_x", "off_y", "off_yaw", "default_filter", "start"};
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    w.max_steps = 20000000;
    auto & m = rclcpp::mw();
    const std::string dir = make_scratch_dir("c16");
    char old[4096];
    if (!getcwd(old, sizeof(old)) || chdir(dir.c_str()) != 0 || mkdir("maps", 0755) != 0) {
      abort();
    }
    const u64 scene = static_cast<u64>(plan.get("scene"));
    const Room room(scene);
    static std::map<u64, Maps> surveys;
    if (surveys.count(scene) == 0) {
      surveys[scene] = survey(scene);
    }
    const Maps & maps = surveys[scene];
    if (!maps.error.empty()) {
      w.fail("survey", "no map could be made: " + maps.error);
    }
    write_file("maps/edge.pcd", maps.edge);
    write_file("maps/surface.pcd", maps.surface);

    // ---- the launch, perhaps with other topic names
    const std::string which = plan.get("renamed") != 0 ? "localization_renamed" : "localization";
    const auto args = launch_arguments(which);
    auto topic = [&](const std::string & t) {
        auto it = ARGUMENTS.find(t);
        return it == ARGUMENTS.end() || args.count(it->second) == 0 ? t : args.at(it->second);
      };
    const std::string ekf_odom = topic("/ekf_odom"), estimate_topic = topic("/lidar_feature_pose"),
      edge_map = topic("/edge_map"), surface_map = topic("/surface_map");
    if (plan.get("renamed") != 0) {
      w.count("renamed_topics");
    }
    auto truth = [&](i64 t) {return room.truth(static_cast<double>(t) * 1e-9);};
    const i64 S = 1000000000;
    const double T = plan.get("faults");
    const i64 ready = static_cast<i64>(READY * 1e9), calm = static_cast<i64>((READY + T) * 1e9);
    // an operator who has to help puts these off
    i64 settled = calm + static_cast<i64>(RECOVERY * 1e9);
    i64 end = settled + static_cast<i64>(TAIL * 1e9);

    // whether the faults leave the fusion, its wheel speeds and the priors of the estimates alone
    bool mild = true;
    u64 struck = 0;
    for (const auto & op : plan.ops) {
      mild = mild && op.kind != "kidnap" &&
        (op.kind == "net" ? op.a[0] != TWIST : op.a[0] != EKF);
    }

    struct Net {i64 until = 0; double loss = 0, dup = 0, late = 0, by = 0;};
    std::map<std::string, Net> net;
    std::map<std::string, i64> cut, stall;
    m.network = [&](const rclcpp::Link & l, const rclcpp::AnyMsg &) -> std::vector<i64> {
        Rng r = keyed(plan.seed, hash_str(l.topic + " " + l.dst), static_cast<u64>(l.n));
        std::vector<i64> d{static_cast<i64>(r.uniform(0, 0.004) * 1e9)};
        for (const auto & c : cut) {
          if (w.now < c.second && (l.src == c.first || l.dst == c.first) && l.src != l.dst) {
            w.count("fault_partition");
            ++struck;
            return {};
          }
        }
        auto it = net.find(l.topic);
        if (it != net.end() && w.now < it->second.until) {
          const Net & n = it->second;
          if (r.chance(n.loss)) {
            w.count("fault_loss");
            ++struck;
            return {};
          }
          if (r.chance(n.late)) {
            w.count("fault_delay");
            ++struck;
            d[0] += static_cast<i64>(r.uniform(0, n.by) * 1e9);
          }
          if (r.chance(n.dup)) {
            w.count("fault_duplicate");
            ++struck;
            d.push_back(d[0] + static_cast<i64>(r.uniform(0, n.by) * 1e9));
          }
        }
        return d;
      };
    const double ex = plan.get("exec");
    m.exec_time = [&, k = u64(0)](Process * p, const std::string & topic) mutable {
        std::pair<i64, i64> d{0, 0};
        Rng r = keyed(plan.seed, 0xE8EC, k++);
        if (ex > 0 && p) {
          const bool cloud = topic.find("scan") != std::string::npos;
          d.first = static_cast<i64>(
            r.uniform(0, cloud ? ex * plan.get("scan_period") : 0.01 * ex) * 1e9);
        }
        auto it = p ? stall.find(p->name) : stall.end();
        if (it != stall.end() && it->second > w.now) {
          w.count("fault_stall");
          ++struck;
          d.first += it->second - w.now;
        }
        return d;
      };
    const double jitter = plan.get("jitter");
    if (jitter > 0) {
      m.timer_jitter = [&, k = u64(0)](Process *) mutable {
          return static_cast<i64>(keyed(plan.seed, 0x71, k++).uniform(0, jitter) * 1e9);
        };
    }

    // ---- observation
    const i64 epoch = static_cast<i64>(plan.get("epoch")) * S;
    double error = -1, angle = 0, worst = 0, worst_angle = 0;
    i64 last_odom = -1, newest_matched = -1;
    u64 n_estimates = 0, tail_estimates = 0, tail_odoms = 0, n_odoms = 0;
    std::map<i64, Pose6> priors;  // that the localization node has taken
    std::map<std::string, u64> maps_seen;
    Process * localization = nullptr;
    m.on_publish = [&](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (w.stop) {
          return;
        }
        if (p.topic == ekf_odom && p.type == typeid(Odom)) {
          const Odom & q = rclcpp::as<Odom>(msg);
          if (!finite(q.pose.pose)) {
            w.fail("not-finite", "the fused odometry is not finite");
            return;
          }
          const i64 stamp = ns_of(q.header.stamp) - epoch;
          const Pose6 a = pose_of(q.pose.pose), b = truth(stamp);
          error = distance(a, b);
          angle = quat_angle(a.q, b.q);
          last_odom = w.now;
          ++n_odoms;
          w.note("odometry %.3f: %.3f %.4f", stamp * 1e-9, error, angle);
          const bool near = w.now >= settled ? error < NEAR && angle < NEAR_ANGLE :
            error < STRAY && angle < STRAY_ANGLE;
          if (w.now >= ready && !w.stop && (w.now >= settled || mild)) {
            worst = std::max(worst, error);
            worst_angle = std::max(worst_angle, angle);
            if (!near) {
              w.fail(w.now >= settled ? "not-recovered" : "strayed",
                fmt("%.1f s %s the fused pose is %.2f m and %.2f rad off",
                w.now >= settled ? (w.now - calm) * 1e-9 : (w.now - ready) * 1e-9,
                w.now >= settled ? "after the disturbance has ended" : "after the start of a "
                "disturbance that leaves dead reckoning alone", error, angle));
            }
          }
          tail_odoms += w.now >= settled;
        } else if (p.topic == estimate_topic && p.type == typeid(Estimate)) {
          const Estimate & q = rclcpp::as<Estimate>(msg);
          const i64 stamp = ns_of(q.header.stamp) - epoch;
          ++n_estimates;
          tail_estimates += w.now >= settled;
          if (!finite(q.pose.pose)) {
            w.fail("not-finite", "a pose estimate is not finite");
            return;
          }
          const Pose6 a = pose_of(q.pose.pose), b = truth(stamp);
          const double e = distance(a, b), d = quat_angle(a.q, b.q);
          w.note("estimate %.3f: %.3f %.4f", stamp * 1e-9, e, d);
          // the prior is the one nearest in time
          auto hi = priors.lower_bound(stamp);
          std::vector<std::map<i64, Pose6>::iterator> c;
          if (hi != priors.end()) {
            c.push_back(hi);
          }
          if (hi != priors.begin()) {
            c.push_back(std::prev(hi));
          }
          i64 prior_stamp = 0;
          double pe = c.empty() ? 99 : 0, pd = 0;
          for (auto x : c) {
            pe = std::max(pe, distance(x->second, b));
            pd = std::max(pd, quat_angle(x->second.q, b.q));
            if (std::abs(x->first - stamp) < std::abs(prior_stamp - stamp)) {
              prior_stamp = x->first;
            }
          }
          if (getenv("C16_STATS")) {
            FILE * f = fopen((std::string(getenv("C16_STATS")) + ".est").c_str(), "a");
            fprintf(f, "%.3f %.4f %.4f %.4f %ld\n", pe, pd, e, d, (long)(plan.seed % 100000));
            fclose(f);
          }
          // the node keeps no priors from before the newest scan it has matched
          const bool in_order = !c.empty() && c.back()->first >= newest_matched && stamp > newest_matched;
          newest_matched = std::max(newest_matched, stamp);
          if (w.now >= ready && std::abs(stamp - prior_stamp) > S / 2) {
            // matched with a prior from another time, it may well lead the fusion astray
            mild = false;
          }
          const bool close = pe < 0.1 && pd < 0.02;
          if (in_order && (close || (pe < 0.3 && pd < 0.1))) {
            w.count("estimate_checked");
            if (!(e < (close ? 0.1 : 0.15) && d < (close ? 0.03 : 0.1))) {
              w.fail("estimate-off", fmt("with a prior %.3f m and %.3f rad off the estimate is %.3f m "
                "and %.3f rad off", pe, pd, e, d));
            }
          }
        } else if (p.type == typeid(CloudMsg) && (p.topic == edge_map || p.topic == surface_map)) {
          ++maps_seen[p.topic];
        }
      };
    m.on_take = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        if (s.proc == localization && s.type == typeid(Odom)) {
          const Odom & q = rclcpp::as<Odom>(msg);
          priors[ns_of(q.header.stamp) - epoch] = pose_of(q.pose.pose);
        }
      };

    // ---- the system
    std::vector<LaunchedNode> nodes = launched(which);
    std::map<std::string, Process *> procs;
    for (auto & n : nodes) {
      if (n.name == NODES[EKF]) {
        if (plan.get("default_filter") == 0) {
          // the same horizon with fewer steps
          n.params["predict_frequency"] = fmt("%.17g", plan.get("freq"));
          n.params["extend_state_step"] = fmt("%d", static_cast<int>(plan.get("freq")));
        } else {
          w.count("default_filter");
        }
      }
    }
    auto launch = [&](const LaunchedNode & n) {
        Process * p = start(w, n, epoch);
        procs[n.name] = p;
        if (n.name == NODES[2]) {
          localization = p;
          priors.clear();
          newest_matched = -1;
        }
      };
    for (size_t i = 0; i < nodes.size(); ++i) {
      Rng r = keyed(plan.seed, 0x57a7, i);
      w.at(static_cast<i64>(r.uniform(0, plan.get("start")) * 1e9), [&, i] {launch(nodes[i]);});
    }
    auto initial = [&](double x, double y, double yaw) {
        Estimate q;
        const Pose6 p = truth(w.now);
        q.header.stamp = stamp_of(epoch + w.now);
        q.header.frame_id = "map";
        Pose6 s = p;
        s.t[0] += x;
        s.t[1] += y;
        s.q = qmul(p.q, from_rpy(0, 0, yaw));
        set_pose(q.pose.pose, s);
        for (int k = 0; k < 36; k += 7) {
          q.pose.covariance[static_cast<size_t>(k)] = k < 21 ? 1.0 : 0.1;
        }
        m.inject(topic("/initialpose3d"), q, "operator", rclcpp::QoS(10).reliable());
      };
    w.at(2 * S, [&] {initial(plan.get("off_x"), plan.get("off_y"), plan.get("off_yaw"));});
    std::function<void(u64)> wheels = [&](u64 k) {
          if (w.now < end) {
            w.after(S / 20, [&wheels, k] {wheels(k + 1);});
          }
          Rng r = keyed(plan.seed, 0x733, k);
          Twist x;
          x.header.stamp = stamp_of(epoch + w.now);
          x.header.frame_id = "base_link";
          x.twist.twist.linear.x = room.speed + 0.02 * r.uniform(-1, 1);
          x.twist.twist.angular.z = room.turn() + 0.01 * r.uniform(-1, 1);
          x.twist.covariance[0] = 0.01;
          x.twist.covariance[35] = 0.01;
          m.inject(topic("/twist"), x, "wheels", rclcpp::QoS(10).reliable());
        };
    const i64 scan_period = static_cast<i64>(plan.get("scan_period") * 1e9);
    std::function<void(u64)> lidar = [&](u64 k) {
        if (w.now < end) {
          w.after(scan_period, [&lidar, k] {lidar(k + 1);});
        }
        m.inject(topic("/points_raw"), to_msg(room.scan(truth(w.now), plan.seed * 1000 + k), epoch + w.now, "lidar"),
          "lidar", rclcpp::QoS(10).reliable());
      };
    w.at(0, [&] {wheels(0);});
    w.at(S / 10, [&] {lidar(0);});

    // ---- the disturbances, all over when the calm begins
    for (const auto & op : plan.ops) {
      w.at(op.t, [&, op] {
          const i64 until = op.a.size() > 1 ?
            std::min(calm, w.now + static_cast<i64>(op.a[1] * 1e9)) : calm;
          if (op.kind == "net") {
            Net & n = net[topic(TOPICS[static_cast<int>(op.a[0])])];
            n.until = until;
            n.loss = op.a[2];
            n.dup = op.a[3];
            n.late = op.a[4];
            n.by = op.a[5];
          } else if (op.kind == "cut") {
            cut[NODES[static_cast<int>(op.a[0])]] = until;
          } else if (op.kind == "stall") {
            stall[NODES[static_cast<int>(op.a[0])]] = until;
          } else if (op.kind == "crash") {
            const std::string name = NODES[static_cast<int>(op.a[0])];
            Process * p = procs[name];
            if (p && !p->dead && !p->exited) {
              w.count("fault_crash");
              ++struck;
              w.kill(p);
              w.at(until, [&, name] {
                  for (const auto & n : nodes) {
                    if (n.name == name) {
                      w.count("restart");
                      launch(n);
                    }
                  }
                });
            }
          } else if (op.kind == "kidnap") {
            w.count("fault_kidnap");
            ++struck;
            initial(op.a[0], op.a[1], op.a[2]);
          }
        });
    }
    // The operator looks at the result and helps when the system is lost. An estimate that was
    // under way when the help came may spoil it, so this can take more than one try.
    u64 helped = 0;
    std::function<void()> look = [&] {
        const bool lost = !(error < LOST && angle < LOST_ANGLE) || last_odom < w.now - S;
        w.note("look: %.3f %.3f", error, angle);
        if (mild || w.stop || !lost) {
          return;
        }
        if (++helped > TRIES) {
          w.fail("not-recovered", fmt("the system is %.2f m and %.2f rad off after it was given a pose "
            "%d times", error, angle, (int)TRIES));
          return;
        }
        w.count(helped == 1 ? "lost" : "lost_again");
        Rng r = keyed(plan.seed, 0x0be2, helped);
        initial(r.uniform(-0.35, 0.35), r.uniform(-0.35, 0.35), r.uniform(-0.1, 0.1));
        settled = w.now + static_cast<i64>(RECOVERY * 1e9);
        end = settled + static_cast<i64>(TAIL * 1e9);
        w.after(static_cast<i64>(r.uniform(1.5, 3) * 1e9), look);
      };
    w.at(calm + S, look);

    while (!w.stop && w.now < end) {
      w.run_until(end);
    }
    if (!w.stop) {
      for (const auto & n : nodes) {
        Process * p = procs[n.name];
        if (!p || p->exited || p->dead || !p->exit_error.empty()) {
          w.fail("ended", n.name + " ended: " + (p ? p->exit_error : "never started"));
        }
      }
      const double expected = TAIL / plan.get("scan_period");
      const double ticks = TAIL * (plan.get("default_filter") != 0 ? 50 : plan.get("freq"));
      if (static_cast<double>(tail_estimates) < 0.6 * expected) {
        w.fail("no-estimates", fmt("%d estimates for %d scans after everything was calm",
          (int)tail_estimates, (int)expected));
      } else if (static_cast<double>(tail_odoms) < 0.6 * ticks) {
        w.fail("no-odometry", fmt("%d fused poses in %d periods after everything was calm",
          (int)tail_odoms, (int)ticks));
      }
      for (const std::string & t : {edge_map, surface_map}) {
        if (maps_seen[t] != 1) {
          w.fail("map-not-shown", fmt("%s was published %d times", t.c_str(), (int)maps_seen[t]));
        }
      }
      w.count("maps_published", maps_seen.size());
      if (mild) {
        w.count("stayed_near");
      } else {
        w.count(helped ? "recovered_helped" : "recovered_alone");
      }
    }
    w.note("worst %.3f %.3f of %d", worst, worst_angle, (int)n_odoms);
    if (getenv("C16_STATS")) {
      FILE * f = fopen(getenv("C16_STATS"), "a");
      fprintf(f, "%d %d %.3f %.3f %d %d\n", mild, (int)helped, worst, worst_angle, (int)n_estimates,
        (int)n_odoms);
      fclose(f);
    }
    o.nontrivial = struck > 0 && !w.stop;
    if (!w.stop) {
      w.finish();
    }
    o.state_hash = mix(w.hash, struck);
    collect(w, o);
    if (chdir(old) != 0) {
      abort();
    }
    remove_scratch_dir(dir);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  py_begin();
  C16 c;
  return harness_main(argc, argv, c);
}
