// The extraction node in a simulated world: scans arrive with message faults,
// the node stalls, crashes and restarts.
#ifndef SIM_LIB_EXTRACTION_SIM_HPP_
#define SIM_LIB_EXTRACTION_SIM_HPP_

#include "lib/faults.hpp"
#include "lib/msgs.hpp"
#include "lib/scans.hpp"

SIM_MAIN(extraction)

namespace sim
{

struct TakenScan
{
  Op op;
  Scan scan;
  u64 life = 0;
  std::vector<CloudMsg> edge, surface, colored;
  std::vector<Pt> edge_pts, surface_pts, colored_pts;
  bool stops_node() const {return scan.kind == SCAN_NOT_DENSE || scan.kind == SCAN_NO_RING;}
};

inline bool points_of(const CloudMsg & m, std::vector<Pt> & out)
{
  RawCloud c;
  if (!from_msg(m, c)) {
    return false;
  }
  const int ix = c.index("x"), iy = c.index("y"), iz = c.index("z");
  if (ix < 0 || iy < 0 || iz < 0) {
    return false;
  }
  out.clear();
  for (const auto & p : c.points) {
    Pt q;
    q.x = static_cast<float>(p[ix]);
    q.y = static_cast<float>(p[iy]);
    q.z = static_cast<float>(p[iz]);
    out.push_back(q);
  }
  return true;
}

// The colours of a cloud's points, in its order; none when it has no colours
inline std::vector<std::uint32_t> colors_of(const CloudMsg & m)
{
  std::vector<std::uint32_t> out;
  for (const auto & f : m.fields) {
    if (f.name == "rgb" || f.name == "rgba") {
      for (size_t k = 0; k < static_cast<size_t>(m.width) * m.height; ++k) {
        std::uint32_t c = 0;
        const size_t at = k * m.point_step + f.offset;
        if (at + 4 > m.data.size()) {
          return {};
        }
        memcpy(&c, &m.data[at], 4);
        out.push_back(c & 0xffffff);
      }
      return out;
    }
  }
  return out;
}

inline PtCount count_points(const std::vector<Pt> & v)
{
  PtCount c;
  for (const auto & p : v) {
    ++c[p];
  }
  return c;
}

class ExtractionWorld
{
public:
  ExtractionWorld(World & world, const Plan & plan)
  : w(world), e(ExtractParams::from_cfg(plan)), exec_(plan.get("exec")),
    epoch_(static_cast<i64>(plan.get("epoch", 5))), seed_(plan.seed)
  {
    auto & m = rclcpp::mw();
    m.network = [this](const rclcpp::Link & l, const rclcpp::AnyMsg &) -> std::vector<i64> {
        return l.topic == "/points_raw" ? next_ : std::vector<i64>{0};
      };
    m.exec_time = [this, k = u64(0)](Process *, const std::string &) mutable {
        std::pair<i64, i64> d{0, 0};
        if (exec_ > 0) {
          Rng r = keyed(seed_, 0xE8EC, k++);
          d.first = static_cast<i64>(r.uniform(0, exec_) * 1e9);
          d.second = static_cast<i64>(r.uniform(0, exec_) * 1e9);
        }
        if (stalled_until_ > w.now) {
          d.first += stalled_until_ - w.now;
        }
        return d;
      };
    m.on_overflow = [this](rclcpp::SubBase &, const rclcpp::AnyMsg &) {w.count("fault_overflow");};
    m.on_take = [this](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        if (s.proc != node || s.type != typeid(CloudMsg)) {
          return;
        }
        auto it = sent_.find(ns_of(rclcpp::as<CloudMsg>(msg).header.stamp));
        current_ = TakenScan();
        open_ = it != sent_.end();
        if (!open_) {
          return;
        }
        current_.op = it->second.first;
        current_.scan = it->second.second;
        current_.life = life;
        if (last_stamp_ > it->first) {
          w.count("reordered");
        }
        last_stamp_ = it->first;
        w.note("take %lld", (long long)it->first);
        ++takes;
      };
    m.on_publish = [this](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.proc != node || p.type != typeid(CloudMsg)) {
          return;
        }
        const CloudMsg & c = rclcpp::as<CloudMsg>(msg);
        w.note("out %s %u", p.topic.c_str(), c.width * c.height);
        w.hash_bytes(c.data.data(), c.data.size());
        if (!open_) {
          w.fail("stray-output", "a cloud was published on " + p.topic + " without a scan");
          return;
        }
        if (p.topic == "/scan_edge") {
          current_.edge.push_back(c);
        } else if (p.topic == "/scan_surface") {
          current_.surface.push_back(c);
        } else if (p.topic == "/colored_scan") {
          current_.colored.push_back(c);
        }
      };
    m.on_done = [this](rclcpp::SubBase & s, const rclcpp::AnyMsg &) {
        if (s.proc != node || !open_) {
          return;
        }
        open_ = false;
        if (!w.stop) {
          complete();
        }
      };
  }

  void spawn()
  {
    ++life;
    last_stamp_ = INT64_MIN;
    open_ = false;
    stalled_until_ = 0;
    node = w.spawn(
      "extraction", [] {return run_main_extraction();}, [this](Process & p) {
        e.apply(p);
        p.clock_offset = 1000000000LL;
      });
  }

  void send(const Op & op, const Scan & s, std::vector<i64> delays)
  {
    sent_[ns_of(s.msg.header.stamp)] = {op, s};
    next_ = std::move(delays);
    rclcpp::mw().inject("/points_raw", s.msg, "driver", rclcpp::QoS(10).reliable());
  }

  void perform(const Op & op)
  {
    if (w.stop) {
      return;
    }
    if (op.kind == "scan") {
      const Scan s = make_scan(
        static_cast<u64>(op.a[1]), epoch_ * 1000000000LL + static_cast<i64>(op.a[0]),
          static_cast<int>(op.a[2]), static_cast<int>(op.a[3]), static_cast<int>(op.a[4]),
          op.a[5] != 0, e);
      send(op, s, Faults::deliveries(w, op, 6));
    } else if (op.kind == "stall") {
      w.count("fault_stall");
      stalled_until_ = w.now + static_cast<i64>(op.a[0]);
    } else if (op.kind == "crash") {
      if (node && !node->dead && !node->exited) {
        w.count("fault_crash");
        w.kill(node);
        open_ = false;
        w.after(static_cast<i64>(op.a[0]), [this] {spawn();});
      }
    }
  }

  // scans that were delivered must have been taken
  void finish()
  {
    if (w.stop || !node) {
      return;
    }
    if (!node->exit_error.empty() || (node->exited && node->exit_code != 0)) {
      w.fail("terminated", "the node ended: " + node->exit_error);
      return;
    }
    for (auto * s : rclcpp::mw().topics["/points_raw"].subs) {
      if (s->proc == node && !node->exited && !s->queue.empty()) {
        w.fail("not-taken", fmt("%zu scans were never taken", s->queue.size()));
        return;
      }
    }
  }

  static void make_ops(Plan & p, Rng & r, bool thorough, const std::function<int(Rng &)> & kind)
  {
    const Faults f = Faults::random(r, 1.0);
    p.cfg["epoch"] = r.pick(std::vector<double>{5, 1700000000});
    const bool many = r.chance(0.002), full = r.chance(0.0003);    // rings, points
    const int n = full ? 2 : static_cast<int>(r.range(1, thorough ? 8 : 5));
    double t = 0.2;
    const double period = r.pick(std::vector<double>{0.02, 0.1, 0.5});
    for (int i = 0; i < n; ++i) {
      t += period * r.uniform(0.5, 1.5);
      Op o;
      o.t = static_cast<i64>(t * 1e9);
      o.kind = "scan";
      o.a = {static_cast<double>(i * 100000000LL + static_cast<i64>(r.below(1000))),
        static_cast<double>(r.below(100000000)), static_cast<double>(kind(r)),
        static_cast<double>(
          full ? 1000 + r.range(16, 64) : many ? r.range(32, 130) : r.range(1, thorough ? 12 : 6)),
        static_cast<double>(r.below(4)),
        static_cast<double>(r.chance(0.4))};
      f.add(o, r);
      p.ops.push_back(o);
    }
    for (int i = static_cast<int>(r.below(3)); i > 0 && r.chance(0.6); --i) {
      Op o;
      o.t = static_cast<i64>(r.uniform(0.1, t + 0.5) * 1e9);
      o.kind = r.chance(0.5) ? "stall" : "crash";
      o.a = {r.uniform(0.01, 1) * 1e9};
      p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
  }

  World & w;
  ExtractParams e;
  Process * node = nullptr;
  u64 life = 0, takes = 0;
  std::function<void (TakenScan &)> on_scan;

private:
  void complete()
  {
    TakenScan & t = current_;
    if (t.stops_node()) {
      w.count("refused_scan");
      if (!node->ok) {
        // shut down as documented; whoever supervises it starts it again
        Process * p = node;
        w.after(100000000, [this, p] {if (node == p) {restart();}});
        return;
      }
    }
    struct {const char * name; std::vector<CloudMsg> & v; std::vector<Pt> & pts;} outs[] = {
      {"scan_edge", t.edge, t.edge_pts}, {"scan_surface", t.surface, t.surface_pts},
      {"colored_scan", t.colored, t.colored_pts}};
    for (auto & o : outs) {
      if (o.v.size() != 1) {
        w.fail("output-count", fmt("%zu clouds on %s for one scan", o.v.size(), o.name));
        return;
      }
      const CloudMsg & c = o.v[0];
      if (!(c.header.stamp == t.scan.msg.header.stamp)) {
        w.fail("output-stamp", fmt("%s is stamped %.9f, the scan %.9f", o.name,
          ns_of(c.header.stamp) / 1e9, ns_of(t.scan.msg.header.stamp) / 1e9));
        return;
      }
      if (c.header.frame_id != "lidar_feature_base_link") {
        w.fail("output-frame", std::string(o.name) + " is in frame " + c.header.frame_id);
        return;
      }
      if (!points_of(c, o.pts)) {
        w.fail("output-layout", std::string(o.name) + " has an inconsistent layout");
        return;
      }
    }
    if (on_scan) {
      on_scan(t);
    }
  }
  void restart()
  {
    if (!node->exit_error.empty() || (node->exited && node->exit_code != 0)) {
      w.fail("terminated", "the node ended: " + node->exit_error);
      return;
    }
    if (!node->exited) {
      w.kill(node);
    }
    w.count("restart_after_refusal");
    spawn();
  }
  double exec_;
  i64 epoch_;
  u64 seed_;
  std::vector<i64> next_;
  i64 stalled_until_ = 0, last_stamp_ = INT64_MIN;
  std::map<i64, std::pair<Op, Scan>> sent_;
  TakenScan current_;
  bool open_ = false;
};

}  // namespace sim

#endif  // SIM_LIB_EXTRACTION_SIM_HPP_
