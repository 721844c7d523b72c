// C13: what the extraction node puts out for each scan it takes: one consistent
// set, made of the scan's own points, whatever came before and in whatever
// order the points of different rings arrive.
#include "lib/extraction_sim.hpp"

using namespace sim;

namespace
{

const char * KIND[] = {"normal", "empty", "nan", "not_dense", "no_ring", "tiny", "axis", "huge",
  "ring_type", "no_y"};

class C13 : public Check
{
public:
  std::string id() const override {return "C13";}
  std::string rule() const override
  {
    return "one run = one sequence of well-formed and malformed scans with its message faults, "
           "stalls and restarts, then each taken scan again, rearranged, to a fresh node; "
           "non-trivial: at least two scans were compared with their repetition and had output";
  }
  std::string real_components() const override
  {
    return "lidar_feature_extraction node with its main function, lib, PCL conversions";
  }
  std::string stub_components() const override
  {
    return "rclcpp and message types (simulated), lidar driver";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"the layout a message declares fits its data",
      "where two different points of a ring share a direction their order in the message counts",
      "a scan declared not dense, or without ring channel, makes the node shut down in an orderly "
      "way, as its error message says; what it puts out meanwhile is not compared"};
  }
  std::vector<std::string> required_probes() const override
  {
    std::vector<std::string> v{"contract_checked", "compared", "shuffled", "rearranged", "reordered",
      "fault_loss", "fault_delay", "fault_duplicate", "fault_crash", "fault_stall",
      "refused_scan", "edge_points", "surface_points", "repeated_in_life"};
    for (int i = 0; i < SCAN_KINDS; ++i) {
      v.push_back(std::string("scan_") + KIND[i]);
    }
    return v;
  }
  u64 quick_runs() const override {return 40000;}
  u64 thorough_runs() const override {return 1000000;}
  std::vector<std::string> shrinkable() const override {return {"exec"};}
  void simplify(Op & o) const override
  {
    if (o.kind == "scan" && o.a[3] > 1) {
      o.a[3] -= 1;
    }
  }

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    ExtractParams::random(r).to_cfg(p);
    p.cfg["exec"] = r.chance(0.6) ? 0 : r.uniform(0, 0.2);
    const double bad = r.pick(std::vector<double>{0.0, 0.3, 0.7});
    ExtractionWorld::make_ops(
      p, r, thorough, [bad](Rng & q) {
        if (!q.chance(bad)) {
          return static_cast<int>(SCAN_NORMAL);
        }
        const int k = static_cast<int>(q.below(SCAN_KINDS));
        return (k == SCAN_NOT_DENSE || k == SCAN_NO_RING) && q.chance(0.6) ?
               static_cast<int>(SCAN_NAN) : k;
      });
    return p;
  }

  static std::string differs(const std::vector<Pt> & a, const std::vector<Pt> & b)
  {
    const PtCount x = count_points(a), y = count_points(b);
    for (const auto & [p, n] : x) {
      auto it = y.find(p);
      const int m = it == y.end() ? 0 : it->second;
      if (m != n) {
        return fmt("point (%.9g, %.9g, %.9g) %d times against %d times", p.x, p.y, p.z, n, m);
      }
    }
    for (const auto & [p, n] : y) {
      if (!x.count(p)) {
        return fmt("point (%.9g, %.9g, %.9g) 0 times against %d times", p.x, p.y, p.z, n);
      }
    }
    return "";
  }

  // within each scan: every output is made of the scan's points
  static bool contract(World & w, const ExtractParams & e, const TakenScan & t)
  {
    PtCount in;
    if (t.scan.kind == SCAN_NO_Y) {
      for (Pt p : t.scan.points) {
        p.y = 0;
        ++in[p];
      }
    } else {
      in = count_points(t.scan.points);
    }
    const PtCount edge = count_points(t.edge_pts), surface = count_points(t.surface_pts);
    const PtCount colored = count_points(t.colored_pts);
    auto n_of = [](const PtCount & c, const Pt & p) {
        auto it = c.find(p);
        return it == c.end() ? 0 : it->second;
      };
    for (const auto & [p, n] : colored) {
      if (n > n_of(in, p)) {
        w.fail("colored-foreign", fmt("coloured point (%.9g, %.9g, %.9g) %d times, in the scan %d "
          "times", p.x, p.y, p.z, n, n_of(in, p)));
        return false;
      }
    }
    for (int k = 0; k < 2; ++k) {
      for (const auto & [p, n] : k == 0 ? edge : surface) {
        const char * name = k == 0 ? "edge" : "surface";
        if (n > n_of(in, p)) {
          w.fail(std::string(name) + "-foreign", fmt("%s point (%.9g, %.9g, %.9g) %d times, in the "
            "scan %d times", name, p.x, p.y, p.z, n, n_of(in, p)));
          return false;
        }
        if (n_of(edge, p) + n_of(surface, p) > n_of(in, p)) {
          w.fail("edge-and-surface", fmt("point (%.9g, %.9g, %.9g) is both edge and surface", p.x,
            p.y, p.z));
          return false;
        }
        if (n > n_of(colored, p)) {
          w.fail(std::string(name) + "-not-colored", fmt("%s point (%.9g, %.9g, %.9g) is missing in "
            "the coloured cloud", name, p.x, p.y, p.z));
          return false;
        }
        const double x = p.x, y = p.y, d = std::sqrt(x * x + y * y);
        if (!(d >= e.min_range * (1 - 1e-9) && d <= e.max_range * (1 + 1e-9))) {
          w.fail(std::string(name) + "-out-of-range", fmt("%s point (%.9g, %.9g, %.9g) is at %.9g m, "
            "outside %g to %g", name, p.x, p.y, p.z, d, e.min_range, e.max_range));
          return false;
        }
      }
    }
    w.count("contract_checked");
    w.count("edge_points", t.edge_pts.size());
    w.count("surface_points", t.surface_pts.size());
    return true;
  }

  static bool order_matters(const Scan & s)
  {
    std::map<int, std::vector<Pt>> rings;
    for (const auto & p : s.points) {
      rings[p.ring].push_back(p);
    }
    for (auto & [id, pts] : rings) {
      std::vector<std::pair<long double, const Pt *>> a;
      for (const auto & p : pts) {
        if (!std::isfinite(p.x) || !std::isfinite(p.y)) {
          return true;
        }
        a.push_back({std::atan2(static_cast<long double>(p.y), static_cast<long double>(p.x)), &p});
      }
      std::sort(a.begin(), a.end(), [](const auto & x, const auto & y) {return x.first < y.first;});
      for (size_t i = 0; i + 1 < a.size(); ++i) {
        const Pt & p = *a[i].second, & q = *a[i + 1].second;
        if (a[i + 1].first - a[i].first < 1e-9L && !(p.x == q.x && p.y == q.y && p.z == q.z)) {
          return true;
        }
      }
    }
    return false;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    ExtractionWorld x(w, plan);
    std::vector<TakenScan> taken;
    std::map<std::pair<u64, i64>, size_t> in_life;
    u64 with_output = 0;
    x.on_scan = [&](TakenScan & t) {
        w.count(std::string("scan_") + KIND[t.scan.kind]);
        if (t.stops_node() || !contract(w, x.e, t)) {
          return;
        }
        const i64 stamp = ns_of(t.scan.msg.header.stamp);
        auto it = in_life.find({x.life, stamp});
        if (it != in_life.end()) {
          const TakenScan & u = taken[it->second];
          if (!(u.edge[0] == t.edge[0] && u.surface[0] == t.surface[0] &&
            u.colored[0] == t.colored[0]))
          {
            w.fail("repetition", fmt("scan %lld gave another result the second time",
              (long long)stamp));
            return;
          }
          w.count("repeated_in_life");
          return;
        }
        in_life[{x.life, stamp}] = taken.size();
        taken.push_back(t);
      };
    x.spawn();
    for (const auto & op : plan.ops) {
      if (op.kind == "scan" && (op.a[2] == SCAN_NOT_DENSE || op.a[2] == SCAN_NO_RING)) {
        w.count(std::string("scan_") + KIND[static_cast<int>(op.a[2])]);
      }
      w.at(op.t, [&x, op] {x.perform(op);});
    }
    w.run_until(60000000000LL);
    x.finish();
    const bool stop = w.stop;
    o.state_hash = w.hash;
    collect(w, o);
    w.finish();
    if (stop) {
      return o;
    }

    // each scan again, rearranged, to a node that has seen nothing else or
    // has seen the others in another order
    std::map<i64, const TakenScan *> by_stamp;
    for (const auto & t : taken) {
      by_stamp[ns_of(t.scan.msg.header.stamp)] = &t;
    }
    {
      World v(plan.seed + 1);
      v.tracing = trace;
      ExtractionWorld y(v, plan);
        u64 compared = 0;
      y.on_scan = [&](TakenScan & t) {
          const TakenScan & u = *by_stamp[ns_of(t.scan.msg.header.stamp)];
          const struct {const char * name; const std::vector<Pt> & a, & b;} outs[] = {
            {"edge", u.edge_pts, t.edge_pts}, {"surface", u.surface_pts, t.surface_pts},
            {"coloured", u.colored_pts, t.colored_pts}};
          for (const auto & k : outs) {
            const std::string d = differs(k.a, k.b);
            if (!d.empty()) {
              v.fail(
                std::string("depends-") + k.name, fmt(
                  "the %s cloud of scan %lld (%zu points) differs when its points come in another "
                  "order or after other scans: %s", k.name,
                  (long long)ns_of(t.scan.msg.header.stamp), t.scan.points.size(), d.c_str()));
              return;
            }
          }
          v.count("compared");
          ++compared;
          with_output += !t.edge_pts.empty() || !t.surface_pts.empty();
        };
      y.spawn();
      i64 at = 100000000;
      Rng r(plan.seed * 31 + 5);
      std::vector<const TakenScan *> order;
      for (const auto & [s, t] : by_stamp) {
        order.push_back(t);
      }
      for (size_t i = order.size(); i > 1; --i) {
        std::swap(order[i - 1], order[r.below(i)]);
      }
      for (const TakenScan * t : order) {
        at += 1000000000LL;
        Scan s = t->scan;
        if (s.kind == SCAN_NORMAL || s.kind == SCAN_TINY || s.kind == SCAN_AXIS ||
          s.kind == SCAN_HUGE || s.kind == SCAN_NAN)
        {
          const bool keep = order_matters(s) || s.kind == SCAN_HUGE;
          interleave(s.points, keep ? static_cast<int>(r.below(3)) : 3, r);
          v.count(keep ? "rearranged" : "shuffled");
          s.msg = scan_msg(s.points, ns_of(s.msg.header.stamp), s.msg.header.frame_id, r, s.kind);
        }
        v.at(
          at, [&y, &v, s, t] {
            if (!v.stop) {
              y.send(t->op, s, {0});
            }
          });
      }
      v.run_until(at + 60000000000LL);
      y.finish();
      if (!v.stop && compared < by_stamp.size()) {
        v.fail("not-taken", fmt("%zu of %zu scans were answered when sent one by one",
          static_cast<size_t>(compared), by_stamp.size()));
      }
      o.nontrivial = with_output >= 2;
      Outcome p;
      collect(v, p);
      o.violations.insert(o.violations.end(), p.violations.begin(), p.violations.end());
      o.hash ^= p.hash * 3;
      o.events += p.events;
      o.sim_seconds += p.sim_seconds;
      for (const auto & [k, n] : p.stats) {
        o.stats[k] += n;
      }
      o.trace.insert(o.trace.end(), p.trace.begin(), p.trace.end());
    }
    set_world(&w);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C13 c;
  return harness_main(argc, argv, c);
}
