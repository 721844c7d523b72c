// C17: the edge and surface points the extraction node publishes against an
// independent model of the extraction rules.
#include "lib/extraction_sim.hpp"

using namespace sim;

namespace
{

class C17 : public Check
{
public:
  std::string id() const override {return "C17";}
  std::string rule() const override
  {
    return "one run = one parameter setting and one sequence of scans with its message faults, "
           "stalls and restarts; non-trivial: at least two rings were compared point by point and "
           "an edge or a surface was among them";
  }
  std::string real_components() const override
  {
    return "lidar_feature_extraction node with its main function, lib, PCL conversions";
  }
  std::string stub_components() const override
  {
    return "rclcpp and message types (simulated), lidar driver";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"rings in which a decision lies within rounding of its threshold, or in which two "
      "different points share a direction, are not compared (counted as ambiguous_rings)"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"rings_compared", "edges", "surfaces", "occluded", "out_of_range", "parallel",
      "suppressed", "refused_short", "refused_blocks", "refused_block_of_one",
      "rings_no_direction", "refused_among_others", "reordered", "fault_loss", "fault_delay",
      "fault_duplicate", "fault_crash", "fault_stall"};
  }
  u64 quick_runs() const override {return 40000;}
  u64 thorough_runs() const override {return 1000000;}
  std::vector<std::string> shrinkable() const override {return {"exec"};}
  void simplify(Op & o) const override
  {
    if (o.kind == "scan" && o.a[3] > 1) {
      o.a[3] -= 1;
    }
  }

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    ExtractParams::random(r).to_cfg(p);
    p.cfg["exec"] = r.chance(0.6) ? 0 : r.uniform(0, 0.2);
    ExtractionWorld::make_ops(
      p, r, thorough, [](Rng & q) {return q.chance(0.08) ? SCAN_TINY : SCAN_NORMAL;});
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    ExtractionWorld x(w, plan);
    u64 compared = 0, found = 0, state = 0;
    std::map<int, std::set<std::uint32_t>> color_by_fate;
    std::map<std::uint32_t, int> fate_by_color;
    x.on_scan = [&](TakenScan & t) {
        std::map<int, std::vector<Pt>> rings;
        for (const auto & p : t.scan.points) {
          rings[p.ring].push_back(p);
        }
        std::map<Pt, int, PtLess> ring_of;
        for (const auto & p : t.scan.points) {
          auto [it, fresh] = ring_of.insert({p, p.ring});
          if (!fresh && it->second != p.ring) {
            it->second = -1;
          }
        }
        std::map<int, std::vector<Pt>> out[3];
        const std::vector<Pt> * src[3] = {&t.edge_pts, &t.surface_pts, &t.colored_pts};
        const char * name[3] = {"edge", "surface", "coloured"};
        for (int k = 0; k < 3; ++k) {
          for (const auto & p : *src[k]) {
            auto it = ring_of.find(p);
            if (it == ring_of.end()) {
              w.fail("foreign-point", fmt("%s point (%g, %g, %g) is not in the scan", name[k], p.x,
                p.y, p.z));
              return;
            }
            out[k][it->second].push_back(p);
          }
        }
        // the colour of each point that is there once
        const std::vector<std::uint32_t> colors = colors_of(t.colored[0]);
        if (colors.size() != t.colored_pts.size()) {
          w.fail("no-colour", fmt("%zu coloured points with %zu colours", t.colored_pts.size(),
            colors.size()));
          return;
        }
        const PtCount colored = count_points(t.colored_pts);
        std::map<Pt, std::uint32_t, PtLess> color_of;
        for (size_t i = 0; i < colors.size(); ++i) {
          if (colored.at(t.colored_pts[i]) == 1) {
            color_of[t.colored_pts[i]] = colors[i];
          }
        }
        bool refused = false, processed = false;
        for (auto & [id, pts] : rings) {
          RingModel m = model_ring(pts, x.e);
          if (m.ambiguous) {
            w.count("ambiguous_rings");
            continue;
          }
          if (m.why == "no_direction") {
            w.count("rings_no_direction");
          }
          std::string kind, what;
          u64 n[3] = {0, 0, 0};
          auto matches = [&]() {
              PtCount want[3];
              n[0] = n[1] = n[2] = 0;
              for (size_t i = 0; m.processed && i < m.pts.size(); ++i) {
                if (m.label[i] == R_EDGE || m.label[i] == R_SURFACE) {
                  const int k = m.label[i] == R_EDGE ? 0 : 1;
                  ++want[k][m.pts[i]];
                  ++n[k];
                }
                ++want[2][m.pts[i]];
                ++n[2];
              }
              for (int k = 0; k < 3; ++k) {
                PtCount got = count_points(out[k][id]);
                for (const auto & [p, c] : want[k]) {
                  if (got[p] != c) {
                    kind = std::string(got[p] < c ? "missing-" : "extra-") + name[k];
                    what = fmt(
                      "ring %d (%zu points): point (%.9g, %.9g, %.9g) is %d times among the %s "
                      "points, %d times expected", id, pts.size(), p.x, p.y, p.z, got[p], name[k], c);
                    return false;
                  }
                }
                for (const auto & [p, c] : got) {
                  if (c && !want[k].count(p)) {
                    int label = -1;
                    for (size_t i = 0; i < m.pts.size(); ++i) {
                      if (!PtLess()(p, m.pts[i]) && !PtLess()(m.pts[i], p)) {
                        label = m.label[i];
                      }
                    }
                    kind = std::string("extra-") + name[k];
                    what = fmt(
                      "ring %d (%zu points%s%s): point (%.9g, %.9g, %.9g) must not be among the %s "
                      "points, the rules make it %d", id, pts.size(), m.processed ? "" : ", refused: ",
                      m.why.c_str(), p.x, p.y, p.z, name[k], label);
                    return false;
                  }
                }
              }
              return true;
            };
          if (!matches()) {
            const std::string kind0 = kind, what0 = what;
            bool other = false;
            for (auto nd : {ND_APART, ND_NEXT}) {
              if (other || m.why == "no_direction") {
                m = model_ring(pts, x.e, nd);
                other = true;
                if (m.ambiguous || matches()) {
                  kind.clear();
                  break;
                }
              }
            }
            if (!kind.empty()) {
              w.fail(kind0, what0);
              return;
            }
            if (m.ambiguous) {
              w.count("ambiguous_rings");
              continue;
            }
          }
          if (m.processed) {
            processed = true;
            for (int label : m.label) {
              switch (label) {
                case R_EDGE: w.count("edges"); break;
                case R_SURFACE: w.count("surfaces"); break;
                case R_OCCLUDED: w.count("occluded"); break;
                case R_OUT: w.count("out_of_range"); break;
                case R_PARALLEL: w.count("parallel"); break;
                case R_SUPPRESSED: w.count("suppressed"); break;
                default: break;
              }
            }
            state = mix_hash(state, n[0] * 1000003 + n[1]);
          } else {
            refused = true;
            w.count("refused_" + m.why);
          }
          // One colour for each fate of a point. Edges and surfaces, both being features, may share
          // one, and those suppressed by the one or the other may have two.
          for (size_t i = 0; m.processed && i < m.pts.size(); ++i) {
            auto it = color_of.find(m.pts[i]);
            if (it == color_of.end()) {
              continue;
            }
            const int fate = m.label[i];
            const int group = fate == R_SURFACE ? R_EDGE : fate;
            auto & c = color_by_fate[fate];
            c.insert(it->second);
            auto f = fate_by_color.insert({it->second, group});
            if (c.size() > (fate == R_SUPPRESSED ? 2u : 1u) || f.first->second != group) {
              w.fail("colour", fmt("ring %d: point (%.9g, %.9g, %.9g), which the rules make %d, has colour "
                "%06x, which does not tell it from others", id, m.pts[i].x, m.pts[i].y, m.pts[i].z, fate,
                it->second));
              return;
            }
            w.count("colours_compared");
          }
          w.count("rings_compared");
          ++compared;
          found += n[0] + n[1];
        }
        if (refused && processed) {
          w.count("refused_among_others");
        }
      };
    x.spawn();
    for (const auto & op : plan.ops) {
      w.at(op.t, [&x, op] {x.perform(op);});
    }
    w.run_until(60000000000LL);
    x.finish();
    o.nontrivial = compared >= 2 && found > 0;
    o.state_hash = state ^ w.hash;
    collect(w, o);
    return o;
  }
  static u64 mix_hash(u64 a, u64 b) {return (a ^ b) * 1099511628211ULL + (a >> 31);}
};

}  // namespace

int main(int argc, char ** argv)
{
  C17 c;
  return harness_main(argc, argv, c);
}
