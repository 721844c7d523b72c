// Lidar scans and an executable model of the extraction rules.
#ifndef SIM_LIB_SCANS_HPP_
#define SIM_LIB_SCANS_HPP_

#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "lib/clouds.hpp"
#include "lib/msgs.hpp"

namespace sim
{

struct ExtractParams
{
  int padding = 5;
  double neighbor_deg = 2.0, diff = 0.3, parallel = 0.02, edge = 0.05, surface = 0.05;
  double min_range = 0.1, max_range = 100.0;
  int blocks = 6;
  void to_cfg(Plan & p) const
  {
    p.cfg["padding"] = padding;
    p.cfg["neighbor_deg"] = neighbor_deg;
    p.cfg["diff"] = diff;
    p.cfg["parallel"] = parallel;
    p.cfg["edge"] = edge;
    p.cfg["surface"] = surface;
    p.cfg["min_range"] = min_range;
    p.cfg["max_range"] = max_range;
    p.cfg["blocks"] = blocks;
  }
  static ExtractParams from_cfg(const Plan & p)
  {
    ExtractParams e;
    e.padding = static_cast<int>(p.get("padding", e.padding));
    e.neighbor_deg = p.get("neighbor_deg", e.neighbor_deg);
    e.diff = p.get("diff", e.diff);
    e.parallel = p.get("parallel", e.parallel);
    e.edge = p.get("edge", e.edge);
    e.surface = p.get("surface", e.surface);
    e.min_range = p.get("min_range", e.min_range);
    e.max_range = p.get("max_range", e.max_range);
    e.blocks = static_cast<int>(p.get("blocks", e.blocks));
    return e;
  }
  void apply(Process & p) const
  {
    auto f = [](double v) {
        std::string s = fmt("%.17g", v);
        return s.find_first_of(".e") == std::string::npos ? s + ".0" : s;
      };
    const ExtractParams d;       // what is as the node has it without being told is not told
    auto given = [&](const char * name, double v, double standard, bool integer) {
        if (v != standard) {
          p.params[name] = integer ? fmt("%d", static_cast<int>(v)) : f(v);
        }
      };
    given("convolution_padding", padding, d.padding, true);
    given("neighbor_degree_threshold", neighbor_deg, d.neighbor_deg, false);
    given("distance_diff_threshold", diff, d.diff, false);
    given("parallel_beam_min_range_ratio", parallel, d.parallel, false);
    given("edge_threshold", edge, d.edge, false);
    given("surface_threshold", surface, d.surface, false);
    given("min_range", min_range, d.min_range, false);
    given("max_range", max_range, d.max_range, false);
    given("n_blocks", blocks, d.blocks, true);
  }
  static ExtractParams random(Rng & r)
  {
    ExtractParams e;
    const double k = r.uniform(0, 1);
    if (k < 0.25) {
      return e;
    }
    if (k < 0.4) {                      // as in the launch file
      e.padding = 2;
      e.neighbor_deg = 3.0;
      e.edge = 50.0;
      e.max_range = 1000.0;
      return e;
    }
    e.padding = static_cast<int>(r.range(1, 7));
    e.neighbor_deg = r.pick(std::vector<double>{0.7, 2.0, 3.0, 8.0, 30.0});
    e.diff = r.pick(std::vector<double>{0.05, 0.3, 1.0});
    e.parallel = r.pick(std::vector<double>{0.005, 0.02, 0.1});
    e.edge = r.pick(std::vector<double>{0.02, 0.05, 1.0, 50.0});
    e.surface = r.pick(std::vector<double>{0.005, 0.05, 0.5, 2.0});
    e.min_range = r.pick(std::vector<double>{0.1, 2.0, 5.0});
    e.max_range = r.pick(std::vector<double>{12.0, 30.0, 100.0});
    e.blocks = static_cast<int>(r.range(1, 9));
    return e;
  }
};

struct Pt
{
  float x = 0, y = 0, z = 0;
  int ring = 0;
};
struct PtLess
{
  bool operator()(const Pt & a, const Pt & b) const
  {
    return memcmp(key(a).data(), key(b).data(), 12) < 0;
  }
  static std::array<unsigned char, 12> key(const Pt & p)
  {
    std::array<unsigned char, 12> k;
    memcpy(&k[0], &p.x, 4);
    memcpy(&k[4], &p.y, 4);
    memcpy(&k[8], &p.z, 4);
    return k;
  }
};
using PtCount = std::map<Pt, int, PtLess>;

enum ScanKind {SCAN_NORMAL, SCAN_EMPTY, SCAN_NAN, SCAN_NOT_DENSE, SCAN_NO_RING, SCAN_TINY,
  SCAN_AXIS, SCAN_HUGE, SCAN_RING_TYPE, SCAN_NO_Y, SCAN_KINDS};

inline std::vector<Pt> random_ring(Rng & r, int ring, int n, bool odd)
{
  std::vector<Pt> pts;
  const int shape = static_cast<int>(r.below(5));
  const bool full = r.chance(0.5);
  const double span = full ? 2 * M_PI : r.uniform(0.05, 3.0);
  const double from = full ? -M_PI : r.uniform(-M_PI, M_PI - span);
  const double noise = r.pick(std::vector<double>{1e-4, 3e-3, 0.02, 0.1});
  const double ox = r.uniform(-2, 2), oy = r.uniform(-2, 2);
  const double half = r.uniform(4, 15);
  double walk = r.uniform(1, 20);
  const double step = r.pick(std::vector<double>{0.01, 0.1, 0.5});
  std::vector<std::pair<double, double>> poles;
  for (int i = static_cast<int>(r.below(6)); i > 0; --i) {
    poles.push_back({r.uniform(-M_PI, M_PI), r.uniform(0.5, 4)});
  }
  for (int i = 0; i < n; ++i) {
    const double a = from + span * (i + r.uniform(0.05, 0.95)) / n;
    double d = 0;
    if (shape == 0 || shape == 1) {      // walls of a square room
      const double c = std::cos(a), s = std::sin(a);
      const double tx = c > 0 ? (half - ox) / c : (c < 0 ? (-half - ox) / c : 1e9);
      const double ty = s > 0 ? (half - oy) / s : (s < 0 ? (-half - oy) / s : 1e9);
      d = std::min(tx, ty);
      if (shape == 1) {
        for (const auto & [pa, pd] : poles) {
          if (std::abs(wrap(a - pa)) < 0.15 / pd) {
            d = std::min(d, pd);
          }
        }
      }
    } else if (shape == 2) {
      walk = std::max(0.05, walk + r.normal() * step);
      if (r.chance(0.05)) {
        walk = r.uniform(0.05, 40);
      }
      d = walk;
    } else if (shape == 3) {
      d = r.uniform(0.05, 30);
    } else {
      d = walk;
    }
    d = std::max(0.01, d + r.normal() * noise);
    Pt p;
    p.x = static_cast<float>(d * std::cos(a));
    p.y = static_cast<float>(d * std::sin(a));
    p.z = static_cast<float>(ring + r.uniform(0, 0.5));
    p.ring = ring;
    if (p.x == 0) {p.x = 0;}
    if (p.y == 0) {p.y = 0;}
    pts.push_back(p);
  }
  if (odd && n > 0) {
    for (int k = static_cast<int>(r.range(1, 4)); k > 0; --k) {
      const size_t i = r.below(pts.size());
      switch (r.below(4)) {
        case 0:                              // the same point again
          pts.push_back(pts[i]);
          break;
        case 1:                              // a beam without return
          pts[i].x = pts[i].y = 0;
          break;
        case 2:                              // another echo of the same beam
          {
            Pt p = pts[i];
            p.x *= 2;
            p.y *= 2;
            pts.push_back(p);
          }
          break;
        default:                             // exactly on an axis
          pts[i].y = 0;
      }
    }
  }
  return pts;
}

struct Scan
{
  std::vector<Pt> points;         // in message order
  CloudMsg msg;
  int kind = SCAN_NORMAL;
  bool odd = false;
};

inline CloudMsg scan_msg(
  const std::vector<Pt> & pts, i64 stamp, const std::string & frame, Rng r, int kind)
{
  RawCloud c;
  c.fields = {{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32}};
  if (kind == SCAN_NO_Y) {
    c.fields.erase(c.fields.begin() + 1);
  }
  const bool extra = r.chance(0.4);
  if (extra) {
    c.fields.push_back({"time", r.chance(0.5) ? F_FLOAT32 : F_FLOAT64});
  }
  c.fields.push_back({"intensity", F_FLOAT32});
  if (kind != SCAN_NO_RING) {
    c.fields.push_back({"ring", kind == SCAN_RING_TYPE ? F_UINT8 : F_UINT16});
  }
  if (r.chance(0.3)) {
    c.fields.push_back({"azimuth", F_FLOAT32});
  }
  if (r.chance(0.2)) {
    std::reverse(c.fields.begin(), c.fields.end());
  }
  for (const auto & p : pts) {
    std::vector<double> v;
    for (const auto & f : c.fields) {
      v.push_back(
        f.name == "x" ? p.x : f.name == "y" ? p.y : f.name == "z" ? p.z :
        f.name == "ring" ? p.ring : r.uniform(0, 200));
    }
    c.points.push_back(v);
  }
  c.dense = kind != SCAN_NOT_DENSE;
  return to_msg(c, stamp, frame, static_cast<int>(r.below(4)));
}

// Interleavings of the points: 0 ring by ring, 1 column by column, 2 random but
// each ring in its own order, 3 fully random.
inline void interleave(std::vector<Pt> & pts, int how, Rng & r)
{
  if (how == 3) {
    for (size_t i = pts.size(); i > 1; --i) {
      std::swap(pts[i - 1], pts[r.below(i)]);
    }
    return;
  }
  std::map<int, std::vector<Pt>> rings;
  for (const auto & p : pts) {
    rings[p.ring].push_back(p);
  }
  std::vector<Pt> out;
  std::map<int, size_t> at;
  if (how == 0) {
    for (auto & [k, v] : rings) {
      out.insert(out.end(), v.begin(), v.end());
    }
  } else if (how == 1) {
    for (size_t i = 0; out.size() < pts.size(); ++i) {
      for (auto & [k, v] : rings) {
        if (i < v.size()) {
          out.push_back(v[i]);
        }
      }
    }
  } else {
    std::vector<int> ids;
    for (const auto & p : pts) {
      ids.push_back(p.ring);
    }
    for (size_t i = ids.size(); i > 1; --i) {
      std::swap(ids[i - 1], ids[r.below(i)]);
    }
    for (int id : ids) {
      out.push_back(rings[id][at[id]++]);
    }
  }
  pts = out;
}

inline Scan make_scan(u64 seed, i64 stamp, int kind, int rings, int how, bool odd,
  const ExtractParams & e)
{
  Rng r(seed * 7919 + 13);
  Scan s;
  s.kind = kind;
  s.odd = odd;
  std::vector<int> ids;
  const bool full = rings >= 1000;         // more points than 16 bits can count
  rings %= 1000;
  for (int i = 0; i < rings; ++i) {
    const int id = r.chance(0.1) ? static_cast<int>(r.below(65536)) : static_cast<int>(r.below(128));
    if (std::find(ids.begin(), ids.end(), id) == ids.end()) {
      ids.push_back(id);
    }
  }
  if (kind == SCAN_EMPTY) {
    ids.clear();
  }
  const int shortest = 2 * e.padding + e.blocks;
  for (int id : ids) {
    int n;
    if (full) {
      n = 72000 / rings;
    } else if (kind == SCAN_TINY) {
      n = static_cast<int>(r.below(12));
    } else if (r.chance(0.25)) {
      n = std::max(0, shortest + static_cast<int>(r.range(0, 2 * e.blocks + 2)) - e.blocks / 2 - 1);
    } else if (r.chance(0.1)) {
      n = static_cast<int>(r.below(2 * e.padding + 3));
    } else if (r.chance(0.001)) {
      n = static_cast<int>(r.range(1000, 4500));
    } else {
      n = static_cast<int>(r.range(20, 220));
    }
    auto p = random_ring(r, id, n, odd && r.chance(0.5));
    if (kind == SCAN_AXIS) {
      const int axis = static_cast<int>(r.below(5));
      for (auto & q : p) {
        const float d = std::abs(q.x) + 0.5f;
        q.x = axis == 0 ? d : axis == 1 ? -d : axis == 4 ? d : 0;
        q.y = axis == 2 ? d : axis == 3 ? -d : axis == 4 ? d : 0;
      }
    } else if (kind == SCAN_HUGE) {
      for (auto & q : p) {
        if (r.chance(0.2)) {
          q.x *= r.chance(0.5) ? 1e19f : 1e-19f;
        }
        if (r.chance(0.2)) {
          q.y *= r.chance(0.5) ? 1e19f : 1e-19f;
        }
      }
    } else if (kind == SCAN_NAN || (kind == SCAN_NOT_DENSE && r.chance(0.7))) {
      for (auto & q : p) {
        if (r.chance(0.1)) {
          (r.chance(0.5) ? q.x : q.y) = r.chance(0.6) ? NAN : (r.chance(0.5) ? INFINITY : -INFINITY);
        }
      }
    }
    s.points.insert(s.points.end(), p.begin(), p.end());
  }
  interleave(s.points, how, r);
  s.msg = scan_msg(s.points, stamp, r.chance(0.5) ? "lidar_feature_base_link" : "lidar", r, kind);
  return s;
}

// ------------------------------------------------------------------ the rules
enum RuleLabel {R_DEFAULT, R_EDGE, R_SURFACE, R_SUPPRESSED, R_OUT, R_OCCLUDED, R_PARALLEL};

struct RingModel
{
  bool processed = true;
  std::string why;
  bool ambiguous = false;         // a decision within rounding of its threshold
  std::vector<Pt> pts;            // by angle
  std::vector<int> label;
};

// Two points in a row on the axis of the lidar have no directions to compare. Such a ring is refused;
// or it may be processed, with the two taken to be apart or next to each other.
enum NoDirection {ND_REFUSE, ND_APART, ND_NEXT};

inline RingModel model_ring(
  std::vector<Pt> pts, const ExtractParams & e, NoDirection no_direction = ND_REFUSE)
{
  RingModel m;
  const int n = static_cast<int>(pts.size());
  const int pad = e.padding;
  auto angle = [](const Pt & p) {
      return std::atan2(static_cast<long double>(p.y), static_cast<long double>(p.x));
    };
  std::stable_sort(
    pts.begin(), pts.end(), [&](const Pt & a, const Pt & b) {return angle(a) < angle(b);});
  m.pts = pts;
  m.label.assign(n, R_DEFAULT);
  auto refuse = [&](const char * why) {
      m.processed = false;
      m.why = why;
      return m;
    };
  std::vector<double> range(n);
  for (int i = 0; i < n; ++i) {
    const double x = pts[i].x, y = pts[i].y;
    range[i] = std::sqrt(x * x + y * y);
    if (!std::isfinite(range[i]) || range[i] > 1e6 || (range[i] != 0 && range[i] < 1e-6)) {
      m.ambiguous = true;
    }
  }
  // ties in angle: fine between equal points, otherwise the order is open
  for (int i = 0; i + 1 < n; ++i) {
    if (angle(pts[i + 1]) - angle(pts[i]) < 1e-9L &&
      (pts[i].x != pts[i + 1].x || pts[i].y != pts[i + 1].y || pts[i].z != pts[i + 1].z) &&
      !(range[i] == 0 && range[i + 1] == 0))
    {
      m.ambiguous = true;
    }
    if (range[i] == 0 && range[i + 1] != 0 && angle(pts[i + 1]) == 0) {
      m.ambiguous = true;
    }
  }
  if (n < 2 * pad + 1) {
    return refuse("short");
  }
  const int inner = n - 2 * pad;
  if (inner < e.blocks) {
    return refuse("blocks");
  }
  std::vector<int> bound(e.blocks + 1);
  for (int j = 0; j <= e.blocks; ++j) {
    bound[j] = pad + static_cast<int>(static_cast<long long>(inner) * j / e.blocks);
    // the split is computed in floating point: an exact quotient may fall short
    const double f = pad * (1. - j / static_cast<double>(e.blocks)) +
      (n - pad) * static_cast<double>(j) / e.blocks;
    if (static_cast<int>(f) != bound[j]) {
      m.ambiguous = true;
    }
  }
  for (int j = 0; j < e.blocks; ++j) {
    if (bound[j + 1] - bound[j] < 2) {
      return refuse("block_of_one");
    }
  }
  for (int i = 0; i + 1 < n; ++i) {
    if (range[i] == 0 && range[i + 1] == 0 && no_direction == ND_REFUSE) {
      return refuse("no_direction");
    }
  }
  if (m.ambiguous) {
    return m;
  }

  const double limit = e.neighbor_deg * M_PI / 180;
  std::vector<char> next(n, 0);        // i and i+1 are neighbours
  for (int i = 0; i + 1 < n; ++i) {
    if (range[i] == 0 || range[i + 1] == 0) {
      next[i] = range[i] == range[i + 1] && no_direction == ND_NEXT;
      continue;
    }
    // also across the cut, where an arc that ends there has a point on the negative x axis
    const double forward = static_cast<double>(angle(pts[i + 1]) - angle(pts[i]));
    const double d = std::min(forward, 2 * M_PI - forward);
    next[i] = d < limit;
    m.ambiguous |= std::abs(d - limit) < 1e-6;
  }
  auto linked = [&](int i, int j) {     // a chain of neighbours from i to j
      for (int k = std::min(i, j); k < std::max(i, j); ++k) {
        if (!next[k]) {
          return false;
        }
      }
      return true;
    };

  const double rmax = *std::max_element(range.begin(), range.end());
  const double eps = 1e-9 * (1 + rmax);
  std::vector<double> dev(n, 0);        // curvature is its square
  for (int i = pad; i < n - pad; ++i) {
    double s = 0;
    for (int k = 1; k <= pad; ++k) {
      s += (range[i - k] - range[i]) + (range[i + k] - range[i]);
    }
    dev[i] = std::abs(s);
  }

  const double edge = std::sqrt(e.edge), surf = std::sqrt(e.surface);
  for (int j = 0; j < e.blocks; ++j) {
    const int b = bound[j], end = bound[j + 1];
    std::vector<int> order;
    for (int i = b; i < end; ++i) {
      order.push_back(i);
      m.ambiguous |= std::abs(dev[i] - edge) < eps || std::abs(dev[i] - surf) < eps;
    }
    std::sort(order.begin(), order.end(), [&](int x, int y) {return dev[x] < dev[y];});
    for (size_t k = 0; k + 1 < order.size(); ++k) {
      m.ambiguous |= dev[order[k + 1]] - dev[order[k]] < eps &&
        (dev[order[k]] <= surf || dev[order[k + 1]] >= edge);
    }
    auto select = [&](int i, int label) {
        for (int k = std::max(b, i - pad); k < std::min(end, i + pad + 1); ++k) {
          if (linked(i, k)) {
            m.label[k] = R_SUPPRESSED;
          }
        }
        m.label[i] = label;
      };
    for (auto it = order.rbegin(); it != order.rend(); ++it) {
      if (dev[*it] >= edge && m.label[*it] == R_DEFAULT) {
        select(*it, R_EDGE);
      }
    }
    for (int i : order) {
      if (dev[i] <= surf && m.label[i] == R_DEFAULT) {
        select(i, R_SURFACE);
      }
    }
  }
  // what is behind a nearer object, seen from the object's side
  for (int i = 0; i + 1 < n; ++i) {
    if (!next[i]) {
      continue;
    }
    const double d = range[i + 1] - range[i];
    m.ambiguous |= std::abs(std::abs(d) - e.diff) < eps;
    if (d > e.diff && i <= n - pad - 2) {
      for (int k = i + 1; k <= i + pad + 1 && linked(i + 1, k); ++k) {
        m.label[k] = R_OCCLUDED;
      }
    }
    if (-d > e.diff && i >= pad) {
      for (int k = i; k >= i - pad && linked(k, i); --k) {
        m.label[k] = R_OCCLUDED;
      }
    }
  }
  for (int i = 0; i < n; ++i) {
    m.ambiguous |= std::abs(range[i] - e.min_range) < eps || std::abs(range[i] - e.max_range) < eps;
    if (range[i] < e.min_range || range[i] > e.max_range) {
      m.label[i] = R_OUT;
    }
    if (i > 0 && i + 1 < n) {
      const double a = std::abs(range[i - 1] - range[i]) / range[i];
      const double b = std::abs(range[i + 1] - range[i]) / range[i];
      m.ambiguous |= std::abs(a - e.parallel) < 1e-6 || std::abs(b - e.parallel) < 1e-6;
      if (a > e.parallel && b > e.parallel) {
        m.label[i] = R_PARALLEL;
      }
    }
  }
  return m;
}

}  // namespace sim

#endif  // SIM_LIB_SCANS_HPP_
