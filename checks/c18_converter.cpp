// C18: the converter that turns a lidar driver's clouds into the layout the
// extraction reads, against what the scans it took contain.
#include <cstring>

#include "lib/clouds.hpp"
#include "lib/faults.hpp"
#include "lib/msgs.hpp"
#include "pynode/py_node.hpp"

using namespace sim;

namespace
{

enum Kind {GOOD, EMPTY, NO_RING, NO_INTENSITY, NO_Y, RING_FLOAT, DEFAULT, CUT, LONGER, STEP_ZERO,
  OUTSIDE, BAD_TYPE, ROWS_PADDED, RING_TOO_BIG, KINDS};
const char * const KIND[] = {"good", "empty", "no_ring", "no_intensity", "no_y", "ring_float",
  "default", "cut", "longer", "step_zero", "outside", "bad_type", "rows_padded", "ring_too_big"};

struct Field
{
  std::string name;
  int type;
  int count = 1;
  std::uint32_t offset = 0;
};

// What the output has to have for a point
struct Want
{
  float x, y, z, intensity;
  std::uint16_t ring;
};

struct Sent
{
  CloudMsg msg;
  int kind = GOOD;
  std::vector<Want> want;
  bool finite = true;
};

void put(std::uint8_t * at, int type, double v, bool big)
{
  put_value(at, type, v);
  if (big) {
    std::reverse(at, at + field_size(type));
  }
}

Sent make(u64 seed, i64 stamp, int kind, bool plain)
{
  Rng r(seed * 104729 + 7);
  Sent s;
  s.kind = kind;
  // the types of what is kept
  const int ct = !plain && r.chance(0.04) ? F_FLOAT64 : F_FLOAT32;
  const int it = plain || r.chance(0.8) ? F_FLOAT32 : r.pick(std::vector<int>{F_UINT8, F_UINT16,
      F_FLOAT64, F_INT16});
  int rt = plain || r.chance(0.6) ? F_UINT16 : r.pick(std::vector<int>{F_UINT8, F_UINT32, F_INT32,
      F_INT16});
  if (kind == RING_FLOAT) {
    rt = F_FLOAT32;
  } else if (kind == RING_TOO_BIG) {
    rt = F_UINT32;
  }
  std::vector<Field> fields{{"x", ct}, {"y", ct}, {"z", ct}};
  std::vector<Field> rest{{"intensity", it}, {"ring", rt}};
  if (!plain) {
    static const std::vector<Field> extra{{"t", F_UINT32}, {"time", F_FLOAT32}, {"reflectivity", F_UINT16},
      {"noise", F_UINT16}, {"ambient", F_UINT16}, {"range", F_UINT32}, {"azimuth", F_FLOAT32},
      {"timestamp", F_FLOAT64}, {"return_type", F_UINT8}, {"padding", F_FLOAT32}, {"distance", F_FLOAT32},
      {"channel", F_INT8}, {"normal", F_FLOAT32, 3}, {"rgb", F_UINT8, 4}};
    for (int k = static_cast<int>(r.below(5)); k > 0; --k) {
      const Field & f = extra[r.below(r.chance(0.9) ? 12 : extra.size())];
      if (std::none_of(rest.begin(), rest.end(), [&](const Field & g) {return g.name == f.name;})) {
        rest.push_back(f);
      }
    }
    if (r.chance(0.5)) {
      for (size_t i = rest.size(); i > 1; --i) {
        std::swap(rest[i - 1], rest[r.below(i)]);
      }
    }
  }
  fields.insert(fields.end(), rest.begin(), rest.end());
  if (!plain && r.chance(0.1)) {
    for (size_t i = fields.size(); i > 1; --i) {
      std::swap(fields[i - 1], fields[r.below(i)]);
    }
  }
  // where they are: packed, aligned, or anywhere; often with a gap after z, as PCL has it
  const int place = plain ? 0 : static_cast<int>(r.below(4));
  std::uint32_t off = !plain && r.chance(0.03) ? static_cast<std::uint32_t>(r.below(9)) : 0;
  for (auto & f : fields) {
    const std::uint32_t size = static_cast<std::uint32_t>(field_size(f.type));
    if (place == 1) {
      off = (off + size - 1) / size * size;
    } else if (place == 2 && r.chance(0.3)) {
      off += static_cast<std::uint32_t>(r.below(9));
    } else if (place == 3 && off == 12) {
      off = 16;
    }
    f.offset = off;
    off += size * static_cast<std::uint32_t>(f.count);
  }
  const std::uint32_t step = off + (plain || r.chance(0.5) ? 0 : static_cast<std::uint32_t>(r.below(17)));
  const bool big = !plain && r.chance(0.1);
  size_t n = kind == EMPTY ? 0 : r.chance(0.1) ? r.below(3) : r.chance(0.02) ? 1500 : r.below(60);
  if ((kind == RING_TOO_BIG || kind == CUT || kind == LONGER || kind == RING_FLOAT ||
    kind == ROWS_PADDED) && n < 2)
  {
    n = 2;
  }
  const std::uint32_t height = n > 0 && r.chance(0.2) ? 1 + static_cast<std::uint32_t>(r.below(4)) : 1;
  n = n / height * height;
  if (kind == ROWS_PADDED && n == 0) {
    n = height;
  }

  CloudMsg & m = s.msg;
  m.header.stamp = stamp_of(stamp);
  m.header.frame_id = r.chance(0.8) ? "lidar" : r.chance(0.5) ? "" : fmt("velodyne_%d", (int)r.below(9));
  if (kind == DEFAULT) {
    return s;
  }
  m.is_bigendian = big;
  m.point_step = step;
  m.height = height;
  m.width = static_cast<std::uint32_t>(n / height);
  m.row_step = m.width * step;
  m.data.assign(n * step, 0);
  for (auto & b : m.data) {
    b = static_cast<std::uint8_t>(r.next());           // what is in the gaps
  }
  auto at = [&](const char * name) -> const Field & {
      return *std::find_if(fields.begin(), fields.end(), [&](const Field & f) {return f.name == name;});
    };
  const bool odd = !plain && r.chance(0.3);
  for (size_t i = 0; i < n; ++i) {
    Want p;
    const double scale = r.pick(std::vector<double>{1, 10, 100});
    auto coordinate = [&] {
        if (odd && r.chance(0.1)) {
          return r.pick(std::vector<float>{0.f, -0.f, 1e-42f, 3.4e38f, -3.4e38f, NAN, INFINITY,
              -INFINITY, 1.f});
        }
        return static_cast<float>(r.normal() * scale);
      };
    p.x = coordinate();
    p.y = coordinate();
    p.z = coordinate();
    if (r.chance(0.12)) {                                // nothing came back
      p.x = p.y = p.z = 0;
      if (odd && r.chance(0.3)) {
        p.y = -0.f;
      }
    }
    p.intensity = it == F_FLOAT32 || it == F_FLOAT64 ? static_cast<float>(r.uniform(0, 255)) :
      static_cast<float>(r.below(it == F_UINT8 ? 256 : 30000));
    p.ring = static_cast<std::uint16_t>(
      r.below(rt == F_UINT8 ? 256 : (rt == F_INT16 ? 32768 : (r.chance(0.7) ? 128 : 65536))));
    std::uint8_t * b = &m.data[i * step];
    put(b + at("x").offset, ct, p.x, big);
    put(b + at("y").offset, ct, p.y, big);
    put(b + at("z").offset, ct, p.z, big);
    put(b + at("intensity").offset, it, p.intensity, big);
    put(b + at("ring").offset, rt, kind == RING_TOO_BIG ? 65536.0 + p.ring : p.ring, big);
    s.finite = s.finite && std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z);
    if (!(p.x == 0 && p.y == 0 && p.z == 0)) {
      s.want.push_back(p);
    }
  }
  m.is_dense = s.finite;
  for (const auto & f : fields) {
    if ((kind == NO_RING && f.name == "ring") || (kind == NO_INTENSITY && f.name == "intensity") ||
      (kind == NO_Y && f.name == "y"))
    {
      continue;
    }
    sensor_msgs::msg::PointField pf;
    pf.name = f.name;
    pf.offset = f.offset;
    pf.datatype = static_cast<std::uint8_t>(f.type);
    pf.count = static_cast<std::uint32_t>(f.count);
    m.fields.push_back(pf);
  }
  auto field = [&](const char * name) -> sensor_msgs::msg::PointField & {
      return *std::find_if(m.fields.begin(), m.fields.end(), [&](const auto & f) {return f.name == name;});
    };
  // drivers need not list the fields in the order they have in memory
  if (!plain && r.chance(0.1)) {
    std::reverse(m.fields.begin(), m.fields.end());
  }
  switch (kind) {
    case CUT: m.data.resize(r.below(m.data.size())); break;
    case LONGER: m.data.resize(m.data.size() + 1 + r.below(2 * step)); break;
    case STEP_ZERO: m.point_step = 0; break;
    case OUTSIDE: field("ring").offset += step; break;
    case BAD_TYPE: field(r.chance(0.5) ? "x" : "ring").datatype =
        r.chance(0.5) ? 0 : static_cast<std::uint8_t>(9 + r.below(200)); break;
    case ROWS_PADDED:
      {
        const std::uint32_t gap = 1 + static_cast<std::uint32_t>(r.below(2 * step));
        std::vector<std::uint8_t> d;
        for (std::uint32_t k = 0; k < m.height; ++k) {
          d.insert(d.end(), m.data.begin() + k * m.row_step, m.data.begin() + (k + 1) * m.row_step);
          d.insert(d.end(), gap, 0x55);
        }
        m.data = d;
        m.row_step += gap;
      }
      break;
    default: break;
  }
  return s;
}

bool same(float a, float b) {return memcmp(&a, &b, 4) == 0 || (a != a && b != b);}

std::string differs(const CloudMsg & got, const Sent & s)
{
  RawCloud c;
  if (!from_msg(got, c)) {
    return "its layout does not fit its data";
  }
  if (got.row_step != got.width * got.point_step) {
    return "its rows do not have the length it says";
  }
  static const std::vector<FieldSpec> spec{{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32},
    {"intensity", F_FLOAT32}, {"ring", F_UINT16}};
  int k[5];
  for (int i = 0; i < 5; ++i) {
    k[i] = c.index(spec[i].name);
    if (k[i] < 0 || c.fields[k[i]].type != spec[i].type || got.fields[k[i]].count > 1) {
      return "field " + spec[i].name + " is missing or of another type";
    }
  }
  if (c.size() != s.want.size()) {
    return fmt("%zu points instead of %zu", c.size(), s.want.size());
  }
  for (size_t i = 0; i < c.size(); ++i) {
    const Want & w = s.want[i];
    auto f = [&](int j) {
        float v;
        memcpy(&v, &got.data[i * got.point_step + got.fields[k[j]].offset], 4);
        return v;
      };
    std::uint16_t ring;
    memcpy(&ring, &got.data[i * got.point_step + got.fields[k[4]].offset], 2);
    if (!same(f(0), w.x) || !same(f(1), w.y) || !same(f(2), w.z) || !same(f(3), w.intensity) ||
      ring != w.ring)
    {
      return fmt("point %zu of %zu is (%.9g, %.9g, %.9g) intensity %.9g ring %d instead of (%.9g, %.9g, "
               "%.9g) intensity %.9g ring %d", i, c.size(), f(0), f(1), f(2), f(3), ring, w.x, w.y, w.z,
               w.intensity, w.ring);
    }
  }
  if (s.finite && !got.is_dense) {
    return "a cloud without any point that is not finite is said to be not dense";
  }
  return "";
}

class C18 : public Check
{
public:
  std::string id() const override {return "C18";}
  std::string rule() const override
  {
    return "one run = one stream of scans with its message faults, stalls and restarts; non-trivial: at "
           "least 3 scans were compared and one point of theirs had to be left out";
  }
  std::string real_components() const override
  {
    return "point_type_converter with its main function, in an embedded CPython with the real numpy";
  }
  std::string stub_components() const override
  {
    return "rclpy, sensor_msgs and std_msgs for Python, the network, lidar driver and extraction";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"a scan whose layout is inconsistent, which lacks a field, or whose ring numbers do not fit "
      "16 bits yields at most one cloud, whatever that contains",
      "a scan whose rows have unused bytes behind them yields nothing or what it contains"};
  }
  std::vector<std::string> required_probes() const override
  {
    std::vector<std::string> v{"fault_loss", "fault_duplicate", "fault_delay", "fault_stall",
      "fault_crash", "compared", "left_out", "reordered", "not_finite", "plain"};
    for (int k = 0; k < KINDS; ++k) {
      v.push_back(std::string("took_") + KIND[k]);
    }
    return v;
  }
  u64 quick_runs() const override {return 20000;}
  u64 thorough_runs() const override {return 600000;}
  std::vector<std::string> shrinkable() const override {return {"exec", "reliable"};}
  void simplify(Op & o) const override
  {
    if (o.kind == "scan" && o.a.size() > 3) {
      o.a.resize(4);
      o.a[3] = 1;
    }
  }

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    p.cfg["exec"] = r.chance(0.5) ? 0 : r.uniform(0, 0.3);
    p.cfg["reliable"] = r.chance(0.5);
    p.cfg["epoch"] = r.pick(std::vector<double>{1, 1700000000, 2100000000});
    const Faults f = Faults::random(r, 1.0);
    const int n = static_cast<int>(r.range(1, thorough ? 40 : 14));
    const double bad = r.chance(0.5) ? 0 : r.uniform(0, 0.6);
    const bool one_driver = r.chance(0.5);
    const double driver = static_cast<double>(r.below(1000000));
    double t = 0.05;
    for (int i = 0; i < n; ++i) {
      t += r.chance(0.2) ? 0 : r.uniform(0.03, 0.15);
      Op o;
      o.t = static_cast<i64>(t * 1e9);
      o.kind = "scan";
      o.a = {one_driver && r.chance(0.8) ? driver : static_cast<double>(r.below(1000000)),
        r.chance(bad) ? static_cast<double>(1 + r.below(KINDS - 1)) : 0.0,
        static_cast<double>(r.chance(0.25))};
      f.add(o, r);
      p.ops.push_back(o);
    }
    for (int i = static_cast<int>(r.below(3)); i > 0; --i) {
      Op o;
      o.t = static_cast<i64>(r.uniform(0, t) * 1e9);
      o.kind = r.chance(0.6) ? "stall" : "crash";
      o.a = {r.uniform(0.01, 2) * 1e9};
      p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    auto & m = rclcpp::mw();
    const i64 offset = static_cast<i64>(plan.get("epoch", 1)) * 1000000000LL;
    std::map<i64, Sent> sent;
    std::vector<i64> next;
    Process * node = nullptr;
    i64 stalled_until = 0, last_stamp = INT64_MIN;
    u64 pending = 0, compared = 0, left_out = 0, published = 0, seen = 0, state = 0;
    const Sent * open = nullptr;
    u64 outputs = 0;

    auto spawn = [&] {
        node = w.spawn(
          "converter", [] {return run_py("point_type_converter", "listener");},
          [offset](Process & p) {p.clock_offset = offset;});
        pending = 0;
        open = nullptr;
        stalled_until = 0;
        last_stamp = INT64_MIN;
      };
    m.network = [&](const rclcpp::Link & l, const rclcpp::AnyMsg &) -> std::vector<i64> {
        if (l.topic != "/points_raw") {
          return {0};
        }
        Process * p = node;
        for (i64 d : next) {
          w.after(
            d, [&, p] {
              if (p == node && !node->dead) {
                ++pending;
              }
            });
        }
        return next;
      };
    m.on_overflow = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg &) {
        if (s.proc == node) {
          w.fail("dropped", "a scan that had arrived was dropped before the converter read it");
        }
      };
    m.on_take = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        if (s.type != typeid(CloudMsg)) {
          return;
        }
        if (s.proc != node) {
          ++seen;
          return;
        }
        const i64 stamp = ns_of(rclcpp::as<CloudMsg>(msg).header.stamp);
        open = &sent.at(stamp);
        outputs = 0;
        pending -= pending > 0;
        w.count(std::string("took_") + KIND[open->kind]);
        if (stamp < last_stamp) {
          w.count("reordered");
        }
        last_stamp = stamp;
        w.note("take %lld %s", (long long)stamp, KIND[open->kind]);
      };
    m.on_done = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg &) {
        if (s.proc != node || !open) {
          return;
        }
        if (outputs != 1 && (open->kind == GOOD || open->kind == EMPTY) && !w.stop) {
          w.fail("count", fmt("%llu clouds published for one scan", (unsigned long long)outputs));
        }
        open = nullptr;
      };
    m.on_publish = [&](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.proc != node || p.type != typeid(CloudMsg)) {
          return;
        }
        const CloudMsg & c = rclcpp::as<CloudMsg>(msg);
        if (p.topic != "/points_converted") {
          w.fail("topic", "a cloud was published on " + p.topic);
          return;
        }
        ++published;
        if (!open || ++outputs > 1) {
          w.fail("stray-output", "a cloud was published without a scan of its own");
          return;
        }
        if (ns_of(c.header.stamp) != ns_of(open->msg.header.stamp) ||
          c.header.frame_id != open->msg.header.frame_id)
        {
          w.fail("header", "a cloud has not the header of its scan");
          return;
        }
        w.hash_bytes(c.data.data(), c.data.size());
        if (open->kind != GOOD && open->kind != EMPTY && open->kind != ROWS_PADDED) {
          w.count("unusable_converted");
          return;
        }
        const std::string d = differs(c, *open);
        if (!d.empty()) {
          std::string layout;
          for (const auto & f : open->msg.fields) {
            layout += fmt(" %s@%u:%d", f.name.c_str(), f.offset, f.datatype);
          }
          w.fail("content", d + fmt(" (scan of %u byte points%s:%s)", open->msg.point_step,
            open->msg.is_bigendian ? ", big endian" : "", layout.c_str()));
          return;
        }
        const u64 size = static_cast<u64>(open->msg.width) * open->msg.height;
        w.count("compared");
        w.count("left_out", size - open->want.size());
        if (!open->finite) {
          w.count("not_finite");
        }
        ++compared;
        left_out += size - open->want.size();
        state = (state ^ hash_str(fmt("%u %zu %d", open->msg.point_step, open->msg.fields.size(),
          open->msg.is_bigendian))) * 1099511628211ULL;
      };
    const double ex = plan.get("exec");
    m.exec_time = [&, k = u64(0)](Process * p, const std::string &) mutable {
        std::pair<i64, i64> d{0, 0};
        if (p == node) {
          if (ex > 0) {
            Rng r = keyed(plan.seed, 0xE8EC, k++);
            d.first = static_cast<i64>(r.uniform(0, ex) * 1e9);
          }
          if (stalled_until > w.now) {
            d.first += stalled_until - w.now;
          }
        }
        return d;
      };

    w.spawn(
      "extraction", [] {
        rclcpp::init(0, static_cast<char **>(nullptr));
        auto n = std::make_shared<rclcpp::Node>("extraction");
        auto s = n->create_subscription<CloudMsg>(
          "points_converted", rclcpp::QoS(10).keep_all().reliable(), [](const CloudMsg::ConstSharedPtr) {});
        rclcpp::spin(n);
        return 0;
      });
    spawn();
    i64 serial = 0;
    for (const auto & op : plan.ops) {
      ++serial;
      w.at(
        op.t, [&, op, serial] {
          if (w.stop) {
            return;
          }
          if (op.kind == "scan") {
            const i64 stamp = offset + op.t + serial;
            Sent & s = sent[stamp];
            s = make(static_cast<u64>(op.a[0]), stamp, static_cast<int>(op.a[1]), op.a[2] != 0);
            if (op.a[2] != 0) {
              w.count("plain");
            }
            next = Faults::deliveries(w, op, 3);
            rclcpp::QoS q(5);
            plan.get("reliable") != 0 ? q.reliable() : q.best_effort();
            m.inject("/points_raw", s.msg, "lidar", q);
          } else if (op.kind == "stall") {
            w.count("fault_stall");
            stalled_until = std::max(stalled_until, w.now + static_cast<i64>(op.a[0]));
          } else if (op.kind == "crash" && !node->dead) {
            w.count("fault_crash");
            w.kill(node);
            w.after(static_cast<i64>(op.a[0]), [&] {if (node->dead) {spawn();}});
          }
        });
    }
    w.run_until(6000000000LL);
    for (int i = 0; i < 100 && pending > 0 && !w.stop && !node->dead && !node->exited; ++i) {
      w.run_until(w.now + 1000000000LL);
    }
    w.run_until(w.now + 1000000000LL);
    if ((node->dead || node->exited) && !w.stop) {
      w.fail("terminated", node->exit_error.empty() ? "the converter ended" : node->exit_error);
    }
    if (pending > 0 && !w.stop) {
      w.fail("lost", "a scan that had arrived was never read");
    }
    if (seen != published && !w.stop) {
      w.fail("unseen", fmt("%llu clouds published, %llu of them reached a reliable subscriber",
        (unsigned long long)published, (unsigned long long)seen));
    }
    o.nontrivial = compared >= 3 && left_out > 0;
    o.state_hash = state ^ w.hash;
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  py_begin();
  C18 c;
  return harness_main(argc, argv, c);
}
