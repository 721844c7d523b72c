// C15: map server, view frame generator and their consumers, started, crashed
// and restarted in any order, with good and bad map files.
#include <unistd.h>

#include <pcl/io/pcd_io.h>

#include "lib/clouds.hpp"
#include "lib/faults.hpp"
#include "lib/msgs.hpp"

using namespace sim;

namespace
{

using Tf = tf2_msgs::msg::TFMessage;

int component_main(const char * name)
{
  rclcpp::init(0, static_cast<char **>(nullptr));
  auto & f = rclcpp::components().factories;
  auto it = f.find(name);
  if (it == f.end()) {
    throw std::runtime_error(std::string("component not registered: ") + name);
  }
  rclcpp::spin(it->second(rclcpp::NodeOptions()));
  rclcpp::shutdown();
  return 0;
}

const char * BAD[] = {"missing", "empty", "garbage", "no_data", "truncated", "no_magic_fields",
  "too_many_points", "directory", "unset"};

struct MapFile
{
  bool usable = true;
  RawCloud cloud;
  std::string path;
};

struct Mean
{
  double v[3] = {0, 0, 0};
  double scale = 0;
  size_t n = 0;
};

Mean mean_of(const RawCloud & c)
{
  Mean m;
  const int ix = c.index("x"), iy = c.index("y"), iz = c.index("z");
  long double s[3] = {0, 0, 0};
  for (const auto & p : c.points) {
    const double x[3] = {p[ix], p[iy], p[iz]};
    if (!std::isfinite(x[0]) || !std::isfinite(x[1]) || !std::isfinite(x[2])) {
      continue;
    }
    for (int k = 0; k < 3; ++k) {
      s[k] += x[k];
      m.scale = std::max(m.scale, std::abs(x[k]));
    }
    ++m.n;
  }
  for (int k = 0; k < 3 && m.n; ++k) {
    m.v[k] = static_cast<double>(s[k] / m.n);
  }
  return m;
}

struct Consumer
{
  Process * proc = nullptr;
  i64 joined = 0, delay = 0;
  std::vector<std::pair<u64, std::shared_ptr<const CloudMsg>>> maps;   // by server life
  std::shared_ptr<const Tf> tf;
};

class C15 : public Check
{
public:
  std::string id() const override {return "C15";}
  std::string rule() const override
  {
    return "one run = one sequence of map files and one order of starts, crashes, restarts and "
           "joins; non-trivial: a consumer joined after the map or the frame had been published";
  }
  std::string real_components() const override
  {
    return "map_loader and map_tf_generator components, lib, the PCL reader and real files";
  }
  std::string stub_components() const override
  {
    return "rclcpp, static transform broadcaster and message types (simulated), consumers";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"a map without any finite point has no mean position: no frame is expected for it",
      "damage that leaves a well-formed file of the declared size cannot be noticed by a reader"};
  }
  std::vector<std::string> required_probes() const override
  {
    std::vector<std::string> v{"served", "late_map", "late_frame", "fault_crash", "refused",
      "frame_checked", "map_without_points", "map_with_nan", "fault_delay", "restart_new_file",
      "pcd_ascii", "pcd_binary", "pcd_compressed"};
    for (const char * b : BAD) {
      v.push_back(std::string("bad_") + b);
    }
    return v;
  }
  u64 quick_runs() const override {return 30000;}
  u64 thorough_runs() const override {return 1000000;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    p.cfg["frames"] = r.chance(0.7) ? 0 : 1;
    p.cfg["exec"] = r.chance(0.6) ? 0 : r.uniform(0, 0.3);
    p.cfg["delay"] = r.chance(0.5) ? 0 : r.uniform(0, 0.5);
    auto op = [&](double t, const char * kind, std::vector<double> a) {
        Op o;
        o.t = static_cast<i64>(t * 1e9);
        o.kind = kind;
        o.a = std::move(a);
        p.ops.push_back(o);
      };
    // file: seed, format (0 ascii 1 binary 2 compressed), bad kind or -1, size
    auto file = [&]() {
        const bool bad = r.chance(0.25);
        const size_t n = r.chance(0.1) ? 1 : r.chance(0.004) ? r.range(60000, 140000) :
          r.range(2, thorough ? 1500 : 300);
        return std::vector<double>{static_cast<double>(r.below(1000000)),
          static_cast<double>(r.below(3)), bad ? static_cast<double>(r.below(9)) : -1.0,
          static_cast<double>(n)};
      };
    const double T = 10;
    double t = r.uniform(0, 3);
    const int lives = 1 + (r.chance(0.5) ? static_cast<int>(r.range(1, 2)) : 0);
    for (int i = 0; i < lives; ++i) {
      op(t, "server", file());
      t += r.uniform(0.5, 4);
      if (i + 1 < lives) {
        op(t - 0.2, "server_crash", {});
      }
    }
    op(r.uniform(0, T), "frame", {});
    if (r.chance(0.4)) {
      const double c = r.uniform(0.5, T);
      op(c, "frame_crash", {});
      op(c + r.uniform(0.1, 3), "frame", {});
    }
    for (int i = static_cast<int>(r.range(1, 4)); i > 0; --i) {
      op(r.uniform(0, T), "join", {static_cast<double>(i), r.chance(0.5) ? 0 : r.uniform(0, 0.5) * 1e9});
    }
    // maps from another source, straight to the frame generator
    if (r.chance(0.5)) {
      for (int i = static_cast<int>(r.range(1, 3)); i > 0; --i) {
        op(r.uniform(0, T), "map", {static_cast<double>(r.below(1000000)),
            static_cast<double>(r.below(4)),
            static_cast<double>(r.chance(0.004) ? r.range(60000, 140000) : r.below(200))});
      }
      p.cfg["other_source"] = 1;
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op & a, const Op & b) {return a.t < b.t;});
    return p;
  }

  static std::string path_name(int i) {return fmt("map%d.pcd", i);}

  static MapFile make_file(World & w, const Op & op, int n)
  {
    MapFile f;
    f.path = path_name(n);
    Rng r(static_cast<u64>(op.a[0]) * 31 + 7);
    f.cloud = random_cloud(r, static_cast<size_t>(op.a[3]), r.chance(0.3));
    const int mode = static_cast<int>(op.a[1]);
    const int bad = static_cast<int>(op.a[2]);
    std::string text;
    if (mode == 2 && bad < 0) {
      // written by PCL itself: compressed
      pcl::PCLPointCloud2 c;
      const CloudMsg m = to_msg(f.cloud, 0, "");
      for (const auto & x : m.fields) {
        pcl::PCLPointField pf;
        pf.name = x.name;
        pf.offset = x.offset;
        pf.datatype = x.datatype;
        pf.count = 1;
        c.fields.push_back(pf);
      }
      c.width = m.width;
      c.height = m.height;
      c.point_step = m.point_step;
      c.row_step = m.row_step;
      c.data.assign(m.data.begin(), m.data.end());
      c.is_dense = m.is_dense;
      pcl::PCDWriter().writeBinaryCompressed(f.path, c);
      w.count("pcd_compressed");
      return f;
    }
    text = pcd_text(f.cloud, mode == 0 ? 0 : 1);
    if (bad < 0) {
      w.count(mode == 0 ? "pcd_ascii" : "pcd_binary");
      write_file(f.path, text);
      return f;
    }
    f.usable = false;
    w.count(std::string("bad_") + BAD[bad]);
    const size_t data = text.find("DATA ");
    const size_t body = text.find('\n', data) + 1;
    switch (bad) {
      case 0:
        unlink(f.path.c_str());
        return f;
      case 1:
        text.clear();
        break;
      case 2:
        text.clear();
        for (int i = 0; i < 400; ++i) {
          text += static_cast<char>(r.below(256));
        }
        break;
      case 3:
        // (of a small map PCL would take the header's own lines for its points)
        text = f.cloud.size() > 30 ? text.substr(0, data) : text.substr(0, body);
        break;
      case 4:
        if (mode == 0) {
          // at least the last line is gone
          const size_t last = text.rfind('\n', text.size() - 2);
          text = text.substr(0, r.range(body, std::max(body, last)));
        } else {
          text = text.substr(0, r.range(body, text.size() - 1));
        }
        if (f.cloud.size() > 30 && r.chance(0.2)) {
          text = text.substr(0, r.range(1, data));     // inside the header
        }
        break;
      case 5:
        {
          const size_t a = text.find("FIELDS");
          text = text.substr(0, a) + text.substr(text.find('\n', a) + 1);
        }
        break;
      case 6:
        {
          RawCloud more = f.cloud;
          const u64 n2 = f.cloud.size() + r.range(1, 500);
          more.height = 1;
          text = pcd_header(more, mode == 0 ? "ascii" : "binary", n2) + text.substr(body);
        }
        break;
      case 7:
        f.path = ".";
        return f;
      default:
        f.path = "";
        return f;
    }
    write_file(f.path, text);
    return f;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    auto & m = rclcpp::mw();
    const std::string dir = make_scratch_dir("c15");
    char old[4096];
    if (!getcwd(old, sizeof(old)) || chdir(dir.c_str()) != 0) {
      abort();
    }
    const bool custom = plan.get("frames") != 0;
    const std::string map_frame = custom ? "world" : "map";
    const std::string view_frame = custom ? "eye" : "viewer";

    Process * server = nullptr, * frame = nullptr;
    MapFile file;
    u64 life = 0, served_by_life = 0, last_served_life = 0;
    std::shared_ptr<const CloudMsg> served;
    u64 frame_takes = 0;
    bool taking = false;
    Mean expect;
    std::shared_ptr<const Tf> tf;          // last one of this generator
    i64 tf_at = 0;
    std::map<int, Consumer> consumers;
    bool late = false;
    bool frame_in_time = true;

    m.network = [&](const rclcpp::Link & l, const rclcpp::AnyMsg &) -> std::vector<i64> {
        for (auto & [i, c] : consumers) {
          if (c.proc && l.dst == c.proc->name) {
            if (c.delay > 0) {
              w.count("fault_delay");
            }
            return {c.delay};
          }
        }
        return {static_cast<i64>(plan.get("delay") * 1e9)};
      };
    const double ex = plan.get("exec");
    m.exec_time = [&, k = u64(0)](Process *, const std::string &) mutable {
        std::pair<i64, i64> d{0, 0};
        if (ex > 0) {
          Rng r = keyed(plan.seed, 0xE8EC, k++);
          d.first = static_cast<i64>(r.uniform(0, ex) * 1e9);
        }
        return d;
      };
    m.on_publish = [&](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.proc == server && p.type == typeid(CloudMsg)) {
          const CloudMsg & c = rclcpp::as<CloudMsg>(msg);
          ++served_by_life;
          served = std::make_shared<const CloudMsg>(c);
          last_served_life = life;
          w.note("served %u x %u", c.width, c.height);
          if (!file.usable) {
            w.fail("served-bad", fmt("a map of %u points was published from an unusable file",
              c.width * c.height));
            return;
          }
          if (served_by_life > 1) {
            w.fail("served-twice", "the map was published more than once");
            return;
          }
          if (p.topic != "/pointcloud_map") {
            w.fail("served-topic", "the map was published on " + p.topic);
            return;
          }
          if (c.header.frame_id != "map") {
            w.fail("served-frame", "the map was published in frame " + c.header.frame_id);
            return;
          }
          RawCloud got;
          if (!from_msg(c, got)) {
            w.fail("served-layout", "the published map's layout does not fit its data");
            return;
          }
          const std::string d = cloud_differs(got, file.cloud);
          if (!d.empty()) {
            w.fail("served-wrong", "the published map is not the file: " + d);
            return;
          }
          w.count("served");
        } else if (p.proc == frame && p.type == typeid(Tf)) {
          const Tf & t = rclcpp::as<Tf>(msg);
          tf = std::make_shared<const Tf>(t);
          tf_at = w.now;
          if (p.topic != "/tf_static") {
            w.fail("frame-topic", "the view frame was published on " + p.topic);
            return;
          }
          w.note("frame %.6f", t.transforms.empty() ? 0.0 : t.transforms[0].transform.translation.x);
          if (!taking) {
            w.fail("frame-stray", "a transform was broadcast without a map");
          }
        }
      };
    m.on_take = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg & msg) {
        if (s.proc == frame && s.type == typeid(CloudMsg)) {
          RawCloud c;
          from_msg(rclcpp::as<CloudMsg>(msg), c);
          expect = mean_of(c);
          taking = true;
          ++frame_takes;
          tf = nullptr;
          if (c.size() == 0) {
            w.count("map_without_points");
          }
          if (expect.n < c.size()) {
            w.count("map_with_nan");
          }
          w.note("frame takes %zu", c.size());
          return;
        }
        for (auto & [i, c] : consumers) {
          if (s.proc == c.proc) {
            if (s.type == typeid(CloudMsg)) {
              c.maps.push_back({life, std::make_shared<const CloudMsg>(rclcpp::as<CloudMsg>(msg))});
            } else if (s.type == typeid(Tf)) {
              c.tf = std::make_shared<const Tf>(rclcpp::as<Tf>(msg));
            }
            w.note("consumer %d takes %s", i, s.topic.c_str());
          }
        }
      };
    m.on_done = [&](rclcpp::SubBase & s, const rclcpp::AnyMsg &) {
        if (s.proc == frame && s.type == typeid(CloudMsg)) {
          taking = false;
          if (w.stop) {
            return;
          }
          if (expect.n == 0) {
            if (tf) {
              for (const auto & t : tf->transforms) {
                const auto & x = t.transform.translation;
                if (!std::isfinite(x.x) || !std::isfinite(x.y) || !std::isfinite(x.z)) {
                  w.fail("frame-nan", "a transform that is not finite was broadcast");
                  return;
                }
              }
            }
            return;
          }
          if (!tf) {
            w.fail("frame-missing", fmt("no transform for a map with %zu finite points", expect.n));
            return;
          }
          if (tf->transforms.size() != 1) {
            w.fail("frame-count", fmt("%zu transforms", tf->transforms.size()));
            return;
          }
          const auto & t = tf->transforms[0];
          if (t.header.frame_id != map_frame || t.child_frame_id != view_frame) {
            w.fail("frame-names", t.header.frame_id + " to " + t.child_frame_id);
            return;
          }
          const double x[3] = {t.transform.translation.x, t.transform.translation.y,
            t.transform.translation.z};
          for (int k = 0; k < 3; ++k) {
            if (!(std::abs(x[k] - expect.v[k]) <= 1e-7 * expect.scale + 1e-9)) {
              w.fail("frame-mean", fmt("component %d is %.12g, the mean of the points is %.12g", k,
                x[k], expect.v[k]));
              return;
            }
          }
          const auto & q = t.transform.rotation;
          if (!(std::abs(std::abs(q.w) - 1) < 1e-9 && std::abs(q.x) + std::abs(q.y) + std::abs(q.z) < 1e-9)) {
            w.fail("frame-rotation", "the view frame is rotated");
            return;
          }
          w.count("frame_checked");
        }
      };

    int nfile = 0;
    auto perform = [&](const Op & op) {
        if (w.stop) {
          return;
        }
        if (op.kind == "server") {
          if (server && !server->dead && !server->exited) {
            w.kill(server);
          }
          file = make_file(w, op, nfile++);
          ++life;
          served_by_life = 0;
          if (life > 1) {
            w.count("restart_new_file");
          }
          const std::string path = file.path;
          server = w.spawn(
            "server", [] {return component_main("MapLoaderNode");}, [path](Process & p) {
              if (!path.empty()) {
                p.params["pcd_filename"] = path;
              }
              p.remaps["map_topic"] = "/pointcloud_map";
            });
        } else if (op.kind == "server_crash") {
          if (server && !server->dead && !server->exited) {
            w.count("fault_crash");
            w.kill(server);
          }
        } else if (op.kind == "frame") {
          if (frame && !frame->dead && !frame->exited) {
            return;
          }
          if (served) {
            late = true;
          }
          tf = nullptr;
          taking = false;
          frame_takes = 0;
          frame = w.spawn(
            "frame", [] {return component_main("MapTFGeneratorNode");}, [custom](Process & p) {
              if (custom) {
                p.params["map_frame"] = "world";
                p.params["viewer_frame"] = "eye";
              }
            });
        } else if (op.kind == "frame_crash") {
          if (frame && !frame->dead) {
            w.count("fault_crash");
            w.kill(frame);
            tf = nullptr;
            for (auto & [i, c] : consumers) {
              c.tf = nullptr;
            }
          }
        } else if (op.kind == "join") {
          Consumer & c = consumers[static_cast<int>(op.a[0])];
          if (c.proc) {
            return;
          }
          c.joined = w.now;
          c.delay = static_cast<i64>(op.a[1]);
          if (served && last_served_life == life && server && !server->dead) {
            w.count("late_map");
            late = true;
          }
          if (tf) {
            w.count("late_frame");
            late = true;
          }
          c.proc = w.spawn(
            fmt("consumer%d", (int)op.a[0]), [] {
              rclcpp::init(0, static_cast<char **>(nullptr));
              auto n = std::make_shared<rclcpp::Node>("consumer");
              auto q = rclcpp::QoS(5).reliable().transient_local();
              auto a = n->create_subscription<CloudMsg>(
                "/pointcloud_map", q, [](const CloudMsg::ConstSharedPtr) {});
              auto b = n->create_subscription<Tf>("/tf_static", q, [](const Tf::ConstSharedPtr) {});
              rclcpp::spin(n);
              return 0;
            });
        } else if (op.kind == "map") {
          Rng r(static_cast<u64>(op.a[0]) * 131 + 3);
          const int kind = static_cast<int>(op.a[1]);
          const size_t n = kind == 0 ? 0 : static_cast<size_t>(op.a[2]);
          RawCloud c = random_cloud(r, n, kind >= 2);
          if (kind == 3) {
            for (auto & p : c.points) {
              p[r.below(3)] = NAN;
            }
          }
          m.inject("/pointcloud_map", to_msg(c, 5, "map"), "other",
            rclcpp::QoS(5).reliable().transient_local());
        }
      };
    for (const auto & op : plan.ops) {
      w.at(op.t, [&perform, op] {perform(op);});
    }
    w.run_until(20000000000LL);
    (void)frame_in_time;

    // a component that could not be built ends its process
    if (!w.stop && server) {
      const bool ended = server->dead || server->exited;
      if (file.usable && served_by_life == 0) {
        w.fail("not-served", "a usable map file was not served" +
          (server->exit_error.empty() ? std::string() : ": " + server->exit_error));
      } else if (file.usable && ended) {
        // killed by the plan: fine
      } else if (!file.usable) {
        w.count("refused");
        bool said = ended;
        for (const auto & l : w.logs) {
          said = said || (l.proc == "server" && l.level >= 3);
        }
        (void)said;
      }
    }
    if (!w.stop && frame && frame->dead && !frame->exit_error.empty()) {
      w.fail("terminated", "the frame generator ended: " + frame->exit_error);
    }
    const bool server_up = server && !server->dead && !server->exited;
    if (!w.stop && server_up && served_by_life == 1) {
      for (auto & [i, c] : consumers) {
        u64 n = 0;
        for (const auto & [l, msg] : c.maps) {
          n += l == life && msg->header == served->header && msg->data == served->data;
        }
        if (plan.get("other_source") == 0 && n != 1) {
          w.fail("consumer-map", fmt("consumer %d, who joined at %.3f s, has seen the served map %llu "
            "times", i, c.joined / 1e9, (unsigned long long)n));
          break;
        } else if (n < 1) {
          w.fail("consumer-map", fmt("consumer %d, who joined at %.3f s, never saw the map", i,
            c.joined / 1e9));
          break;
        }
      }
      if (!w.stop && frame && !frame->dead && frame_takes == 0) {
        w.fail("frame-no-map", "the frame generator never got the map that is being served");
      }
    }
    if (!w.stop && frame && !frame->dead && tf) {
      for (auto & [i, c] : consumers) {
        if (!c.tf || !(*c.tf == *tf)) {
          w.fail("consumer-frame", fmt("consumer %d, who joined at %.3f s, does not know the view "
            "frame", i, c.joined / 1e9));
          break;
        }
      }
    }
    o.nontrivial = late;
    o.state_hash = w.hash;
    collect(w, o);
    if (chdir(old) != 0) {
      abort();
    }
    remove_scratch_dir(dir);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C15 c;
  return harness_main(argc, argv, c);
}
