// C10: maps on disk. The mapping node saves its map while file system calls
// fail, the disk fills up, the process is killed or the machine loses power;
// afterwards the map loader and the localization node read what is there.
#include <sys/stat.h>
#include <unistd.h>

#include <cerrno>

#include <pcl/io/pcd_io.h>
#include <pcl/point_types.h>

#include <rclcpp/rclcpp.hpp>
#include <rclcpp_components/register_node_macro.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>

#include "lib/clouds.hpp"
#include "lib/disk.hpp"
#include "lib/msgs.hpp"
#include "lidar_feature_localization/map_io.hpp"

SIM_MAIN(mapping)
SIM_MAIN(localization)

using namespace sim;

namespace
{

using PoseMsg = geometry_msgs::msg::PoseStamped;

const char * const EDGE = "maps/edge.pcd";
const char * const SURFACE = "maps/surface.pcd";

// what goes wrong while a map is saved
enum {OK = 0, FAULT, FULL, KILL, POWER, POWER_AFTER, N_MODES};
const char * const CALLS[] = {"open_write", "write", "close", "fallocate", "ftruncate", "mmap",
  "munmap", "msync", "fsync", "rename", "unlink", "open_read", "read"};
constexpr int N_CALLS = 13;
const int ERRORS[] = {EIO, ENOSPC, EINTR, EACCES, EMFILE, EDQUOT, EROFS, 0};

const char * LOADER = "MapLoaderNode";

bool read_map(const std::string & path, RawCloud & out)
{
  pcl::PCLPointCloud2 c;
  Eigen::Vector4f origin;
  Eigen::Quaternionf orientation;
  int version = 0;
  try {
    if (pcl::PCDReader().read(path, c, origin, orientation, version) < 0) {
      return false;
    }
  } catch (const std::exception &) {
    return false;       // a header that was cut within a line
  }
  CloudMsg m;
  for (const auto & f : c.fields) {
    if (f.name == "_") {
      continue;
    }
    sensor_msgs::msg::PointField x;
    x.name = f.name;
    x.offset = f.offset;
    x.datatype = f.datatype;
    x.count = f.count;
    m.fields.push_back(x);
  }
  m.width = c.width;
  m.height = c.height;
  m.point_step = c.point_step;
  m.row_step = c.row_step;
  m.data.assign(c.data.begin(), c.data.end());
  m.is_dense = c.is_dense;
  return from_msg(m, out);
}

// the fields of b that a has not are ignored
std::string differs(const RawCloud & expect, const RawCloud & got)
{
  if (expect.size() != got.size()) {
    return fmt("%zu points instead of %zu", got.size(), expect.size());
  }
  for (size_t k = 0; k < expect.fields.size(); ++k) {
    const int j = got.index(expect.fields[k].name);
    if (j < 0) {
      return "no field " + expect.fields[k].name;
    }
    for (size_t i = 0; i < expect.size(); ++i) {
      const double a = expect.points[i][k], b = got.points[i][static_cast<size_t>(j)];
      if (!same_value(a, b)) {
        return fmt("%s of point %zu is %.9g instead of %.9g", expect.fields[k].name.c_str(), i, b, a);
      }
    }
  }
  return "";
}

class C10 : public Check
{
public:
  std::string id() const override {return "C10";}
  std::string rule() const override
  {
    return "one run = one sequence of saves (each with its map and its fault), damage to the file "
           "and reads, on one directory; non-trivial: at least one save and one read, and one fault "
           "that struck";
  }
  std::string real_components() const override
  {
    return "mapping, localization and map_loader with their mains, lib, PCL's writer and reader, "
           "the C library and a real file system";
  }
  std::string stub_components() const override
  {
    return "rclcpp, message_filters; the results of file system calls (errors, short transfers, a "
           "full disk), and what is left after a kill or a loss of power";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"file content is durable once fsync or msync has returned, names once their directory "
      "has been synchronised; before that, changes of names reach the disk in order and file pages "
      "in any order, or not at all",
      "directories exist and are durable",
      "reads may be short but do not fail (PCL's own loop over header lines does not end on a read "
      "error); opening and mapping a file for reading may fail",
      "a file that was cut inside its header is only required to be refused when it has more than "
      "30 points (PCL takes header lines for points)"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"saved", "saved_over_old", "saved_over_leftovers", "empty_life", "fault_error",
      "fault_full", "fault_kill", "fault_power", "fault_power_after",
      "reported", "old_kept", "no_map_left", "new_despite_crash", "fault_truncation", "fault_removal",
      "refused_missing", "refused_truncated", "served", "served_after_crash", "fault_read",
      "localization_runs", "localization_refuses", "library_save"};
  }
  std::string diversity_measure() const override
  {
    return "distinct hashes of the sequence of faults that struck, with their call sites and results";
  }
  u64 quick_runs() const override {return 20000;}
  u64 thorough_runs() const override {return 1500000;}

  // save: mode, seed, keyframes, points, call, nth, error, quota, crash_at, crash_part, writer
  // cut: where (fraction), inside the header; remove; read: who, fault call (-1 none), nth, error
  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    p.cfg["threads"] = static_cast<double>(r.range(1, 4));
    const int n = static_cast<int>(r.range(2, thorough ? 14 : 8));
    i64 t = 0;
    for (int i = 0; i < n; ++i) {
      Op o;
      o.t = t += 1000000000LL;
      const double u = r.uniform();
      if (u < 0.5) {
        o.kind = "save";
        const int mode = r.chance(0.15) ? OK : static_cast<int>(r.range(FAULT, N_MODES - 1));
        const bool huge = r.chance(0.01);
        const bool big = huge || r.chance(0.15);
        const int call = static_cast<int>(r.below(N_CALLS));
        const int err = ERRORS[r.below(8)];
        o.a = {static_cast<double>(mode), static_cast<double>(r.below(1000000)),
          r.chance(0.05) ? 0.0 : static_cast<double>(r.range(1, 4)),
          huge ? static_cast<double>(r.range(3000, 40000)) :
          (big ? static_cast<double>(r.range(100, 2000)) : static_cast<double>(r.range(1, 40))),
          static_cast<double>(call),
          r.chance(0.7) ? 0.0 : static_cast<double>(r.below(4)),
          static_cast<double>(err), std::floor(std::exp(r.uniform(0, huge ? 15 : (big ? 12 : 8)))) - 1,
          static_cast<double>(r.below(14)), r.chance(0.3) ? 1.0 : r.uniform(),
          r.chance(0.2) ? 1.0 : 0.0};
      } else if (u < 0.58) {
        o.kind = "cut";
        o.a = {r.uniform(), r.chance(0.3) ? 1.0 : 0.0};
      } else if (u < 0.62) {
        o.kind = "remove";
      } else {
        o.kind = "read";
        o.a = {r.chance(0.7) ? 0.0 : 1.0,
          r.chance(0.6) ? -1.0 : static_cast<double>(r.pick(std::vector<int>{5, 11, 12})),
          static_cast<double>(r.below(5)), static_cast<double>(r.pick(std::vector<int>{EIO, EINTR,
          EACCES, EMFILE, 0}))};
        if (o.a[1] == 12) {
          o.a[3] = 0;      // PCL never returns when reading a header fails
        }
      }
      p.ops.push_back(o);
    }
    return p;
  }

  void simplify(Op & o) const override
  {
    if (o.kind == "save" && o.a[2] > 1) {
      o.a[2] = 1;
      o.a[3] = std::min(o.a[3], 3.0);
    }
  }

  // coordinates on which the transformation is exact
  static RawCloud scan(u64 seed, size_t n)
  {
    Rng r(seed);
    RawCloud c;
    c.fields = {{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32}, {"curvature", F_FLOAT32},
      {"ring", F_UINT16}};
    for (size_t i = 0; i < n; ++i) {
      c.points.push_back(
        {static_cast<double>(r.range(-6400, 6400)) / 64, static_cast<double>(r.range(-6400, 6400)) / 64,
          static_cast<double>(r.range(-640, 640)) / 64,
          static_cast<double>(static_cast<float>(r.normal())), static_cast<double>(r.below(128))});
    }
    return c;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    auto & m = rclcpp::mw();
    m.n_threads = static_cast<int>(plan.get("threads", 3));
    const std::string dir = make_scratch_dir("c10");
    char old[4096];
    if (!getcwd(old, sizeof(old)) || chdir(dir.c_str()) != 0 || mkdir("maps", 0755) != 0) {
      abort();
    }
    Disk & d = disk();
    d = Disk();

    // another map that nobody has any business with
    std::string surface;
    {
      Rng r(plan.seed ^ 0x5f);
      RawCloud c = scan(r.next(), 60);
      surface = pcd_text(c, 1);
      write_file(SURFACE, surface);
    }
    m.network = [&](const rclcpp::Link &, const rclcpp::AnyMsg &) {return std::vector<i64>{0};};
    // the map the reader has published
    std::shared_ptr<const CloudMsg> served;
    Process * reader = nullptr;
    m.on_publish = [&](rclcpp::PubBase & p, const rclcpp::AnyMsg & msg) {
        if (p.proc == reader && p.type == typeid(CloudMsg)) {
          served = std::make_shared<const CloudMsg>(rclcpp::as<CloudMsg>(msg));
        }
      };

    // what the file has to be
    enum {NONE, GOOD, BAD};
    int state = NONE;
    RawCloud current;
    std::string bytes;
    bool torn_before = false;
    u64 saves = 0, reads = 0, struck = 0, index = 0, shape = 0;

    auto content = [&](const char * path, bool & there) {
        const Files f = [&] {d.root = dir; return d.files();}();
        auto it = f.find(path);
        there = it != f.end();
        return there ? it->second : std::string();
      };
    // wait for the process to end by itself
    auto wait = [&](Process * p, i64 how_long) {
        const i64 end = w.now + how_long;
        while (!w.stop && !p->exited && !p->dead && w.now < end) {
          w.run_until(std::min<i64>(end, w.now + 100000000));
        }
      };

    auto save = [&](const Op & op) {
        const int mode = static_cast<int>(op.a[0]);
        const u64 seed = static_cast<u64>(op.a[1]);
        const int frames = static_cast<int>(op.a[2]);
        const size_t points = static_cast<size_t>(op.a[3]);
        const bool library = op.a[10] != 0;
        // an error may be followed by a loss of power
        const bool power_after = mode == POWER_AFTER || (mode == FAULT && op.a[9] < 0.3);
        RawCloud expect = scan(1, 0);
        std::vector<RawCloud> scans;
        for (int k = 0; k < frames; ++k) {
          scans.push_back(scan(seed * 16 + static_cast<u64>(k), points));
          for (auto v : scans.back().points) {
            v[0] += 8 * k;
            v[1] -= 4 * k;
            expect.points.push_back(v);
          }
        }
        if (library) {
          expect.fields.resize(3);
          for (auto & v : expect.points) {
            v.resize(3);
          }
        }
        auto & fs = d;
        auto arm = [&] {
            fs.faults.clear();
            fs.quota = -1;
            fs.crash_at = -1;
            if (mode == FAULT) {
              fs.faults.push_back({CALLS[static_cast<int>(op.a[4])], static_cast<i64>(op.a[5]),
                  static_cast<int>(op.a[6])});
            } else if (mode == FULL) {
              fs.quota = static_cast<i64>(op.a[7]);
            } else if (mode == KILL || mode == POWER) {
              fs.crash_at = static_cast<i64>(op.a[8]);
              fs.crash_part = op.a[9];
            }
            fs.begin(dir);
          };
        Process * node = nullptr;
        if (library) {
          w.count("library_save");
          pcl::PointCloud<pcl::PointXYZ>::Ptr cloud(new pcl::PointCloud<pcl::PointXYZ>());
          for (const auto & v : expect.points) {
            cloud->push_back(pcl::PointXYZ(static_cast<float>(v[0]), static_cast<float>(v[1]),
              static_cast<float>(v[2])));
          }
          arm();
          node = w.spawn("saver", [cloud] {
                SaveMapIfNotEmpty<pcl::PointXYZ>(EDGE, cloud);
                return 0;
              });
          wait(node, 1000000000LL);
        } else {
          node = w.spawn("mapping", [] {return run_main_mapping();});
          w.run_until(w.now + 100000000LL);
          for (int k = 0; k < frames && !w.stop; ++k) {
            const i64 stamp = w.now + 5000000000LL;
            PoseMsg q;
            q.header.stamp = stamp_of(stamp);
            q.header.frame_id = "map";
            q.pose.position.x = 8 * k;
            q.pose.position.y = -4 * k;
            q.pose.orientation.w = 1;
            m.inject("/scan_edge", to_msg(scans[static_cast<size_t>(k)], stamp, "base"), "extraction",
              rclcpp::QoS(10).reliable());
            m.inject("/pose", q, "poses", rclcpp::QoS(10).reliable());
            w.run_until(w.now + 100000000LL);
          }
          arm();
          node->shutdown();
          wait(node, 1000000000LL);
        }
        fs.end();
        if (w.stop) {
          return;
        }
        const bool ended = node->exited || !node->exit_error.empty();
        if (!ended && !fs.crashed) {
          w.fail("hangs", "the process did not end after it was told to");
          return;
        }
        const bool reported = !node->exit_error.empty() || node->exit_code != 0;
        Rng power = keyed(plan.seed, 0x90e4, index);
        if (fs.crashed) {
          fs.restore(mode == POWER ? fs.after_power_loss(power) : fs.at_crash);
          w.kill(node);
        } else if (power_after) {
          fs.restore(fs.after_power_loss(power));
        }
        std::string what = fs.crashed ? (mode == KILL ? "kill at " : "power loss at ") + fs.crash_call :
          (fs.fired.empty() ? "no fault" : fs.fired[0]);
        if (!fs.crashed && power_after) {
          what += ", power loss after the end";
        }
        // what is there now
        bool there = false;
        const std::string now = content(EDGE, there);
        RawCloud got;
        const bool readable = there && read_map(EDGE, got);
        const std::string diff = !there ? "there is none" :
          (!readable ? "it cannot be read" : differs(expect, got));
        const bool complete = diff.empty() && frames > 0;
        const bool unchanged = there == (state != NONE) && now == bytes;
        const std::string result = complete ? "the new map" : (unchanged ? "as before" :
          "neither the old nor the new map (" + diff + ")");
        w.note("save %d of %zu points, %s%s: %s%s, %d changes", mode, expect.size(), what.c_str(),
          library ? " (library)" : "", reported ? "reported, " : "", result.c_str(),
          (int)fs.n_mutations);
        ++saves;
        if (trace) {
          for (const auto & c : fs.calls) {
            w.note("  %s: %lld", c.first.c_str(), (long long)c.second);
          }
        }
        shape = mix(shape, hash_str(what + result));
        bool leftovers = false;
        {
          bool s = false;
          if (content(SURFACE, s) != surface || !s) {
            w.fail("other-file", "the other map was changed by saving this one (" + what + ")");
            return;
          }
          leftovers = fs.files().size() > (there ? 2u : 1u);
        }
        const bool hurt = !fs.fired.empty() || fs.crashed;
        if (fs.fired.size()) {
          ++struck;
          if (mode == FULL) {
            w.count("fault_full");
          } else {
            w.count(fs.fired[0].find("short") != std::string::npos ? "fault_short" : "fault_error");
            w.count("fault_" + fs.fired[0].substr(0, fs.fired[0].find(' ')) + "_fails");
          }
        } else if (fs.crashed) {
          ++struck;
          w.count(mode == KILL ? "fault_kill" : "fault_power");
        }
        if (!fs.crashed && power_after) {
          ++struck;
          w.count("fault_power_after");
        }
        if (frames == 0) {
          w.count("empty_life");
          if (!unchanged) {
            w.fail("touched", "the map file was changed though there was nothing to save");
          } else if (reported && !hurt) {
            w.fail("failed", "saving nothing failed");
          }
        } else if (fs.crashed) {
          if (!complete && !unchanged) {
            w.fail("torn", fmt("after a %s the map file is %s", what.c_str(), result.c_str()));
          }
        } else if (reported) {
          if (!hurt) {
            w.fail("failed", fmt("saving failed (%d) without any fault: %s", node->exit_code,
              node->exit_error.c_str()));
          } else if (!complete && !unchanged) {
            w.fail("torn", fmt("after a failure that was reported (%s) the map file is %s",
              what.c_str(), result.c_str()));
          } else {
            w.count("reported");
          }
        } else if (!complete) {
          w.fail(power_after ? "not-durable" : "silent",
            fmt("saving was a success, but the map file is %s (%s)", result.c_str(), what.c_str()));
        } else {
          w.count("saved");
          if (state != NONE) {
            w.count("saved_over_old");
          }
          if (torn_before) {
            w.count("saved_over_leftovers");
          }
        }
        if (complete) {
          state = GOOD;
          current = expect;
          bytes = now;
          if (fs.crashed) {
            w.count("new_despite_crash");
          }
        } else if (state != NONE) {
          w.count("old_kept");
        } else {
          w.count("no_map_left");
        }
        torn_before = leftovers;
      };

    auto read = [&](const Op & op) {
        const bool loader = op.a[0] == 0;
        d.faults.clear();
        d.quota = -1;
        d.crash_at = -1;
        if (op.a[1] >= 0) {
          d.faults.push_back({CALLS[static_cast<int>(op.a[1])], static_cast<i64>(op.a[2]),
              static_cast<int>(op.a[3])});
        }
        d.begin(dir);
        served = nullptr;
        if (loader) {
          reader = w.spawn("map_loader", [] {
                rclcpp::init(0, static_cast<char **>(nullptr));
                rclcpp::NodeOptions options;
                auto node = rclcpp::components().factories.at(LOADER)(options);
                rclcpp::spin(node);
                rclcpp::shutdown();
                return 0;
              }, [](Process & p) {p.params["pcd_filename"] = EDGE;});
        } else {
          reader = w.spawn("localization", [] {return run_main_localization();});
        }
        wait(reader, 300000000LL);
        d.end();
        if (w.stop) {
          return;
        }
        const bool ended = reader->exited || reader->dead || !reader->exit_error.empty();
        const bool reported = !reader->exit_error.empty() || (reader->exited && reader->exit_code != 0);
        const bool hurt = !d.fired.empty();
        if (hurt) {
          ++struck;
          w.count("fault_read");
        }
        ++reads;
        const char * who = loader ? "map_loader" : "localization";
        w.note("read by %s, %s: %s", who, hurt ? d.fired[0].c_str() : "no fault",
          ended ? (reported ? "refused" : "ended") : "runs");
        shape = mix(shape, hash_str(fmt("%s %d %d %d", hurt ? d.fired[0].c_str() : "", state, ended,
          served != nullptr)));
        const std::string file = state == GOOD ? "a good map" : (state == BAD ? "a damaged map" :
          "no map");
        if (ended && !reported) {
          w.fail("silent-end", fmt("%s ended without reporting an error, given %s", who, file.c_str()));
        } else if (state != GOOD && !ended) {
          w.fail("accepted", fmt("%s runs on %s", who, file.c_str()));
        } else if (served && state != GOOD) {
          w.fail("served-bad", fmt("a map was published from %s", file.c_str()));
        } else if (state == GOOD && ended && !hurt) {
          w.fail("refused", fmt("%s refuses a good map of %zu points: %s", who, current.size(),
            reader->exit_error.c_str()));
        } else if (loader && state == GOOD && !ended && !served) {
          w.fail("not-served", "map_loader runs but has not published the map");
        } else if (served) {
          RawCloud got;
          std::string diff = "the layout does not fit the data";
          if (from_msg(*served, got)) {
            diff = differs(current, got);
          }
          if (!diff.empty()) {
            w.fail("served-wrong", "the published map is not the saved one: " + diff);
          }
          w.count("served");
          if (struck && saves) {
            w.count("served_after_crash");
          }
        } else {
          if (!loader) {
            w.count(ended ? "localization_refuses" : "localization_runs");
          }
          if (ended && state == BAD) {
            w.count("refused_truncated");
          } else if (ended && state == NONE) {
            w.count("refused_missing");
          }
        }
        if (!ended) {
          w.kill(reader);
        }
        reader = nullptr;
        bool there = false;
        if (!w.stop && (content(EDGE, there) != bytes || there != (state != NONE))) {
          w.fail("read-changes", "reading changed the map file");
        }
      };

    for (const auto & op : plan.ops) {
      if (w.stop) {
        break;
      }
      ++index;
      if (op.kind == "save") {
        save(op);
      } else if (op.kind == "read") {
        read(op);
      } else if (op.kind == "remove" && state != NONE) {
        w.count("fault_removal");
        unlink(EDGE);
        state = NONE;
        bytes.clear();
      } else if (op.kind == "cut" && state == GOOD) {
        const size_t body = bytes.find('\n', bytes.find("\nDATA ") + 1) + 1;
        size_t at = body + static_cast<size_t>(op.a[0] * static_cast<double>(bytes.size() - body));
        if (op.a[1] != 0 && current.size() > 30) {
          at = static_cast<size_t>(op.a[0] * static_cast<double>(body));
        }
        bytes = bytes.substr(0, std::min(at, bytes.size() - 1));
        write_file(EDGE, bytes);
        state = BAD;
        w.count("fault_truncation");
      }
    }
    d.active = false;
    if (!w.stop) {
      w.finish();
    }
    o.nontrivial = saves && reads && struck;
    o.state_hash = shape;
    collect(w, o);
    o.sched_hash = shape;
    if (chdir(old) != 0) {
      abort();
    }
    remove_scratch_dir(dir);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C10 c;
  return harness_main(argc, argv, c);
}
