#include <algorithm>
#include <cmath>
#include <tf2/buffer_core.h>
#include <tf2_ros/transform_listener.h>

namespace tf2
{
static std::string strip(const std::string & s) {return !s.empty() && s[0] == '/' ? s.substr(1) : s;}

bool BufferCore::setTransform(
  const geometry_msgs::msg::TransformStamped & m, const std::string &, bool is_static)
{
  const std::string parent = strip(m.header.frame_id), child = strip(m.child_frame_id);
  if (parent == child || parent.empty() || child.empty()) {
    return false;
  }
  const auto & t = m.transform.translation;
  const auto & r = m.transform.rotation;
  if (std::isnan(t.x) || std::isnan(t.y) || std::isnan(t.z) || std::isnan(r.x) || std::isnan(r.y) ||
    std::isnan(r.z) || std::isnan(r.w))
  {
    return false;
  }
  if (!(std::abs(r.x * r.x + r.y * r.y + r.z * r.z + r.w * r.w - 1.0) < 10e-3)) {
    return false;
  }
  Frame & f = frames_[child];
  frames_[parent];
  const long long stamp = m.header.stamp.sec * 1000000000LL + m.header.stamp.nanosec;
  if (is_static != f.is_static) {
    f.history.clear();
    f.is_static = is_static;
  }
  const Entry e{stamp, parent,
    Transform(Quaternion(r.x, r.y, r.z, r.w), Vector3(t.x, t.y, t.z))};
  if (is_static) {
    f.history.assign(1, e);
    return true;
  }
  if (!f.history.empty() && f.history.back().t > stamp + cache_) {
    return false;        // too old: ignored
  }
  auto it = std::upper_bound(
    f.history.begin(), f.history.end(), stamp, [](long long a, const Entry & b) {return a < b.t;});
  if (it != f.history.begin() && std::prev(it)->t == stamp) {
    return false;        // TF_REPEATED_DATA
  }
  f.history.insert(it, e);
  while (f.history.front().t + cache_ < f.history.back().t) {
    f.history.pop_front();
  }
  return true;
}

bool BufferCore::sample(const Frame & f, long long t, Entry & out) const
{
  if (f.history.empty()) {
    return false;
  }
  if (f.is_static || t == 0) {
    out = f.history.back();
    return true;
  }
  auto it = std::lower_bound(
    f.history.begin(), f.history.end(), t, [](const Entry & a, long long b) {return a.t < b;});
  if (it == f.history.end()) {
    return false;
  }
  if (it->t == t) {
    out = *it;
    return true;
  }
  if (it == f.history.begin()) {
    return false;
  }
  auto p = std::prev(it);
  if (p->parent != it->parent) {
    out = *p;
    return true;
  }
  const double a = static_cast<double>(t - p->t) / static_cast<double>(it->t - p->t);
  out.t = t;
  out.parent = p->parent;
  out.tf = Transform(
    p->tf.getRotation().slerp(it->tf.getRotation(), a),
    p->tf.getOrigin() * (1 - a) + it->tf.getOrigin() * a);
  return true;
}

geometry_msgs::msg::TransformStamped BufferCore::lookupTransform(
  const std::string & target_in, const std::string & source_in, const TimePoint & time) const
{
  auto check = [](const std::string & f, const char * which) {
      if (f.empty()) {
        throw InvalidArgumentException(
                std::string("Invalid argument passed to lookupTransform argument ") + which +
                " in tf2 frame_ids cannot be empty");
      }
      if (f[0] == '/') {
        throw InvalidArgumentException(
                "Invalid argument \"" + f + "\" passed to lookupTransform argument " + which +
                " in tf2 frame_ids cannot start with a '/' like: ");
      }
    };
  check(target_in, "target_frame");
  check(source_in, "source_frame");
  const std::string & target = target_in;
  const std::string & source = source_in;
  geometry_msgs::msg::TransformStamped r;
  r.header.frame_id = target;
  r.child_frame_id = source;
  long long t = time.time_since_epoch().count();
  auto stamp = [&](long long ns) {
      r.header.stamp.sec = static_cast<int>(ns / 1000000000LL);
      r.header.stamp.nanosec = static_cast<unsigned>(ns % 1000000000LL);
    };
  if (target == source) {
    r.transform.rotation.w = 1.0;
    auto it = frames_.find(target);
    stamp(it != frames_.end() && !it->second.history.empty() && t == 0 ? it->second.history.back().t : t);
    return r;
  }
  for (const std::string & f : {target, source}) {
    if (!frames_.count(f)) {
      throw LookupException(
              "\"" + f + "\" passed to lookupTransform argument " +
              (f == target ? "target_frame" : "source_frame") + " does not exist. ");
    }
  }
  // chains to the roots, by the latest data
  auto chain = [&](const std::string & f0) {
      std::vector<std::string> c{f0};
      while (c.size() < 1000) {
        const Frame & f = frames_.at(c.back());
        if (f.history.empty()) {
          break;
        }
        c.push_back(f.history.back().parent);
      }
      return c;
    };
  const auto cs = chain(source), ct = chain(target);
  size_t is = 0, itg = 0;
  bool found = false;
  for (is = 0; is < cs.size() && !found; ++is) {
    for (itg = 0; itg < ct.size(); ++itg) {
      if (cs[is] == ct[itg]) {
        found = true;
        break;
      }
    }
    if (found) {
      break;
    }
  }
  if (!found) {
    throw ConnectivityException(
            "Could not find a connection between '" + target + "' and '" + source +
            "' because they are not part of the same tree.Tf has two or more unconnected trees.");
  }
  if (t == 0) {
    long long common = INT64_MAX;
    for (size_t i = 0; i < is; ++i) {
      const Frame & f = frames_.at(cs[i]);
      if (!f.is_static) {common = std::min(common, f.history.back().t);}
    }
    for (size_t i = 0; i < itg; ++i) {
      const Frame & f = frames_.at(ct[i]);
      if (!f.is_static) {common = std::min(common, f.history.back().t);}
    }
    t = common == INT64_MAX ? 0 : common;
  }
  auto accumulate = [&](const std::vector<std::string> & c, size_t n) {
      Transform a;
      for (size_t i = 0; i < n; ++i) {
        Entry e;
        if (!sample(frames_.at(c[i]), t, e)) {
          throw ExtrapolationException("Lookup would require extrapolation for frame " + c[i]);
        }
        a = e.tf * a;
      }
      return a;
    };
  const Transform s = accumulate(cs, is), g = accumulate(ct, itg);
  const Transform x = g.inverse() * s;
  r.transform.translation.x = x.getOrigin().x();
  r.transform.translation.y = x.getOrigin().y();
  r.transform.translation.z = x.getOrigin().z();
  r.transform.rotation.x = x.getRotation().x();
  r.transform.rotation.y = x.getRotation().y();
  r.transform.rotation.z = x.getRotation().z();
  r.transform.rotation.w = x.getRotation().w();
  stamp(t);
  return r;
}

bool BufferCore::canTransform(
  const std::string & a, const std::string & b, const TimePoint & t, std::string * err) const
{
  try {
    lookupTransform(a, b, t);
    return true;
  } catch (const TransformException & e) {
    if (err) {
      *err = e.what();
    }
    return false;
  }
}

std::vector<std::string> BufferCore::getAllFrameNames() const
{
  std::vector<std::string> v;
  for (const auto & f : frames_) {
    v.push_back(f.first);
  }
  return v;
}
}  // namespace tf2

namespace tf2_ros
{
void TransformListener::init(rclcpp::Node * node, bool spin_thread)
{
  sub_ = node->create_subscription<tf2_msgs::msg::TFMessage>(
    "/tf", rclcpp::QoS(100),
    [this](const tf2_msgs::msg::TFMessage::ConstSharedPtr m) {add(*m, false);});
  sub_static_ = node->create_subscription<tf2_msgs::msg::TFMessage>(
    "/tf_static", rclcpp::QoS(100).transient_local(),
    [this](const tf2_msgs::msg::TFMessage::ConstSharedPtr m) {add(*m, true);});
  sub_->independent = spin_thread;
  sub_static_->independent = spin_thread;
}
void TransformListener::add(const tf2_msgs::msg::TFMessage & m, bool is_static)
{
  for (const auto & t : m.transforms) {
    buffer_.setTransform(t, "sim", is_static);
  }
}
}  // namespace tf2_ros
