#ifndef SIM_TF2_BUFFER_CORE_H_
#define SIM_TF2_BUFFER_CORE_H_
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include "LinearMath/Transform.h"
#include "exceptions.h"
#include "time.h"
namespace tf2
{
constexpr std::chrono::nanoseconds BUFFER_CORE_DEFAULT_CACHE_TIME = std::chrono::seconds(10);
class BufferCore
{
public:
  explicit BufferCore(Duration cache = BUFFER_CORE_DEFAULT_CACHE_TIME) : cache_(cache.count()) {}
  virtual ~BufferCore() {}
  bool setTransform(
    const geometry_msgs::msg::TransformStamped & t, const std::string & authority, bool is_static = false);
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const TimePoint & time) const;
  bool canTransform(
    const std::string & target, const std::string & source, const TimePoint & time,
    std::string * err = nullptr) const;
  bool _frameExists(const std::string & f) const {return frames_.count(f) > 0;}
  std::vector<std::string> getAllFrameNames() const;
  void clear() {frames_.clear();}

private:
  struct Entry
  {
    long long t;
    std::string parent;
    Transform tf;
  };
  struct Frame
  {
    bool is_static = false;
    std::deque<Entry> history;      // ordered by time; empty: known only as a parent
  };
  std::map<std::string, Frame> frames_;
  long long cache_;
  bool sample(const Frame & f, long long t, Entry & out) const;
};
}  // namespace tf2
#endif
