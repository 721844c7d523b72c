// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_STRING
#define SIM_ROS_STD_MSGS_STRING
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs
{
namespace msg
{
struct String
{
  using SharedPtr = std::shared_ptr<String>;
  using ConstSharedPtr = std::shared_ptr<const String>;
  using UniquePtr = std::unique_ptr<String>;
  using ConstUniquePtr = std::unique_ptr<const String>;
  using WeakPtr = std::weak_ptr<String>;
  std::string data{};
  String & set__data(const std::string & v) {data = v; return *this;}
  bool operator==(const String & o) const {return data == o.data;}
  bool operator!=(const String & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
