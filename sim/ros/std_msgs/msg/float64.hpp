// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_FLOAT64
#define SIM_ROS_STD_MSGS_FLOAT64
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs
{
namespace msg
{
struct Float64
{
  using SharedPtr = std::shared_ptr<Float64>;
  using ConstSharedPtr = std::shared_ptr<const Float64>;
  using UniquePtr = std::unique_ptr<Float64>;
  using ConstUniquePtr = std::unique_ptr<const Float64>;
  using WeakPtr = std::weak_ptr<Float64>;
  double data{0};
  Float64 & set__data(const double & v) {data = v; return *this;}
  bool operator==(const Float64 & o) const {return data == o.data;}
  bool operator!=(const Float64 & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
