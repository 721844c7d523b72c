// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_FLOAT64_MULTI_ARRAY
#define SIM_ROS_STD_MSGS_FLOAT64_MULTI_ARRAY
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs
{
namespace msg
{
struct Float64MultiArray
{
  using SharedPtr = std::shared_ptr<Float64MultiArray>;
  using ConstSharedPtr = std::shared_ptr<const Float64MultiArray>;
  using UniquePtr = std::unique_ptr<Float64MultiArray>;
  using ConstUniquePtr = std::unique_ptr<const Float64MultiArray>;
  using WeakPtr = std::weak_ptr<Float64MultiArray>;
  std::vector<double> data{};
  Float64MultiArray & set__data(const std::vector<double> & v) {data = v; return *this;}
  bool operator==(const Float64MultiArray & o) const {return data == o.data;}
  bool operator!=(const Float64MultiArray & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
