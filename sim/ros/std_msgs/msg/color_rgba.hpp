// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_COLOR_RGBA
#define SIM_ROS_STD_MSGS_COLOR_RGBA
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs
{
namespace msg
{
struct ColorRGBA
{
  using SharedPtr = std::shared_ptr<ColorRGBA>;
  using ConstSharedPtr = std::shared_ptr<const ColorRGBA>;
  using UniquePtr = std::unique_ptr<ColorRGBA>;
  using ConstUniquePtr = std::unique_ptr<const ColorRGBA>;
  using WeakPtr = std::weak_ptr<ColorRGBA>;
  float r{0};
  ColorRGBA & set__r(const float & v) {r = v; return *this;}
  float g{0};
  ColorRGBA & set__g(const float & v) {g = v; return *this;}
  float b{0};
  ColorRGBA & set__b(const float & v) {b = v; return *this;}
  float a{0};
  ColorRGBA & set__a(const float & v) {a = v; return *this;}
  bool operator==(const ColorRGBA & o) const {return r == o.r && g == o.g && b == o.b && a == o.a;}
  bool operator!=(const ColorRGBA & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
