#ifndef SIM_REGISTER_NODE_MACRO_HPP_
#define SIM_REGISTER_NODE_MACRO_HPP_
#include <rclcpp/rclcpp.hpp>
#define SIM_CAT2(a, b) a ## b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define RCLCPP_COMPONENTS_REGISTER_NODE(C) \
  namespace {struct SIM_CAT(SimRegister, __LINE__) { \
    SIM_CAT(SimRegister, __LINE__)() { \
      ::rclcpp::components().factories[#C] = [](const ::rclcpp::NodeOptions & o) { \
          return std::static_pointer_cast<::rclcpp::Node>(std::make_shared<C>(o));};}}; \
  static SIM_CAT(SimRegister, __LINE__) SIM_CAT(sim_register_, __LINE__);}
#endif
