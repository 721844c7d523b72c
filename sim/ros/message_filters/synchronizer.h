#ifndef SIM_SYNCHRONIZER_H_
#define SIM_SYNCHRONIZER_H_
#include <message_filters/subscriber.h>
namespace message_filters
{
template<typename Policy>
class Synchronizer : public Policy
{
public:
  using Tuple = typename Policy::Tuple;
  explicit Synchronizer(const Policy & p) : Policy(p) {init();}
  template<typename ... F>
  explicit Synchronizer(const Policy & p, F & ... f) : Policy(p)
  {
    init();
    connectInput(f ...);
  }
  template<typename F0, typename F1>
  Synchronizer(F0 & f0, F1 & f1, uint32_t q) : Policy(q)
  {
    init();
    connectInput(f0, f1);
  }
  template<typename ... F>
  void connectInput(F & ... f) {connect(std::index_sequence_for<F...>{}, f ...);}

  template<typename C>
  int registerCallback(C c)
  {
    callbacks_.push_back(
      [c](const Tuple & t) mutable {
        std::apply([&c](const auto & ... m) {c(m ...);}, t);
      });
    return 0;
  }
  template<typename C, typename T>
  int registerCallback(C c, T * t)
  {
    return registerCallback([c, t](const auto & ... m) {(t->*c)(m ...);});
  }
  void setName(const std::string &) {}

private:
  void init()
  {
    this->signal = [this](const Tuple & t) {
        auto cbs = callbacks_;
        for (auto & c : cbs) {
          c(t);
        }
      };
  }
  template<size_t... I, typename ... F>
  void connect(std::index_sequence<I...>, F & ... f)
  {
    (f.registerCallback([this](const auto & m) {this->template add<I>(m);}), ...);
  }
  std::vector<std::function<void (const Tuple &)>> callbacks_;
};
}  // namespace message_filters
#endif
