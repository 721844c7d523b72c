// Message faults as part of a plan: every sent message carries the list of its
// deliveries (none: lost, several: duplicated), each with a delay.
#ifndef SIM_LIB_FAULTS_HPP_
#define SIM_LIB_FAULTS_HPP_

#include <algorithm>
#include <vector>

#include "core/sim.hpp"

namespace sim
{

struct Faults
{
  double loss = 0, dup = 0, late = 0;
  double base_s = 0, late_s = 0;
  static Faults random(Rng & r, double late_s, double base_s = 0.002)
  {
    Faults f;
    f.base_s = r.chance(0.3) ? 0 : base_s;
    f.loss = r.chance(0.5) ? 0 : r.uniform(0, 0.3);
    f.dup = r.chance(0.5) ? 0 : r.uniform(0, 0.3);
    f.late = r.chance(0.4) ? 0 : r.uniform(0, 0.5);
    f.late_s = r.chance(0.5) ? late_s : late_s * 0.2;
    return f;
  }
  i64 delay(Rng & r) const
  {
    double d = base_s > 0 ? r.uniform(0, base_s) : 0;
    if (r.chance(late)) {
      d += r.uniform(0, late_s);
    }
    return static_cast<i64>(d * 1e9);
  }
  // appended to the operation: number of deliveries and their delays
  void add(Op & o, Rng & r) const
  {
    const int n = r.chance(loss) ? 0 : (r.chance(dup) ? 2 + static_cast<int>(r.below(2)) : 1);
    o.a.push_back(n);
    for (int i = 0; i < n; ++i) {
      o.a.push_back(static_cast<double>(delay(r)));
    }
  }
  static std::vector<i64> deliveries(World & w, const Op & o, size_t at)
  {
    std::vector<i64> d;
    const int n = o.a.size() > at ? static_cast<int>(o.a[at]) : 1;
    for (int i = 0; i < n; ++i) {
      d.push_back(o.a.size() > at + 1 + i ? static_cast<i64>(o.a[at + 1 + i]) : 0);
    }
    if (n == 0) {
      w.count("fault_loss");
    } else if (n > 1) {
      w.count("fault_duplicate");
    }
    for (i64 x : d) {
      if (x > 5000000) {
        w.count("fault_delay");
      }
    }
    return d;
  }
};

}  // namespace sim

#endif  // SIM_LIB_FAULTS_HPP_
