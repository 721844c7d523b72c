// Faults on the file system calls made below a scratch directory, and a model
// of what a machine finds there after it lost power.
//
// The calls are the real ones; this sits between them and the code. What is
// durable is modelled conservatively: file content is durable when it has been
// synchronised (fsync, msync), names (creation, rename, removal) when their
// directory has. Anything else may or may not have reached the disk, names in
// the order in which they were made, content page by page.
#ifndef SIM_LIB_DISK_HPP_
#define SIM_LIB_DISK_HPP_

#include <map>
#include <string>
#include <vector>

#include "core/sim.hpp"

namespace sim
{

using Files = std::map<std::string, std::string>;     // name below the root -> content

struct Disk
{
  struct Fault
  {
    std::string call;
    i64 nth = 0;
    int err = 0;           // 0: only part of the transfer is done
  };
  // policy
  std::vector<Fault> faults;
  i64 quota = -1;          // bytes the disk has left
  i64 crash_at = -1;       // the mutating call before which the process or machine dies
  double crash_part = 1;   // how much of what is being written to memory had been written

  // observation
  bool active = false;
  std::string root;
  std::map<std::string, i64> calls;
  i64 n_mutations = 0;
  std::vector<std::string> fired;
  bool crashed = false;
  std::string crash_call;
  Files at_crash;

  void begin(const std::string & root);
  void end();
  Files files() const;                     // what is there now
  Files after_power_loss(Rng & r) const;   // what may be there after losing power at this point
  void restore(const Files & f) const;
};
Disk & disk();

}  // namespace sim

#endif  // SIM_LIB_DISK_HPP_
