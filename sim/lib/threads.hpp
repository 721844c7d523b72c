// Threads of the code under test as fibres: every operation on a lock, every
// allocation and every explicit preempt() inside a preemptible section is a
// point at which the scheduler may run another thread.
#ifndef SIM_LIB_THREADS_HPP_
#define SIM_LIB_THREADS_HPP_

#include "core/sim.hpp"

namespace sim
{

struct ThreadSim
{
  bool on = false;             // locks are simulated
  bool alloc_points = false;   // allocations are switch points, freed memory is poisoned
  i64 fail_alloc = -1;         // n-th allocation in preemptible code fails
  i64 n_alloc = 0;
  u64 locks = 0, contended = 0, preempts = 0, alloc_failed = 0;
  void reset();
};
ThreadSim & threads();

bool preemptible();
void preempt();                // a switch point

struct Preemptible             // marks calls into the code under test
{
  Fiber * f;
  Preemptible()
  : f(W()->current) {++f->preemptible;}
  ~Preemptible() {--f->preemptible;}
};

// names of the fibres that wait for a lock nobody will release
std::string deadlocked(World & w);

}  // namespace sim

#endif  // SIM_LIB_THREADS_HPP_
