// The static variables of the code under test. Simulated processes share one real
// process; what one simulation leaves in them must not reach the next.
#ifndef SIM_CORE_STATICS_HPP_
#define SIM_CORE_STATICS_HPP_

#include <vector>

namespace sim
{
// Remembers the variables named in the file <executable>.statics as they are now,
// which is after static initialisation and before any run.
void statics_init();
std::vector<unsigned char> statics_save();
void statics_restore(const std::vector<unsigned char> & image);
// As they were at statics_init
void statics_reset();
// Fills the unused stack below the caller, so that reading indeterminate memory
// gives the same values in every execution.
void scrub_stack();
}  // namespace sim

#endif  // SIM_CORE_STATICS_HPP_
