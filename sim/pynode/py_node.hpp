// Nodes written in Python, run as processes of the simulation.
#ifndef SIM_LIB_PY_NODE_HPP_
#define SIM_LIB_PY_NODE_HPP_

#include <string>

namespace sim
{

// Starts the interpreter. To be called before any simulation.
void py_begin();

// The main function of an executable of a package: the real code, up to its end
int run_py(const std::string & package, const std::string & executable);

}  // namespace sim

#endif  // SIM_LIB_PY_NODE_HPP_
