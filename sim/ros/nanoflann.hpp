// The code was written against nanoflann < 1.5; give 1.5 the old names.
#ifndef SIM_NANOFLANN_HPP_
#define SIM_NANOFLANN_HPP_
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <functional>
#include <future>
#include <istream>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <unordered_set>
#include <vector>
#include <Eigen/Core>
#define index_ index
#include_next <nanoflann.hpp>
#undef index_
namespace nanoflann
{
struct SearchParams : SearchParameters
{
  SearchParams(int = 32, float eps_ = 0, bool sorted_ = true) : SearchParameters(eps_, sorted_) {}
};
}  // namespace nanoflann
#endif
