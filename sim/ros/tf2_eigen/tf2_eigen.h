#include "tf2_eigen.hpp"
