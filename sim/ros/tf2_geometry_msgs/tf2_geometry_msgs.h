#include "tf2_geometry_msgs.hpp"
