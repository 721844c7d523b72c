#include "transform_listener.h"
