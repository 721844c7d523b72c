#include "transform_broadcaster.h"
