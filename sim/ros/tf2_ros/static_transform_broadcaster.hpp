#include "static_transform_broadcaster.h"
