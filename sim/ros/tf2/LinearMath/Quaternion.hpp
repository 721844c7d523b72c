#include "Quaternion.h"
