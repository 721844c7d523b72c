#include "Vector3.h"
