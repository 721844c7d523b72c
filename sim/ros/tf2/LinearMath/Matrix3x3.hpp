#include "Matrix3x3.h"
