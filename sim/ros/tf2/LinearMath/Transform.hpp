#include "Transform.h"
