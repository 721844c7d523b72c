#include "convert.h"
