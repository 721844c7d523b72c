#include "utils.h"
