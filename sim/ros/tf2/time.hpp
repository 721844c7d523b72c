#include "time.h"
