#include "buffer_core.h"
