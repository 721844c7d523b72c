#include "buffer.h"
