#include "exceptions.h"
