#include <message_filters/synchronizer.h>
