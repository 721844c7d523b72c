#include <message_filters/time_synchronizer.h>
