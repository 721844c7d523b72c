#include <message_filters/sync_policies/exact_time.h>
