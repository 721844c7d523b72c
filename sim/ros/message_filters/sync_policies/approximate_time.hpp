#include <message_filters/sync_policies/approximate_time.h>
