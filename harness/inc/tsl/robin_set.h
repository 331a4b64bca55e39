#include "/usr/include/tsl/robin_set.h"
