#pragma once
#include <tsl/robin_map.h>
