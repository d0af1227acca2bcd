#pragma once
#include "rmc_list.h"
RMC_LIST(vpl, vpl_node, int)
