// The list template instantiated for the component checks (compiled like the library).
#include "rmc_list.h"
#include "vp_list.h"
#include "rmc_list_template.h"
RMC_LIST_IMPL(vpl, vpl_node, int)
