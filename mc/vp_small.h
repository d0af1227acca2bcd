/* Force-included when the library and the harness are built with small
   connection buffers, so that wrap-around and buffer-full behaviour is inside
   the explored bounds.  Only the two documented size constants change. */
#ifdef VP_MAX_PACKET
#include "reliable_multicast.h"
#undef RMC_MAX_PACKET
#undef RMC_MAX_PAYLOAD
#define RMC_MAX_PACKET VP_MAX_PACKET
#define RMC_MAX_PAYLOAD VP_MAX_PAYLOAD
#endif
