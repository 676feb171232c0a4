// The largest sizes of the second simulated build (see max_sizes.h), as the sources have them.
#include "sc_buf.h"
#include "sc_heap.h"
#include "sc_str.h"
#include "sc_timer.h"
#ifdef SC_ARRAY_MAX
int sim_limits_used = 1;
#else
#include "max_sizes.h"
int sim_limits_used = 0;
#endif
struct sc_str_head {
	uint32_t len;
	char buf[];
};
struct sim_limits sim_limits = {
	SIZE_MAX,
	SIZE_MAX,
	SIZE_MAX / sizeof(struct sc_heap_data),
	UINT32_MAX / sizeof(struct sc_timer_data) / 16,
	UINT32_MAX - sizeof(struct sc_str_head) - 1,
	UINT32_MAX,
	UINT64_MAX - 4096,
};
