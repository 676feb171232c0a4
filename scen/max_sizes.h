// Included before the sources in the second of the two simulated builds: the largest size of each container, which a
// user sets by a macro, becomes a variable that a scenario can lower. The defaults (w_limits.c) are those of the
// sources.
#pragma once
#include <stddef.h>
#include <stdint.h>
struct sim_limits {
	size_t array, queue, heap, timer, str;
	uint32_t map;
	uint64_t buf;
};
#ifdef __cplusplus
extern "C" struct sim_limits sim_limits;
extern "C" int sim_limits_used; // 0 in the first build
#else
extern struct sim_limits sim_limits;
#define SC_ARRAY_MAX sim_limits.array
#define SC_QUEUE_MAX sim_limits.queue
#define SC_HEAP_MAX sim_limits.heap
#define SC_TIMER_MAX sim_limits.timer
#define SC_STR_MAX sim_limits.str
#define SC_MAP_MAX sim_limits.map
#define SC_BUF_MAX sim_limits.buf
#endif
