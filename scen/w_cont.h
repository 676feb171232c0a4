// Uniform access from C++ to the macro containers (see w_cont.c).
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct w_array_ops {
	const char *name;
	size_t size_of, elem;
	uint64_t mask; // values that survive a round trip
	void (*init)(void *);
	void (*term)(void *);
	void (*add)(void *, uint64_t);
	bool (*oom)(void *);
	void (*clear)(void *);
	uint64_t (*at)(void *, size_t);
	size_t (*size)(void *);
	void (*del)(void *, size_t);
	void (*del_unordered)(void *, size_t);
	void (*del_last)(void *);
	uint64_t (*last)(void *);
	void (*sort)(void *);
	// visits at most max, then leaves by break; skips odd values by continue
	size_t (*foreach)(void *, uint64_t *out, size_t max, bool cont);
	void (*set)(void *, size_t, uint64_t);
	// adds its own element i (0), its last (1) or its size (2)
	void (*add_own)(void *, int how, size_t i);
};
struct w_queue_ops {
	const char *name;
	size_t size_of, elem;
	uint64_t mask;
	void (*init)(void *);
	void (*term)(void *);
	bool (*oom)(void *);
	void (*clear)(void *);
	size_t (*size)(void *);
	bool (*empty)(void *);
	uint64_t (*at)(void *, size_t);
	uint64_t (*peek_first)(void *);
	uint64_t (*peek_last)(void *);
	void (*add_first)(void *, uint64_t);
	void (*add_last)(void *, uint64_t);
	uint64_t (*del_first)(void *);
	uint64_t (*del_last)(void *);
	size_t (*foreach)(void *, uint64_t *out, size_t max, bool cont);
	size_t (*walk)(void *, uint64_t *out); // first .. next .. last
	// adds its own element i (0), first (1), last (2), its size (3), or moves the one from the other end (4)
	void (*add_own)(void *, bool first, int how, size_t i);
};
struct w_map_ops {
	const char *name;
	size_t size_of;
	uint64_t kmask, vmask;
	bool strkey;
	bool (*init)(void *, uint32_t cap, uint32_t lf);
	void (*term)(void *);
	uint32_t (*size)(void *);
	void (*clear)(void *);
	uint64_t (*put)(void *, uint64_t, uint64_t);
	uint64_t (*get)(void *, uint64_t);
	uint64_t (*del)(void *, uint64_t);
	bool (*found)(void *);
	bool (*oom)(void *);
	size_t (*foreach)(void *, uint64_t *k, uint64_t *v, size_t max);
	size_t (*foreach_key)(void *, uint64_t *k, size_t max);
	size_t (*foreach_value)(void *, uint64_t *v, size_t max);
};
extern const struct w_array_ops w_arrays[];
extern const int w_arrays_n;
extern const struct w_queue_ops w_queues[];
extern const int w_queues_n;
extern const struct w_map_ops w_maps[];
extern const int w_maps_n;
#ifdef __cplusplus
}
#endif
