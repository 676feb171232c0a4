// C04: heap against a reference multiset, with refused allocations.
#include "sim.h"
extern "C" {
#include "sc_heap.h"
}
using namespace sim;

ACCEPT(C04, "mem:", "leak", "hang:", "assert", "exit:")

HISTORY(C04, heap)
{
	struct sc_heap *h = (struct sc_heap *) harness_alloc(sizeof(*h));
	std::map<uint64_t, int64_t> in;	     // data -> key
	std::multiset<int64_t> keys;
	uint64_t id = 0;
	static const size_t caps[] = {0, 0, 1, 2, 3, 4, 5, 8, 33};
	auto init = [&]() {
		for (;;) {
			size_t cap = caps[choose(9)];
			bool huge = choose(40) == 0;
			if (huge)
				cap = SIZE_MAX / (choose(2) ? 1 : 16) - choose(3);
			uint64_t r0 = mallocs_refused();
			bool ok = sc_heap_init(h, cap);
			bool refused = mallocs_refused() != r0;
			trace("init %zu = %d", cap, ok);
			if (huge)
				CHECK("C04:init", !ok, "init of %zu elements succeeded", cap);
			else
				CHECK("C04:init", ok == !refused, "init returned %d, memory %s", ok,
				      refused ? "refused" : "given");
			if (ok)
				break;
			if (choose(2))
				sc_heap_term(h);
		}
		in.clear();
		keys.clear();
	};
	init();
	int n = (int) range(1, choose(4) == 0 ? 200 : 40);
	uint32_t ba = range(1, 8), bp = range(1, 8), kk = choose(4);
	auto pop = [&]() {
		struct sc_heap_data *pk = sc_heap_peek(h);
		bool peeked = pk != nullptr;
		int64_t pkey = pk ? pk->key : 0;
		struct sc_heap_data *d = sc_heap_pop(h);
		if (keys.empty()) {
			CHECK("C04:empty", !d && !peeked, "an empty heap yields an element");
			return;
		}
		CHECK("C04:lost", d && peeked, "the heap yields nothing but holds %zu elements", keys.size());
		int64_t key = d->key;
		uint64_t data = (uint64_t) d->data;
		trace("pop = %ld (#%lu)", (long) key, (unsigned long) data);
		CHECK("C04:order", pkey == *keys.begin(), "peek yields key %ld, smallest is %ld", (long) pkey,
		      (long) *keys.begin());
		CHECK("C04:order", key == *keys.begin(), "pop yields key %ld, smallest is %ld", (long) key,
		      (long) *keys.begin());
		auto it = in.find(data);
		CHECK("C04:data", it != in.end() && it->second == key,
		      "pop yields key %ld with data #%lu that is not in the heap with it", (long) key,
		      (unsigned long) data);
		in.erase(it);
		keys.erase(keys.find(key));
	};
	for (int s = 0; s < n; s++) {
		uint32_t op = weighted({ba * 4, bp * 4, 1, 1});
		if (op == 0) {
			int64_t key;
			if (kk == 0)
				key = (int64_t) choose(8);
			else if (kk == 1)
				key = (int64_t) choose64();
			else if (kk == 2)
				key = s;
			else
				key = -s;
			uint64_t r0 = mallocs_refused();
			bool ok = sc_heap_add(h, key, (void *) ++id);
			bool refused = mallocs_refused() != r0;
			trace("add %ld #%lu = %d", (long) key, (unsigned long) id, ok);
			CHECK("C04:add", ok == !refused, "add returned %d, memory %s", ok,
			      refused ? "refused" : "given");
			if (ok) {
				in[id] = key;
				keys.insert(key);
			} else
				probe("heap add refused");
		} else if (op == 1) {
			pop();
		} else if (op == 2) {
			if (choose(4) == 0) {
				sc_heap_clear(h);
				in.clear();
				keys.clear();
				trace("clear");
			}
		} else if (choose(6) == 0) {
			sc_heap_term(h);
			if (choose(2))
				sc_heap_term(h);
			trace("term");
			init();
		}
		CHECK("C04:size", sc_heap_size(h) == keys.size(), "size is %zu, expected %zu", sc_heap_size(h),
		      keys.size());
		struct sc_heap_data *p = sc_heap_peek(h);
		CHECK("C04:order", (p == nullptr) == keys.empty(), "peek is %s with %zu elements",
		      p ? "an element" : "NULL", keys.size());
		if (p)
			CHECK("C04:order", p->key == *keys.begin(), "peek yields key %ld, smallest is %ld",
			      (long) p->key, (long) *keys.begin());
		state_hash(keys.size() * 4 + op);
	}
	while (!keys.empty())
		pop();
	pop();
	sc_heap_term(h);
	harness_free(h);
}

SCENARIO(C04, histories, 1000)
{
	swarm_malloc();
	hist_heap();
	check_leaks();
}
