// C03: map against a reference map, with refused allocations.
#include "kernel.h"
#include "w_cont.h"
#include <algorithm>
using namespace sim;

ACCEPT(C03, "mem:", "leak", "hang:", "assert", "exit:")

namespace {
struct M {
	const w_map_ops &o;
	void *m;
	std::map<uint64_t, uint64_t> ref; // integer key (or index of the string)
	std::map<uint64_t, uint64_t> stored; // the string given at the last put of each key
	std::vector<char *> strs, copies;
	explicit M(const w_map_ops &ops) : o(ops) { m = harness_alloc(o.size_of); }

	uint64_t key(uint64_t k, bool copy) // what is passed to the map
	{
		if (!o.strkey)
			return k;
		if (k == 0)
			return 0;
		return (uint64_t) (copy ? copies : strs)[k - 1];
	}
	uint64_t unkey(uint64_t p, bool *bad)
	{
		if (!o.strkey)
			return p;
		if (p == 0)
			return 0;
		for (size_t i = 0; i < strs.size(); i++)
			if (p == (uint64_t) strs[i] || p == (uint64_t) copies[i])
				return i + 1;
		*bad = true;
		return 0;
	}
};
} // namespace

static void check_all(M &t)
{
	const w_map_ops &o = t.o;
	CHECK("C03:size", o.size(t.m) == t.ref.size(), "size is %u, expected %zu", o.size(t.m), t.ref.size());
	size_t n = t.ref.size(), max = n + 2;
	std::vector<uint64_t> k(max), v(max), k2(max), v2(max);
	size_t c = o.foreach (t.m, k.data(), v.data(), max);
	CHECK("C03:iterate", c == n, "iteration visited %zu pairs, expected %zu", c, n);
	std::map<uint64_t, uint64_t> got;
	for (size_t i = 0; i < c; i++) {
		bool bad = false;
		uint64_t kk = t.unkey(k[i], &bad);
		CHECK("C03:iterate", !bad, "iteration yields a key that was never put");
		auto st = t.stored.find(kk);
		if (o.strkey && st != t.stored.end())
			CHECK("C03:key", st->second == k[i], "iteration yields a string that a later put of an equal key replaced");
		CHECK("C03:iterate", got.emplace(kk, v[i]).second, "iteration visits key %lu twice",
		      (unsigned long) kk);
	}
	CHECK("C03:iterate", got == t.ref, "the pairs iterated differ from those put");
	size_t ck = o.foreach_key(t.m, k2.data(), max), cv = o.foreach_value(t.m, v2.data(), max);
	CHECK("C03:iterate", ck == n && cv == n, "key iteration %zu, value iteration %zu, expected %zu", ck, cv, n);
	for (size_t i = 0; i < n; i++)
		CHECK("C03:iterate", k2[i] == k[i] && v2[i] == v[i], "the three iterations disagree at %zu", i);
	if (n && choose(3) == 0) {
		// left early
		size_t stop = choose((uint32_t) n);
		c = o.foreach (t.m, k2.data(), v2.data(), stop);
		CHECK("C03:iterate", c == stop, "iteration goes on after a break at %zu", stop);
		ck = o.foreach_key(t.m, k2.data(), stop);
		cv = o.foreach_value(t.m, v2.data(), stop);
		CHECK("C03:iterate", ck == stop && cv == stop, "key or value iteration goes on after a break at %zu", stop);
	}
}

static void get(M &t, uint64_t k)
{
	uint64_t v = t.o.get(t.m, t.key(k, choose(2)));
	bool f = t.o.found(t.m);
	auto it = t.ref.find(k);
	trace("get %lu = %s%lu", (unsigned long) k, f ? "" : "none ", (unsigned long) v);
	CHECK("C03:get", f == (it != t.ref.end()), "get(%lu) found=%d, expected %d", (unsigned long) k, f,
	      it != t.ref.end());
	CHECK("C03:get", v == (f ? it->second : 0), "get(%lu) = %lu, expected %lu", (unsigned long) k,
	      (unsigned long) v, (unsigned long) (f ? it->second : 0));
}

static void put(M &t, uint64_t k, uint64_t v)
{
	uint64_t r0 = mallocs_refused();
	uint64_t given = t.key(k, choose(2));
	uint64_t old = t.o.put(t.m, given, v);
	bool refused = mallocs_refused() != r0;
	bool oom = t.o.oom(t.m);
	auto it = t.ref.find(k);
	trace("put %lu=%lu%s", (unsigned long) k, (unsigned long) v, refused ? " (refused)" : "");
	CHECK("C03:oom", !oom || refused, "put(%lu) got memory but reports out of memory", (unsigned long) k);
	if (oom) {
		probe("map put refused");
		check_all(t);
		return;
	}
	bool f = t.o.found(t.m);
	CHECK("C03:put", f == (it != t.ref.end()), "put(%lu) found=%d, expected %d", (unsigned long) k, f,
	      it != t.ref.end());
	CHECK("C03:put", old == (f ? it->second : 0), "put(%lu) returned %lu, expected %lu", (unsigned long) k,
	      (unsigned long) old, (unsigned long) (f ? it->second : 0));
	t.ref[k] = v;
	t.stored[k] = given; // the map refers to this string now; the one put before may go
}

static void del(M &t, uint64_t k)
{
	uint64_t v = t.o.del(t.m, t.key(k, choose(2)));
	bool f = t.o.found(t.m);
	auto it = t.ref.find(k);
	trace("del %lu = %s%lu", (unsigned long) k, f ? "" : "none ", (unsigned long) v);
	CHECK("C03:del", f == (it != t.ref.end()), "del(%lu) found=%d, expected %d", (unsigned long) k, f,
	      it != t.ref.end());
	CHECK("C03:del", v == (f ? it->second : 0), "del(%lu) = %lu, expected %lu", (unsigned long) k,
	      (unsigned long) v, (unsigned long) (f ? it->second : 0));
	t.ref.erase(k);
}

static bool init(M &t)
{
	static const uint32_t caps[] = {0, 0, 1, 2, 7, 8, 9, 16, 31, 64, 100};
	uint32_t cap = caps[choose(11)];
	if (choose(60) == 0)
		cap = choose(2) ? 0x80000001u + choose(1000) : 0xffffffffu - choose(4);
	uint32_t lf = choose(3) ? 0 : range(26, 94);
	bool badlf = choose(30) == 0;
	if (badlf)
		lf = choose(2) ? range(96, 1000) : range(1, 24);
	uint64_t r0 = mallocs_refused();
	bool ok = t.o.init(t.m, cap, lf);
	bool refused = mallocs_refused() != r0;
	trace("init cap %u load factor %u: %d", cap, lf, ok);
	if (badlf)
		CHECK("C03:init", !ok, "init accepted load factor %u", lf);
	else if (cap < 1000)
		CHECK("C03:init", ok == !refused, "init %s memory and returned %d", refused ? "was refused" : "got", ok);
	else
		CHECK("C03:init", !ok || !refused, "init was refused memory and returned true");
	return ok;
}

HISTORY(C03, map)
{
	M t(w_maps[choose((uint32_t) w_maps_n)]);
	trace("map %s", t.o.name);
	// the keys of this run: few, colliding or spread
	std::vector<uint64_t> keys;
	uint32_t nk = range(1, choose(3) == 0 ? 120 : 24);
	if (t.o.strkey) {
		keys.push_back(0);
		for (uint32_t i = 1; i <= nk; i++) {
			std::string s;
			switch (choose(5)) {
			case 0:
				s = std::to_string(i);
				break;
			case 4: { // pairs with the same 32-bit hash
				static const char *const twins[] = {
					"longer-key-214899", "k390482", "k2584", "k185686", "k174250", "k195649",
					"k117758", "k227303", "k61523", "k204913", "longer-key-259656", "longer-key-334500"};
				s = twins[choose(12)];
				break;
			}
			case 1:
				s = std::string(choose(40), 'a') + std::to_string(i * 977);
				break;
			case 2:
				s = std::string("k") + std::string(i % 20, (char) (0x80 + i));
				break;
			default:
				s = i == 1 ? "" : std::to_string(choose(100000)) + "/" + std::to_string(i);
			}
			bool dup = false;
			for (auto x : t.strs)
				dup |= s == x;
			if (dup)
				s += "#" + std::to_string(i);
			for (auto *w : {&t.strs, &t.copies}) {
				char *p = (char *) harness_alloc(s.size() + 1);
				memcpy(p, s.c_str(), s.size() + 1);
				w->push_back(p);
			}
			keys.push_back(i);
		}
	} else {
		uint32_t kind = choose(5);
		uint64_t stride = 1ull << choose(20), base = choose(100);
		std::set<uint64_t> u;
		u.insert(0);
		for (uint32_t i = 0; i < nk; i++) {
			uint64_t k;
			if (kind == 0)
				k = i + base;
			else if (kind == 1)
				k = base + i * stride;
			else if (kind == 2)
				k = choose64();
			else if (kind == 3) // same slot, around the end of the table
				k = (choose(3) + 6) + 8 * choose(4) + 64 * choose(4);
			else
				k = ((uint64_t) choose(64) << 32) ^ choose(64);
			u.insert(k & t.o.kmask);
		}
		keys.assign(u.begin(), u.end());
	}
	bool ok = init(t);
	for (int i = 0; i < 4 && !ok; i++)
		ok = init(t);
	if (!ok) {
		NoFaults nf;
		while (!ok)
			ok = init(t);
	}
	int n = (int) range(1, choose(4) == 0 ? 300 : 60);
	uint32_t bp = range(1, 8), bg = range(1, 3), bd = range(1, 6);
	for (int s = 0; s < n; s++) {
		uint64_t k = keys[choose((uint32_t) keys.size())];
		if (choose(12) == 0)
			k = 0;
		uint64_t v = (choose(5) == 0 ? choose64() : (uint64_t) s + 1) & t.o.vmask;
		uint32_t op = weighted({bp * 4, bg * 4, bd * 4, 1, 1});
		if (op == 0)
			put(t, k, v);
		else if (op == 1)
			get(t, k);
		else if (op == 2)
			del(t, k);
		else if (op == 3 && choose(3) == 0) {
			trace("clear");
			t.o.clear(t.m);
			t.ref.clear();
		} else if (op == 4 && choose(8) == 0) {
			trace("term");
			t.o.term(t.m);
			t.ref.clear();
			while (!init(t))
				;
		}
		if (t.ref.size() < 16 || s % 16 == 0)
			check_all(t);
		state_hash(t.ref.size() * 8 + op);
	}
	check_all(t);
	for (auto k : keys)
		get(t, k);
	// puts that get memory succeed
	NoFaults nf;
	put(t, keys.back(), 1 & t.o.vmask);
	CHECK("C03:recover", !t.o.oom(t.m), "a put with memory available reports out of memory");
	check_all(t);
	t.o.term(t.m);
	harness_free(t.m);
}

SCENARIO(C03, histories, 2000)
{
	swarm_malloc();
	hist_map();
	check_leaks();
}
