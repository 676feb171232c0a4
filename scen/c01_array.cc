// C01: array against a reference sequence, with refused allocations.
#include "sim.h"
#include "w_cont.h"
#include <algorithm>
using namespace sim;

ACCEPT(C01, "mem:", "leak", "hang:", "assert", "exit:")

static void check_all(const w_array_ops &o, void *a, const std::vector<uint64_t> &m)
{
	CHECK("C01:size", o.size(a) == m.size(), "size is %zu, expected %zu", o.size(a), m.size());
	std::vector<uint64_t> out(m.size() + 2);
	size_t n = o.foreach (a, out.data(), m.size() + 1, false);
	CHECK("C01:iterate", n == m.size(), "iteration visited %zu of %zu elements", n, m.size());
	for (size_t i = 0; i < n; i++) {
		CHECK("C01:content", out[i] == m[i], "iteration element %zu is %lu, expected %lu", i,
		      (unsigned long) out[i], (unsigned long) m[i]);
		if (n < 40 || i % 7 == 0)
			CHECK("C01:content", o.at(a, i) == m[i], "element %zu is %lu, expected %lu", i,
			      (unsigned long) o.at(a, i), (unsigned long) m[i]);
	}
	if (n)
		CHECK("C01:content", o.last(a) == m.back(), "last is %lu, expected %lu",
		      (unsigned long) o.last(a), (unsigned long) m.back());
}

HISTORY(C01, array)
{
	const w_array_ops &o = w_arrays[choose((uint32_t) w_arrays_n)];
	trace("array of %s", o.name);
	void *a = harness_alloc(o.size_of);
	std::vector<uint64_t> m;
	o.init(a);
	CHECK("C01:oom", !o.oom(a), "a new array reports out of memory");
	int n = (int) range(1, choose(4) == 0 ? 120 : 30);
	int bias = (int) choose(3);
	uint64_t seq = choose(1000);
	for (int s = 0; s < n; s++) {
		uint32_t op = weighted({bias == 2 ? 20u : 8u, 2, 2, bias == 1 ? 5u : 1u, 1, 1, 2, 1, 1, 1});
		uint64_t v = (choose(4) == 0 ? choose64() : ++seq) & o.mask;
		switch (op) {
		case 0: {
			int burst = choose(6) == 0 ? (int) range(1, 40) : 1;
			for (int b = 0; b < burst; b++, v = (v + 1) & o.mask) {
				uint64_t r0 = mallocs_refused();
				o.add(a, v);
				bool refused = mallocs_refused() != r0;
				trace("add %lu%s", (unsigned long) v, refused ? " (refused)" : "");
				CHECK("C01:oom", o.oom(a) == refused,
				      "add %s memory but oom is %d", refused ? "was refused" : "got", o.oom(a));
				if (!refused)
					m.push_back(v);
				else {
					probe("array add refused");
					check_all(o, a, m);
				}
			}
			break;
		}
		case 1:
			if (m.empty())
				break;
			{
				size_t i = choose((uint32_t) m.size());
				if (choose(4) == 0)
					i = m.size() - 1;
				trace("del %zu", i);
				o.del(a, i);
				m.erase(m.begin() + (long) i);
			}
			break;
		case 2:
			if (m.empty())
				break;
			{
				size_t i = choose((uint32_t) m.size());
				if (choose(4) == 0)
					i = m.size() - 1;
				trace("del_unordered %zu", i);
				o.del_unordered(a, i);
				m[i] = m.back();
				m.pop_back();
			}
			break;
		case 3:
			if (m.empty())
				break;
			trace("del_last");
			o.del_last(a);
			m.pop_back();
			break;
		case 4:
			if (choose(3))
				break;
			trace("clear");
			o.clear(a);
			m.clear();
			CHECK("C01:oom", !o.oom(a), "a cleared array reports out of memory");
			break;
		case 5: {
			trace("sort");
			o.sort(a);
			std::vector<uint64_t> x;
			for (size_t i = 0; i < o.size(a) && i < m.size() + 1; i++)
				x.push_back(o.at(a, i));
			for (size_t i = 1; i < x.size(); i++)
				CHECK("C01:sort", x[i - 1] >> 2 <= x[i] >> 2, "not sorted at %zu", i);
			auto p = x, q = m;
			std::sort(p.begin(), p.end());
			std::sort(q.begin(), q.end());
			CHECK("C01:sort", p == q, "sorting changed the set of elements");
			m = x; // elements that compare equal may take any order
			break;
		}
		case 6: {
			size_t max = choose(2) ? choose((uint32_t) m.size() + 2) : m.size() + 5;
			bool cont = choose(2);
			std::vector<uint64_t> want, out(m.size() + 6);
			for (auto x : m) {
				if (want.size() == max)
					break;
				if (!cont || !(x & 1))
					want.push_back(x);
			}
			size_t c = o.foreach (a, out.data(), max, cont);
			out.resize(c);
			CHECK("C01:iterate", out == want, "iteration with %s visited %zu elements, expected %zu",
			      cont ? "continue" : "break", c, want.size());
			break;
		}
		case 7:
			if (m.empty())
				break;
			{
				size_t i = choose((uint32_t) m.size());
				o.set(a, i, v);
				m[i] = v;
			}
			break;
		case 9: {
			int how = (int) choose(3);
			if (m.empty() && how < 2)
				break;
			size_t i = m.empty() ? 0 : choose((uint32_t) m.size());
			uint64_t w = how == 0 ? m[i] : how == 1 ? m.back() : m.size() & o.mask;
			uint64_t r0 = mallocs_refused();
			o.add_own(a, how, i);
			bool refused = mallocs_refused() != r0;
			trace("add own %s %zu%s", how == 0 ? "element" : how == 1 ? "last" : "size", i, refused ? " (refused)" : "");
			CHECK("C01:oom", o.oom(a) == refused, "add %s memory but oom is %d", refused ? "was refused" : "got", o.oom(a));
			if (!refused)
				m.push_back(w);
			break;
		}
		default:
			if (choose(10))
				break;
			trace("term");
			o.term(a);
			m.clear();
			CHECK("C01:size", o.size(a) == 0 && !o.oom(a), "a terminated array is not empty");
			if (choose(2))
				o.term(a);
			break;
		}
		CHECK("C01:size", o.size(a) == m.size(), "size is %zu, expected %zu", o.size(a), m.size());
		if (m.size() < 40 || s % 8 == 0)
			check_all(o, a, m);
		state_hash(m.size() * 64 + op);
	}
	check_all(o, a, m);
	o.term(a);
	harness_free(a);
}

SCENARIO(C01, histories, 1500)
{
	swarm_malloc();
	hist_array();
	check_leaks();
}
