// C02: queue against a reference double-ended queue, with refused allocations.
#include "kernel.h"
#include "w_cont.h"
using namespace sim;

ACCEPT(C02, "mem:", "leak", "hang:", "assert", "exit:")

static void check_all(const w_queue_ops &o, void *q, const std::deque<uint64_t> &m, bool deep)
{
	CHECK("C02:size", o.size(q) == m.size(), "size is %zu, expected %zu", o.size(q), m.size());
	CHECK("C02:size", o.empty(q) == m.empty(), "empty is %d with %zu elements", o.empty(q), m.size());
	if (m.empty())
		return;
	CHECK("C02:ends", o.peek_first(q) == m.front(), "first is %lu, expected %lu",
	      (unsigned long) o.peek_first(q), (unsigned long) m.front());
	CHECK("C02:ends", o.peek_last(q) == m.back(), "last is %lu, expected %lu",
	      (unsigned long) o.peek_last(q), (unsigned long) m.back());
	if (!deep)
		return;
	std::vector<uint64_t> want(m.begin(), m.end()), out(m.size() + 2);
	size_t n = o.foreach (q, out.data(), m.size() + 1, false);
	out.resize(n);
	CHECK("C02:content", out == want, "iteration yields other elements than the %zu expected", m.size());
	for (size_t i = 0; i < m.size(); i++)
		CHECK("C02:content", o.at(q, i) == m[i], "element %zu is %lu, expected %lu", i,
		      (unsigned long) o.at(q, i), (unsigned long) m[i]);
	out.assign(m.size() + 2, 0);
	n = o.walk(q, out.data());
	out.resize(n);
	CHECK("C02:content", out == want, "walking the indexes yields other elements than expected");
}

HISTORY(C02, queue)
{
	const w_queue_ops &o = w_queues[choose((uint32_t) w_queues_n)];
	trace("queue of %s", o.name);
	void *q = harness_alloc(o.size_of);
	std::deque<uint64_t> m;
	bool ok = false; // initialised with memory
	auto init = [&]() {
		uint64_t r0 = mallocs_refused();
		o.init(q);
		ok = mallocs_refused() == r0;
		trace("init%s", ok ? "" : " (refused)");
		CHECK("C02:oom", o.oom(q) == !ok, "init %s memory but oom is %d", ok ? "got" : "was refused",
		      o.oom(q));
		m.clear();
	};
	init();
	int n = (int) range(1, choose(4) == 0 ? 160 : 40);
	uint32_t ba = range(1, 8), bd = range(1, 8), ends = choose(3);
	uint64_t seq = choose(1000);
	for (int s = 0; s < n; s++) {
		uint32_t op = weighted({ba, ba, bd, bd, 1, 1, 1, 1});
		if (ends == 1 && op < 4)
			op = op < 2 ? 1 : 2; // first in, first out
		uint64_t v = (choose(4) == 0 ? choose64() : ++seq) & o.mask;
		switch (op) {
		case 0:
		case 1: {
			uint64_t r0 = mallocs_refused();
			if (op == 0)
				o.add_first(q, v);
			else
				o.add_last(q, v);
			bool refused = mallocs_refused() != r0;
			trace("add_%s %lu%s", op ? "last" : "first", (unsigned long) v,
			      refused ? " (refused)" : "");
			if (!ok) {
				// no memory since the start: the report stands, or the add got memory
				if (o.oom(q))
					break;
				ok = true;
			} else {
				CHECK("C02:oom", o.oom(q) == refused, "add %s memory but oom is %d (size %zu)",
				      refused ? "was refused" : "had", o.oom(q), o.size(q));
			}
			if (refused) {
				probe("queue add refused");
				check_all(o, q, m, true);
			} else if (op == 0)
				m.push_front(v);
			else
				m.push_back(v);
			break;
		}
		case 2:
		case 3: {
			if (m.empty())
				break;
			uint64_t got = op == 2 ? o.del_first(q) : o.del_last(q);
			uint64_t want = op == 2 ? m.front() : m.back();
			trace("del_%s = %lu", op == 2 ? "first" : "last", (unsigned long) got);
			CHECK("C02:order", got == want, "del_%s returned %lu, expected %lu",
			      op == 2 ? "first" : "last", (unsigned long) got, (unsigned long) want);
			if (op == 2)
				m.pop_front();
			else
				m.pop_back();
			break;
		}
		case 7: {
			int how = (int) choose(5);
			bool first = ends != 1 && choose(2);
			if (!ok || (m.empty() && how != 3))
				break;
			size_t i = m.empty() ? 0 : choose((uint32_t) m.size());
			uint64_t w = how == 0	? m[i]
				     : how == 1 ? m.front()
				     : how == 2 ? m.back()
				     : how == 3 ? m.size() & o.mask
				     : first	? m.back()
						: m.front();
			uint64_t r0 = mallocs_refused();
			o.add_own(q, first, how, i);
			bool refused = mallocs_refused() != r0;
			trace("add own (%d, %zu) %s%s", how, i, first ? "first" : "last", refused ? " (refused)" : "");
			CHECK("C02:oom", o.oom(q) == refused, "add %s memory but oom is %d (size %zu)", refused ? "was refused" : "had",
			      o.oom(q), o.size(q));
			if (refused) {
				check_all(o, q, m, true);
				break;
			}
			if (how == 4 && first)
				m.pop_back();
			else if (how == 4)
				m.pop_front();
			if (first)
				m.push_front(w);
			else
				m.push_back(w);
			break;
		}
		case 4:
			if (!ok || choose(4))
				break;
			trace("clear");
			o.clear(q);
			m.clear();
			break;
		case 5: {
			if (!ok)
				break;
			size_t max = choose((uint32_t) m.size() + 2);
			bool cont = choose(2);
			std::vector<uint64_t> want, out(m.size() + 6);
			for (auto x : m) {
				if (want.size() == max)
					break;
				if (!cont || !(x & 1))
					want.push_back(x);
			}
			size_t c = o.foreach (q, out.data(), max, cont);
			out.resize(c);
			CHECK("C02:content", out == want, "iteration with break/continue differs");
			break;
		}
		default:
			if (choose(8))
				break;
			trace("term");
			o.term(q);
			if (choose(3) == 0)
				o.term(q);
			init();
			break;
		}
		if (ok)
			check_all(o, q, m, m.size() < 24 || s % 16 == 0);
		state_hash(m.size() * 64 + op);
	}
	if (ok)
		check_all(o, q, m, true);
	// once memory is there again, adds succeed again
	if (ok) {
		NoFaults nf;
		for (int i = 0; i < 3; i++) {
			uint64_t v = ++seq & o.mask;
			o.add_last(q, v);
			CHECK("C02:recover", !o.oom(q), "an add with memory available reports out of memory");
			m.push_back(v);
		}
		check_all(o, q, m, true);
	}
	o.term(q);
	harness_free(q);
}

SCENARIO(C02, histories, 1000)
{
	swarm_malloc();
	hist_queue();
	check_leaks();
}
