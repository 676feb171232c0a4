// C01-C06, T01: what a container does at the largest size it was built for. A refusal there is the same refusal as one
// of memory: it is reported, nothing changes, and there is room again once elements leave.
#include "kernel.h"
#include "max_sizes.h"
#include "w_cont.h"
#include <algorithm>
extern "C" {
#include "sc_buf.h"
#include "sc_heap.h"
#include "sc_str.h"
#include "sc_timer.h"
}
using namespace sim;

ACCEPT(C01, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C02, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C03, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C04, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C05, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C06, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(T01, "mem:", "leak", "hang:", "assert", "exit:")

// A limit for this run; none in the build whose limits are constants.
static size_t pick(size_t lo, size_t hi)
{
	if (choose(3) == 0)
		fault_set(F_MALLOC, range(4, 60));
	if (!sim_limits_used)
		return 0;
	size_t n = choose(3) ? range(lo, hi) : (size_t) lo << choose(5);
	trace("limit %zu", n);
	return n;
}

SCENARIO(C01, limit, 40)
{
	const w_array_ops &o = w_arrays[choose((uint32_t) w_arrays_n)];
	size_t max = pick(8, 300);
	if (max)
		sim_limits.array = max * o.elem + choose((uint32_t) o.elem);
	void *a = harness_alloc(o.size_of);
	std::vector<uint64_t> m;
	o.init(a);
	uint64_t seq = choose(100);
	auto same = [&]() {
		std::vector<uint64_t> out(m.size() + 2);
		out.resize(o.foreach (a, out.data(), m.size() + 1, false));
		CHECK("C01:content", out == m && o.size(a) == m.size(), "at the limit: size %zu, %zu elements seen, expected %zu",
		      o.size(a), out.size(), m.size());
	};
	int refusals = 0;
	for (int s = 0, n = (int) range(20, 700); s < n; s++) {
		if (choose(refusals ? 3 : 12) || m.empty()) {
			uint64_t r0 = mallocs_refused(), v = ++seq & o.mask;
			o.add(a, v);
			bool refused = mallocs_refused() != r0, oom = o.oom(a);
			if (oom && !refused) {
				refusals++;
				probe("array at its limit");
				CHECK("C01:limit", max && m.size() * 2 + 2 > max, "an add is refused with %zu of %zu elements", m.size(), max);
			}
			CHECK("C01:oom", oom || !refused, "an add was refused memory and does not report it");
			if (!oom)
				m.push_back(v);
			CHECK("C01:limit", !max || m.size() <= max, "the array holds %zu elements, its limit is %zu", m.size(), max);
		} else if (choose(2)) {
			size_t i = choose((uint32_t) m.size());
			o.del(a, i);
			m.erase(m.begin() + (long) i);
			uint64_t v = ++seq & o.mask;
			o.add(a, v); // there is room for it now
			CHECK("C01:oom", !o.oom(a), "an add with room left reports out of memory");
			m.push_back(v);
		} else {
			o.del_last(a);
			m.pop_back();
		}
		if (s % 16 == 0)
			same();
	}
	same();
	o.term(a);
	harness_free(a);
	check_leaks();
}

SCENARIO(C02, limit, 40)
{
	const w_queue_ops &o = w_queues[choose((uint32_t) w_queues_n)];
	size_t max = pick(16, 300);
	if (max)
		sim_limits.queue = max;
	void *q = harness_alloc(o.size_of);
	std::deque<uint64_t> m;
	for (;;) {
		o.init(q);
		if (!o.oom(q))
			break;
		o.term(q);
	}
	uint64_t seq = choose(100);
	auto same = [&]() {
		std::vector<uint64_t> out(m.size() + 2), want(m.begin(), m.end());
		out.resize(o.foreach (q, out.data(), m.size() + 1, false));
		CHECK("C02:content", out == want && o.size(q) == m.size(), "at the limit: size %zu, %zu elements seen, expected %zu",
		      o.size(q), out.size(), m.size());
	};
	for (int s = 0, n = (int) range(20, 700), full = 0; s < n; s++) {
		if (choose(full ? 3 : 12) || m.empty()) {
			bool first = choose(2);
			uint64_t r0 = mallocs_refused(), v = ++seq & o.mask;
			first ? o.add_first(q, v) : o.add_last(q, v);
			bool refused = mallocs_refused() != r0, oom = o.oom(q);
			if (oom && !refused) {
				full = 1;
				probe("queue at its limit");
				CHECK("C02:limit", max && m.size() * 2 + 4 > max, "an add is refused with %zu of %zu elements", m.size(), max);
			}
			CHECK("C02:oom", oom || !refused, "an add was refused memory and does not report it");
			if (!oom && first)
				m.push_front(v);
			else if (!oom)
				m.push_back(v);
			CHECK("C02:limit", !max || m.size() <= max, "the queue holds %zu elements, its limit is %zu", m.size(), max);
		} else {
			bool first = choose(2);
			uint64_t v = first ? o.del_first(q) : o.del_last(q), want = first ? m.front() : m.back();
			CHECK("C02:order", v == want, "a delete at the limit returned %lu, expected %lu", (unsigned long) v, (unsigned long) want);
			first ? m.pop_front() : m.pop_back();
			if (choose(2)) {
				uint64_t x = ++seq & o.mask;
				o.add_last(q, x);
				CHECK("C02:oom", !o.oom(q), "an add with room left reports out of memory");
				m.push_back(x);
			}
		}
		if (s % 16 == 0)
			same();
	}
	same();
	o.term(q);
	harness_free(q);
	check_leaks();
}

SCENARIO(C03, limit, 40)
{
	const w_map_ops *po;
	do
		po = &w_maps[choose((uint32_t) w_maps_n)];
	while (po->strkey);
	const w_map_ops &o = *po;
	size_t max = pick(16, 300);
	if (max)
		sim_limits.map = (uint32_t) max;
	void *t = harness_alloc(o.size_of);
	std::map<uint64_t, uint64_t> ref;
	for (;;) {
		uint32_t cap = choose(3) ? 0 : choose(40);
		uint64_t r0 = mallocs_refused();
		bool ok = o.init(t, cap, choose(2) ? 0 : range(25, 95));
		CHECK("C03:init", ok || mallocs_refused() != r0 || (max && cap > max), "init with capacity %u of %zu fails", cap, max);
		if (ok)
			break;
	}
	if (max && choose(4) == 0) {
		void *u = harness_alloc(o.size_of);
		bool ok = o.init(u, (uint32_t) max + range(1, 50), 0);
		CHECK("C03:limit", !ok, "init with a capacity above the limit succeeds");
		if (ok)
			o.term(u);
		harness_free(u);
	}
	// the limit is on what is asked for; the slots are the next power of two
	size_t slots = 1;
	while (slots < max)
		slots *= 2;
	uint64_t space = range(4, 600), seq = 0;
	auto same = [&]() {
		CHECK("C03:size", o.size(t) == ref.size(), "at the limit: size %u, expected %zu", o.size(t), ref.size());
		std::vector<uint64_t> k(ref.size() + 2), v(ref.size() + 2);
		size_t c = o.foreach (t, k.data(), v.data(), ref.size() + 2);
		std::map<uint64_t, uint64_t> seen;
		for (size_t i = 0; i < c; i++)
			seen[k[i]] = v[i];
		CHECK("C03:iterate", c == ref.size() && seen == ref, "at the limit: iteration yields other pairs");
		for (auto &x : ref) {
			uint64_t got = o.get(t, x.first);
			CHECK("C03:get", o.found(t) && got == x.second, "at the limit: get(%lu) found %d, value %lu",
			      (unsigned long) x.first, o.found(t), (unsigned long) got);
		}
	};
	for (int s = 0, n = (int) range(20, 700), full = 0; s < n; s++) {
		uint64_t k = choose((uint32_t) space) & o.kmask;
		auto it = ref.find(k);
		if (choose(full ? 3 : 12)) {
			uint64_t r0 = mallocs_refused(), v = ++seq & o.vmask, old = o.put(t, k, v);
			bool refused = mallocs_refused() != r0;
			if (o.oom(t)) {
				if (!refused) {
					full = 1;
					probe("map at its limit");
					CHECK("C03:limit", max && (ref.size() + 1) * 9 > max, "a put is refused with %zu pairs, the limit is %zu",
					      ref.size(), max);
				}
			} else {
				CHECK("C03:put", o.found(t) == (it != ref.end()) && old == (it == ref.end() ? 0 : it->second),
				      "put(%lu) at the limit: found %d, old %lu", (unsigned long) k, o.found(t), (unsigned long) old);
				ref[k] = v;
			}
			CHECK("C03:limit", !max || ref.size() <= slots + 1, "the map holds %zu pairs, its limit is %zu", ref.size(), max);
		} else {
			uint64_t v = o.del(t, k);
			CHECK("C03:del", o.found(t) == (it != ref.end()) && v == (it == ref.end() ? 0 : it->second),
			      "del(%lu) at the limit: found %d, value %lu", (unsigned long) k, o.found(t), (unsigned long) v);
			if (it != ref.end())
				ref.erase(it);
		}
		if (s % 32 == 0)
			same();
	}
	same();
	o.term(t);
	harness_free(t);
	check_leaks();
}

SCENARIO(C04, limit, 40)
{
	size_t max = pick(8, 300);
	if (max)
		sim_limits.heap = max;
	struct sc_heap *h = (struct sc_heap *) harness_alloc(sizeof(*h));
	for (;;) {
		size_t cap = choose(2) ? 0 : choose(40);
		uint64_t r0 = mallocs_refused();
		bool ok = sc_heap_init(h, cap);
		CHECK("C04:init", ok || mallocs_refused() != r0 || (max && cap > max), "init with capacity %zu of %zu fails", cap, max);
		if (ok)
			break;
	}
	if (max && choose(4) == 0) {
		struct sc_heap *u = (struct sc_heap *) harness_alloc(sizeof(*u));
		CHECK("C04:limit", !sc_heap_init(u, max + range(1, 50)), "init with a capacity above the limit succeeds");
		harness_free(u);
	}
	std::multimap<int64_t, uint64_t> m;
	uint64_t seq = 0;
	auto pop = [&]() {
		struct sc_heap_data *d = sc_heap_pop(h);
		CHECK("C04:lost", (d == nullptr) == m.empty(), "pop with %zu elements", m.size());
		if (!d)
			return;
		CHECK("C04:order", d->key == m.begin()->first, "pop yields key %ld, the smallest is %ld", (long) d->key,
		      (long) m.begin()->first);
		auto r = m.equal_range(d->key);
		auto it = std::find_if(r.first, r.second, [&](auto &x) { return x.second == (uint64_t) d->data; });
		CHECK("C04:data", it != r.second, "pop yields data that is not in the heap with its key");
		m.erase(it);
	};
	for (int s = 0, n = (int) range(20, 700), full = 0; s < n; s++) {
		if (choose(full ? 3 : 12)) {
			int64_t k = (int64_t) choose(100) - 50;
			uint64_t r0 = mallocs_refused();
			bool ok = sc_heap_add(h, k, (void *) ++seq), refused = mallocs_refused() != r0;
			CHECK("C04:add", !ok || !refused, "an add was refused memory and returned true");
			if (!ok && !refused) {
				full = 1;
				probe("heap at its limit");
				CHECK("C04:limit", max && m.size() * 2 + 6 > max, "an add is refused with %zu of %zu elements", m.size(), max);
			}
			if (ok)
				m.insert({k, seq});
			CHECK("C04:limit", !max || m.size() <= max * 2, "the heap holds %zu elements, its limit is %zu", m.size(), max);
		} else
			pop();
		CHECK("C04:size", sc_heap_size(h) == m.size(), "size is %zu, expected %zu", sc_heap_size(h), m.size());
	}
	while (!m.empty())
		pop();
	pop();
	sc_heap_term(h);
	harness_free(h);
	check_leaks();
}

SCENARIO(C05, limit, 60)
{
	size_t max = pick(4, 80);
	if (!max)
		max = 1 << 30;
	else
		sim_limits.str = max;
	auto text = [&](size_t n) {
		std::string s;
		while (n--)
			s += (char) ('a' + choose(3));
		return s;
	};
	char *s = nullptr;
	std::string m;
	for (int k = 0, n = (int) range(3, 60); k < n; k++) {
		uint64_t r0 = mallocs_refused();
		std::string x;
		const char *op = "";
		bool ok = true;
		if (!s) {
			x = text(choose(40));
			s = sc_str_create(x.c_str());
			op = "create";
			ok = s != nullptr;
		} else
			switch (choose(7)) {
			case 0:
			case 1: {
				std::string t = text(choose(20));
				x = m + t;
				op = "append";
				ok = sc_str_append(&s, t.c_str());
				break;
			}
			case 2: {
				std::string a = text(range(1, 3)), b = text(choose(5));
				for (size_t i = 0; i < m.size();)
					if (m.compare(i, a.size(), a) == 0)
						x += b, i += a.size();
					else
						x += m[i++];
				op = "replace";
				ok = sc_str_replace(&s, a.c_str(), b.c_str());
				break;
			}
			case 3:
				x = text(choose(100));
				op = "set";
				ok = sc_str_set(&s, x.c_str());
				break;
			case 4: {
				size_t a = choose((uint32_t) m.size() + 1), e = a + choose((uint32_t) (m.size() - a) + 1);
				x = m.substr(a, e - a);
				op = "substring";
				ok = sc_str_substring(&s, (uint32_t) a, (uint32_t) e);
				break;
			}
			case 5: {
				x = m;
				op = "dup";
				char *d = sc_str_dup(s);
				ok = d != nullptr;
				if (d)
					CHECK("C05:content", sc_str_len(d) == (int64_t) m.size() && m == d, "a copy differs");
				sc_str_destroy(&d);
				break;
			}
			default: {
				size_t a = m.find_first_not_of("b"), e = m.find_last_not_of("b");
				x = a == std::string::npos ? "" : m.substr(a, e - a + 1);
				op = "trim";
				ok = sc_str_trim(&s, "b");
				break;
			}
			}
		bool refused = mallocs_refused() != r0;
		trace("%s: %zu -> %zu of %zu: %s", op, m.size(), x.size(), max, ok ? "ok" : "refused");
		if (x.size() > max) {
			probe("string at its limit");
			CHECK("C05:limit", !ok, "%s made a string of %zu bytes, the limit is %zu", op, x.size(), max);
		} else
			CHECK("C05:result", ok == !refused, "%s to %zu bytes of %zu returned %d, memory %s", op, x.size(), max, ok,
			      refused ? "refused" : "given");
		if (!s)
			continue;
		if (ok)
			m = x;
		CHECK("C05:content", sc_str_len(s) == (int64_t) m.size() && memcmp(s, m.c_str(), m.size() + 1) == 0,
		      "after %s at the limit the text is not the expected %zu bytes", op, m.size());
	}
	sc_str_destroy(&s);
	check_leaks();
}

SCENARIO(C06, limit, 40)
{
	size_t max = pick(4097, 60000);
	if (!max)
		max = 1u << 30;
	else
		sim_limits.buf = max;
	struct sc_buf *b = (struct sc_buf *) harness_alloc(sizeof(*b));
	while (!sc_buf_init(b, choose(2) ? 0 : choose(6000)))
		;
	std::deque<std::pair<int, std::string>> q; // kind, bytes
	for (int k = 0, n = (int) range(4, 80), full = 0; k < n; k++) {
		if (choose(full ? 2 : 6)) {
			int kind = (int) choose(4);
			std::string x(choose(3) ? choose(300) : choose(9000), (char) ('a' + choose(26)));
			uint64_t r0 = mallocs_refused(), w0 = sc_buf_wpos(b);
			switch (kind) {
			case 0:
				sc_buf_put_str(b, x.c_str());
				break;
			case 1:
				sc_buf_put_str_len(b, x.data(), x.size());
				break;
			case 2:
				sc_buf_put_raw(b, x.data(), x.size());
				break;
			default:
				sc_buf_put_str(b, nullptr); // read back as no string
				x.clear();
				break;
			}
			bool refused = mallocs_refused() != r0;
			size_t more = kind == 2 ? x.size() : x.size() + 9;
			if (!sc_buf_valid(b)) {
				if (!refused) {
					full = 1;
					probe("buffer at its limit");
					CHECK("C06:limit", sc_buf_cap(b) + more + 12288 > max, "a put of %zu is refused with %lu held of %zu", more,
					      (unsigned long) sc_buf_cap(b), max);
				}
				sc_buf_set_wpos(b, w0);
				b->err = 0;
			} else {
				q.push_back({kind, x});
			}
			CHECK("C06:limit", sc_buf_cap(b) <= max + 8192 + more, "the buffer has %lu bytes, the limit is %zu",
			      (unsigned long) sc_buf_cap(b), max);
		} else if (!q.empty()) {
			auto [kind, x] = q.front();
			q.pop_front();
			if (kind == 2) {
				std::string got(x.size(), 0);
				sc_buf_get_data(b, &got[0], got.size());
				CHECK("C06:value", got == x, "%zu raw bytes read back differ", x.size());
			} else {
				const char *got = sc_buf_get_str(b);
				CHECK("C06:value", kind == 3 ? got == nullptr : got && x == got, "a text of %zu bytes reads back wrongly", x.size());
			}
			CHECK("C06:valid", sc_buf_valid(b), "reading what was written marks the buffer invalid");
		} else
			sc_buf_compact(b);
	}
	sc_buf_term(b);
	harness_free(b);
	check_leaks();
}

SCENARIO(T01, limit, 40)
{
	size_t max = pick(8, 64);
	if (max)
		sim_limits.timer = max;
	uint64_t now = choose(2) ? choose(100000) : choose64() >> 8, last = now;
	struct sc_timer *t = (struct sc_timer *) harness_alloc(sizeof(*t));
	sc_timer_init(t, now);
	struct Armed {
		uint64_t deadline, id;
	};
	static std::map<uint64_t, Armed> armed; // by data
	static uint64_t at;
	armed.clear();
	auto fire = [](void *, uint64_t timeout, uint64_t, void *data) {
		auto it = armed.find((uint64_t) data);
		CHECK("T01:unknown", it != armed.end(), "a timer fires that is not armed");
		CHECK("T01:early", it->second.deadline <= at, "a timer fires %lu too early", (unsigned long) (it->second.deadline - at));
		(void) timeout;
		armed.erase(it);
	};
	uint64_t seq = 0;
	for (int s = 0, n = (int) range(20, 900), full = 0; s < n; s++) {
		if (choose(full ? 3 : 40)) {
			uint64_t to = choose(2) ? choose(300) : choose(5) ? 16 * choose(4) + choose(16) : choose(100000);
			uint64_t r0 = mallocs_refused(), d = ++seq;
			uint64_t id = sc_timer_add(t, to, 7, (void *) d);
			bool refused = mallocs_refused() != r0;
			if (id == SC_TIMER_INVALID) {
				if (!refused) {
					full = 1;
					probe("timer at its limit");
					CHECK("T01:limit", max && armed.size() * 2 + 2 > max, "an add is refused with %zu armed, the limit is %zu",
					      armed.size(), max);
				}
			} else {
				CHECK("T01:oom", !refused, "an add was refused memory and returned an id");
				armed[d] = {last + to, id};
			}
			CHECK("T01:limit", !max || armed.size() <= max * 32, "%zu timers are armed, the limit is %zu a slot", armed.size(), max);
		} else if (choose(2) && !armed.empty()) {
			auto it = armed.begin();
			std::advance(it, choose((uint32_t) armed.size()));
			sc_timer_cancel(t, &it->second.id);
			armed.erase(it);
		} else {
			now += choose(3) ? choose(40) : choose(5000);
			at = now;
			sc_timer_timeout(t, now, nullptr, fire);
			if (now - last >= 16) // a tick: times of adds count from here
				last = now;
		}
	}
	now += 20000000;
	at = now;
	sc_timer_timeout(t, now, nullptr, fire);
	CHECK("T01:lost", armed.empty(), "%zu timers never fired", armed.size());
	sc_timer_term(t);
	harness_free(t);
	check_leaks();
}
