// C01-C06, T01: the same promises with very many elements, and over very many
// operations on few elements. The values follow from a few choices.
#include "kernel.h"
#include "w_cont.h"
#include <algorithm>
extern "C" {
#include "sc_buf.h"
#include "sc_heap.h"
#include "sc_str.h"
#include "sc_timer.h"
}
using namespace sim;

ACCEPT(C01, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C02, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C03, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C04, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C05, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C06, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(T01, "mem:", "leak", "hang:", "assert", "exit:")

namespace {
struct Rng {
	uint64_t s = choose64();
	uint64_t operator()()
	{
		s += 0x9e3779b97f4a7c15ull;
		uint64_t z = s;
		z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ z >> 27) * 0x94d049bb133111ebull;
		return z ^ z >> 31;
	}
	uint64_t operator()(uint64_t n) { return (*this)() % n; }
};
} // namespace

// around the sizes where a counter, an index or a growth step ends
static size_t many()
{
	static const size_t at[] = {250, 510, 1020, 2040, 4090, 8190, 16380, 32760, 65530, 65530, 131070};
	return at[choose(11)] + choose(12);
}
// failing now and then, not at every second allocation
static void rare_refusals()
{
	step_budget(1000000000);
	if (choose(3) == 0)
		fault_set(F_MALLOC, range(20, 600));
}

SCENARIO(C01, large, 1)
{
	rare_refusals();
	const w_array_ops &o = w_arrays[choose((uint32_t) w_arrays_n)];
	void *a = harness_alloc(o.size_of);
	std::vector<uint64_t> m;
	Rng r;
	o.init(a);
	auto same = [&](const char *op) {
		std::vector<uint64_t> out(m.size() + 2);
		size_t n = o.foreach (a, out.data(), m.size() + 1, false);
		out.resize(n);
		CHECK("C01:size", o.size(a) == m.size() && n == m.size(), "after %s: size %zu, iteration %zu, expected %zu", op,
		      o.size(a), n, m.size());
		for (size_t i = 0; i < n; i++)
			CHECK("C01:content", out[i] == m[i], "after %s element %zu of %zu is %lu, expected %lu", op, i, n,
			      (unsigned long) out[i], (unsigned long) m[i]);
		if (n)
			CHECK("C01:content", o.last(a) == m.back() && o.at(a, n / 2) == m[n / 2], "after %s: last or middle", op);
	};
	auto add = [&](size_t n) {
		for (size_t i = 0; i < n; i++) {
			uint64_t v = r() & o.mask, r0 = mallocs_refused();
			o.add(a, v);
			bool refused = mallocs_refused() != r0;
			CHECK("C01:oom", o.oom(a) == refused, "add %zu %s memory but oom is %d", m.size(),
			      refused ? "was refused" : "got", o.oom(a));
			if (refused)
				same("a refused add");
			else
				m.push_back(v);
		}
	};
	add(many());
	same("adding");
	for (int k = 0, rounds = (int) range(1, 4); k < rounds; k++) {
		uint32_t op = choose(5);
		trace("%s with %zu", op == 0 ? "del" : op == 1 ? "del_unordered" : op == 2 ? "sort" : op == 3 ? "del_last" : "clear", m.size());
		switch (op) {
		case 0:
			for (size_t i = 0, n = std::min<size_t>(m.size(), 20); i < n; i++) {
				size_t at = r(m.size());
				o.del(a, at);
				m.erase(m.begin() + (long) at);
			}
			break;
		case 1:
			for (size_t i = 0, n = m.size() / 2; i < n; i++) {
				size_t at = r(m.size());
				o.del_unordered(a, at);
				m[at] = m.back();
				m.pop_back();
			}
			break;
		case 2: {
			o.sort(a);
			std::vector<uint64_t> x(m.size() + 2);
			x.resize(o.foreach (a, x.data(), m.size() + 1, false));
			for (size_t i = 1; i < x.size(); i++)
				CHECK("C01:sort", x[i - 1] >> 2 <= x[i] >> 2, "not sorted at %zu", i);
			auto p = x;
			std::sort(p.begin(), p.end());
			std::sort(m.begin(), m.end());
			CHECK("C01:sort", p == m, "sorting changed the set of elements");
			m = x;
			break;
		}
		case 3:
			for (size_t n = r(m.size() + 1); n; n--) {
				o.del_last(a);
				m.pop_back();
			}
			break;
		default:
			o.clear(a);
			m.clear();
			break;
		}
		same("the change");
		add(r(m.size() / 2 + 40));
		same("adding again");
		state_hash(m.size() * 8 + op);
	}
	while (m.size() > 3) {
		o.del_last(a);
		m.pop_back();
	}
	same("emptying");
	o.term(a);
	harness_free(a);
	check_leaks();
}

SCENARIO(C02, large, 1)
{
	rare_refusals();
	const w_queue_ops &o = w_queues[choose((uint32_t) w_queues_n)];
	void *q = harness_alloc(o.size_of);
	std::deque<uint64_t> m;
	Rng r;
	for (bool ok = false; !ok;) {
		uint64_t r0 = mallocs_refused();
		o.init(q);
		ok = mallocs_refused() == r0;
		if (!ok)
			o.term(q);
	}
	auto add = [&](bool first) {
		uint64_t v = r() & o.mask, r0 = mallocs_refused();
		if (first)
			o.add_first(q, v);
		else
			o.add_last(q, v);
		bool refused = mallocs_refused() != r0;
		CHECK("C02:oom", o.oom(q) == refused, "add %s memory but oom is %d (size %zu)", refused ? "was refused" : "had",
		      o.oom(q), m.size());
		if (!refused && first)
			m.push_front(v);
		else if (!refused)
			m.push_back(v);
	};
	auto del = [&](bool first) {
		if (m.empty())
			return;
		uint64_t got = first ? o.del_first(q) : o.del_last(q), want = first ? m.front() : m.back();
		CHECK("C02:order", got == want, "del_%s of %zu returned %lu, expected %lu", first ? "first" : "last", m.size(),
		      (unsigned long) got, (unsigned long) want);
		if (first)
			m.pop_front();
		else
			m.pop_back();
	};
	auto same = [&]() {
		CHECK("C02:size", o.size(q) == m.size() && o.empty(q) == m.empty(), "size is %zu, expected %zu", o.size(q), m.size());
		std::vector<uint64_t> want(m.begin(), m.end()), out(m.size() + 2);
		out.resize(o.foreach (q, out.data(), m.size() + 1, false));
		CHECK("C02:content", out == want, "iteration yields other elements than the %zu expected", m.size());
		out.assign(m.size() + 2, 0);
		out.resize(m.empty() ? 0 : o.walk(q, out.data()));
		CHECK("C02:content", out == want, "walking the indexes yields other elements than the %zu expected", m.size());
		for (size_t i = 0; i < m.size(); i += 1 + m.size() / 50)
			CHECK("C02:content", o.at(q, i) == m[i], "element %zu is wrong", i);
	};
	if (choose(3) == 0) { // few elements pass through for very long
		size_t depth = range(1, 20);
		bool back = choose(2);
		for (size_t n = many() + (choose(4) ? 0 : 150000); n; n--) {
			add(back);
			while (m.size() > depth)
				del(!back);
			if (n % 4096 < 3)
				same();
		}
	}
	uint32_t mix = choose(3);
	for (size_t n = many(); m.size() < n;)
		add(mix == 0 ? false : mix == 1 ? true : r(2));
	same();
	for (size_t n = r(m.size()); n; n--)
		del(mix == 2 ? r(2) : choose(1));
	same();
	for (size_t n = r(m.size() * 2 + 10); n; n--)
		add(r(2));
	same();
	state_hash(m.size());
	while (!m.empty())
		del(r(2));
	same();
	o.term(q);
	harness_free(q);
	check_leaks();
}

SCENARIO(C03, large, 1)
{
	rare_refusals();
	const w_map_ops *po;
	do
		po = &w_maps[choose((uint32_t) w_maps_n)];
	while (po->strkey);
	const w_map_ops &o = *po;
	void *t = harness_alloc(o.size_of);
	Rng r;
	uint32_t kind = choose(4);
	uint64_t stride = 1ull << choose(12);
	size_t n = many() / (choose(2) ? 1 : 4), churn = many();
	if (kind != 2) { // neighbours form one cluster: deleting walks along it
		n = std::min<size_t>(n, 8200);
		churn = std::min<size_t>(churn, 8200);
	}
	auto key = [&](uint64_t i) {
		return (kind == 0 ? i : kind == 1 ? i * stride : kind == 2 ? i * 0x9e3779b97f4a7c15ull : i << 20 | i) & o.kmask;
	};
	std::map<uint64_t, uint64_t> ref;
	static const uint32_t caps[] = {0, 1, 16, 1000, 70000};
	uint32_t cap = caps[choose(5)], lf = choose(2) ? 0 : range(26, 90);
	for (;;) {
		uint64_t r0 = mallocs_refused();
		bool ok = o.init(t, cap, lf);
		CHECK("C03:init", ok == (mallocs_refused() == r0), "init returned %d", ok);
		if (ok)
			break;
	}
	trace("%s, %zu keys of kind %u, cap %u lf %u", o.name, n, kind, cap, lf);
	auto put = [&](uint64_t k, uint64_t v) {
		uint64_t r0 = mallocs_refused();
		uint64_t old = o.put(t, k, v);
		bool refused = mallocs_refused() != r0;
		if (o.oom(t)) {
			CHECK("C03:oom", refused, "put got memory but reports out of memory");
			CHECK("C03:size", o.size(t) == ref.size(), "a refused put changed the size");
			return;
		}
		auto it = ref.find(k);
		CHECK("C03:put", o.found(t) == (it != ref.end()) && old == (it == ref.end() ? 0 : it->second),
		      "put(%lu) with %zu keys: found %d, old %lu", (unsigned long) k, ref.size(), o.found(t), (unsigned long) old);
		ref[k] = v;
	};
	auto del = [&](uint64_t k) {
		uint64_t v = o.del(t, k);
		auto it = ref.find(k);
		CHECK("C03:del", o.found(t) == (it != ref.end()) && v == (it == ref.end() ? 0 : it->second),
		      "del(%lu) with %zu keys: found %d, value %lu", (unsigned long) k, ref.size(), o.found(t), (unsigned long) v);
		if (it != ref.end())
			ref.erase(it);
	};
	auto same = [&]() {
		CHECK("C03:size", o.size(t) == ref.size(), "size is %u, expected %zu", o.size(t), ref.size());
		size_t max = ref.size() + 2;
		std::vector<uint64_t> k(max), v(max);
		size_t c = o.foreach (t, k.data(), v.data(), max);
		CHECK("C03:iterate", c == ref.size(), "iteration visited %zu pairs, expected %zu", c, ref.size());
		std::set<uint64_t> seen;
		for (size_t i = 0; i < c; i++) {
			auto it = ref.find(k[i]);
			CHECK("C03:iterate", it != ref.end() && it->second == v[i] && seen.insert(k[i]).second,
			      "iteration yields key %lu wrongly", (unsigned long) k[i]);
		}
		for (auto &x : ref) {
			uint64_t got = o.get(t, x.first);
			CHECK("C03:get", o.found(t) && got == x.second, "get(%lu) with %zu keys: found %d, value %lu",
			      (unsigned long) x.first, ref.size(), o.found(t), (unsigned long) got);
		}
	};
	for (size_t i = 0; i < n; i++)
		put(key(i), r() & o.vmask);
	same();
	if (choose(2)) { // keys come and go
		size_t keep = range(1, 30), lo = n;
		for (size_t i = 0; i < n; i++)
			if (i > keep)
				del(key(i));
		for (size_t m = churn; m; m--, lo++) {
			put(key(lo), m & o.vmask);
			del(key(lo - keep));
			if (m % 8192 == 0)
				same();
		}
	} else {
		for (size_t i = 0; i < n; i++) {
			if (r(2))
				del(key(r(n + n / 4 + 1)));
			else
				put(key(r(n + n / 4 + 1)), r() & o.vmask);
		}
	}
	same();
	state_hash(ref.size() * 4 + kind);
	while (ref.size() > 5)
		del(ref.begin()->first);
	same();
	o.clear(t);
	ref.clear();
	same();
	o.term(t);
	harness_free(t);
	check_leaks();
}

SCENARIO(C04, large, 1)
{
	rare_refusals();
	struct sc_heap *h = (struct sc_heap *) harness_alloc(sizeof(*h));
	for (;;) {
		uint64_t r0 = mallocs_refused();
		bool ok = sc_heap_init(h, choose(3) ? 0 : choose(5000));
		CHECK("C04:init", ok == (mallocs_refused() == r0), "init returned %d", ok);
		if (ok)
			break;
	}
	Rng r;
	uint32_t kind = choose(5);
	std::multimap<int64_t, uint64_t> ref;
	std::multiset<int64_t> keys;
	std::vector<int64_t> of; // data -> key, or taken
	std::vector<bool> in;
	auto add = [&]() {
		uint64_t i = of.size();
		int64_t k = kind == 0 ? (int64_t) i : kind == 1 ? -(int64_t) i : kind == 2 ? (int64_t) r(16) : kind == 3 ? (int64_t) r() : (int64_t) (i ^ 0x55);
		uint64_t r0 = mallocs_refused();
		bool ok = sc_heap_add(h, k, (void *) (i + 1));
		CHECK("C04:add", ok == (mallocs_refused() == r0), "add returned %d", ok);
		of.push_back(k);
		in.push_back(ok);
		if (ok)
			keys.insert(k);
	};
	auto pop = [&]() {
		struct sc_heap_data *d = sc_heap_pop(h);
		CHECK("C04:lost", (d == nullptr) == keys.empty(), "pop with %zu elements", keys.size());
		if (!d)
			return;
		uint64_t i = (uint64_t) d->data - 1;
		CHECK("C04:order", d->key == *keys.begin(), "pop yields key %ld, smallest of %zu is %ld", (long) d->key, keys.size(),
		      (long) *keys.begin());
		CHECK("C04:data", i < of.size() && in[i] && of[i] == d->key, "pop yields data that is not in the heap with its key");
		in[i] = false;
		keys.erase(keys.begin());
	};
	for (int k = 0, rounds = (int) range(1, 3); k < rounds; k++) {
		for (size_t n = many() / 2; n; n--)
			add();
		CHECK("C04:size", sc_heap_size(h) == keys.size(), "size is %zu, expected %zu", sc_heap_size(h), keys.size());
		for (size_t n = r(keys.size() + 1); n; n--)
			pop();
		for (size_t n = r(2000); n; n--)
			r(2) ? add() : pop();
		state_hash(keys.size());
	}
	while (!keys.empty())
		pop();
	pop();
	sc_heap_term(h);
	harness_free(h);
	check_leaks();
}

SCENARIO(C05, large, 1)
{
	rare_refusals();
	Rng r;
	auto text = [&](size_t n) {
		std::string s(n, 0);
		uint64_t b = r(200), p = 3 + r(90);
		for (size_t i = 0; i < n; i++)
			s[i] = (char) ('!' + (b + i * 7 + i / p) % 94);
		return s;
	};
	std::string m = text(many());
	char *s = nullptr;
	while (!s)
		s = sc_str_create_len(m.c_str(), (uint32_t) m.size());
	auto same = [&](const char *op) {
		CHECK("C05:len", sc_str_len(s) == (int64_t) m.size(), "after %s the length is %ld, expected %zu", op,
		      (long) sc_str_len(s), m.size());
		CHECK("C05:content", memcmp(s, m.c_str(), m.size() + 1) == 0, "after %s the text of %zu bytes differs", op, m.size());
	};
	same("create");
	for (int k = 0, n = (int) range(1, 8); k < n; k++) {
		uint64_t r0 = mallocs_refused();
		std::string x;
		const char *op = "";
		bool ok = true;
		switch (choose(7)) {
		case 0: {
			std::string t = text(m.size() > 400000 ? r(10) : many());
			op = "append";
			ok = sc_str_append(&s, t.c_str());
			x = m + t;
			break;
		}
		case 1: {
			std::string t = text(m.size() > 400000 ? r(10) : many());
			op = "append_fmt";
			ok = sc_str_append_fmt(&s, "%s|%d", t.c_str(), 42);
			x = m + t + "|42";
			break;
		}
		case 2: {
			op = "set_fmt";
			std::string t = text(many());
			ok = sc_str_set_fmt(&s, "<%s>", t.c_str());
			x = "<" + t + ">";
			break;
		}
		case 3: {
			op = "replace";
			std::string a = text(1), b = choose(2) ? "" : text(r(4));
			if (m.size() > 300000)
				b = "";
			for (size_t i = 0; i < m.size(); i++)
				if (m[i] == a[0])
					x += b;
				else
					x += m[i];
			ok = sc_str_replace(&s, a.c_str(), b.c_str());
			break;
		}
		case 4: {
			op = "substring";
			size_t a = r(m.size() + 1), e = a + r(m.size() - a + 1);
			ok = sc_str_substring(&s, (uint32_t) a, (uint32_t) e);
			x = m.substr(a, e - a);
			break;
		}
		case 5: {
			op = "trim";
			std::string set = text(1 + r(90));
			set.resize(set.size());
			size_t a = m.find_first_not_of(set), e = m.find_last_not_of(set);
			ok = sc_str_trim(&s, set.c_str());
			x = a == std::string::npos ? "" : m.substr(a, e - a + 1);
			break;
		}
		default: {
			op = "tokens";
			std::string sep = text(1 + r(3)), got;
			size_t pieces = 1, seen = 0;
			for (char c : m)
				pieces += sep.find(c) != std::string::npos;
			char *save = nullptr;
			for (const char *t = sc_str_token_begin(s, &save, sep.c_str()); t; t = sc_str_token_begin(s, &save, sep.c_str())) {
				CHECK("C05:token", ++seen <= pieces, "more tokens than there are");
				got += t;
				size_t e = got.size();
				if (e + seen - 1 < m.size())
					got += "";
			}
			sc_str_token_end(s, &save);
			x = m;
			std::string want;
			for (char c : m)
				if (sep.find(c) == std::string::npos)
					want += c;
			CHECK("C05:token", got == want, "the tokens are not the pieces of the text");
			break;
		}
		}
		bool refused = mallocs_refused() != r0;
		trace("%s: %zu -> %zu %s", op, m.size(), x.size(), ok ? "" : "(refused)");
		CHECK("C05:result", ok == !refused, "%s returned %d, memory %s", op, ok, refused ? "refused" : "given");
		if (ok)
			m = x;
		same(op);
		state_hash(m.size());
		if (choose(4) == 0) {
			// a twin, or one that differs in a single place or in its length only
			std::string y = m;
			uint32_t how = choose(4);
			if (how == 1)
				y.resize(y.size() > 65536 && choose(2) ? y.size() - 65536 : y.size() / 2);
			else if (how == 2 && !y.empty())
				y[choose(2) ? y.size() - 1 : choose((uint32_t) y.size())] ^= 1;
			else if (how == 3)
				y += std::string(choose(2) ? 65536 : 256, 'x');
			char *c;
			do
				c = sc_str_create_len(y.data(), (uint32_t) y.size());
			while (!c);
			CHECK("C05:cmp", sc_str_cmp(s, c) == (y == m) && sc_str_cmp(c, s) == (y == m),
			      "comparing texts of %zu and %zu bytes is wrong", m.size(), y.size());
			sc_str_destroy(&c);
		}
	}
	sc_str_destroy(&s);
	check_leaks();
}

SCENARIO(C06, large, 1)
{
	rare_refusals();
	struct sc_buf *b = (struct sc_buf *) harness_alloc(sizeof(*b));
	for (;;) {
		uint64_t r0 = mallocs_refused();
		bool ok = sc_buf_init(b, choose(2) ? 0 : (uint32_t) many());
		CHECK("C06:init", ok == (mallocs_refused() == r0), "init returned %d", ok);
		if (ok)
			break;
	}
	Rng r;
	struct Item {
		int kind;
		uint64_t v;
		size_t n;
	};
	std::deque<Item> q;
	auto byte = [](uint64_t v, size_t i) { return (char) (v + i * 31 + i / 200); };
	size_t inside = 0;
	bool bad = false;
	auto put = [&]() {
		Item it = {(int) r(6), r(), 0};
		uint64_t r0 = mallocs_refused(), w0 = sc_buf_wpos(b);
		size_t need = 0;
		switch (it.kind) {
		case 0:
			need = 1;
			sc_buf_put_8(b, (uint8_t) it.v);
			break;
		case 1:
			need = 2;
			sc_buf_put_16(b, (uint16_t) it.v);
			break;
		case 2:
			need = 4;
			sc_buf_put_32(b, (uint32_t) it.v);
			break;
		case 3:
			need = 8;
			sc_buf_put_64(b, it.v);
			break;
		default: {
			it.n = r(4) ? r(300) : r(70000);
			std::string s(it.n, 0);
			for (size_t i = 0; i < it.n; i++)
				s[i] = byte(it.v, i);
			if (it.kind == 4) {
				need = it.n + 8;
				sc_buf_put_blob(b, s.data(), it.n);
			} else {
				need = it.n;
				sc_buf_put_raw(b, s.data(), it.n);
			}
		}
		}
		bool refused = mallocs_refused() != r0;
		if (refused) {
			CHECK("C06:valid", !sc_buf_valid(b), "a put was refused memory but the buffer is valid");
			bad = true;
			return;
		}
		CHECK("C06:valid", sc_buf_valid(b), "a put of %zu bytes got memory but the buffer is not valid", need);
		CHECK("C06:pos", sc_buf_wpos(b) >= need && sc_buf_size(b) == inside + need, "a put of %zu bytes at %lu: %lu bytes inside, expected %zu",
		      need, (unsigned long) w0, (unsigned long) sc_buf_size(b), inside + need);
		inside += need;
		q.push_back(it);
	};
	auto get = [&]() {
		if (q.empty())
			return;
		Item it = q.front();
		q.pop_front();
		uint64_t v = 0;
		switch (it.kind) {
		case 0:
			inside -= 1;
			v = (uint8_t) it.v;
			CHECK("C06:read", sc_buf_get_8(b) == v, "a byte reads back wrongly");
			break;
		case 1:
			inside -= 2;
			CHECK("C06:read", sc_buf_get_16(b) == (uint16_t) it.v, "16 bits read back wrongly");
			break;
		case 2:
			inside -= 4;
			CHECK("C06:read", sc_buf_get_32(b) == (uint32_t) it.v, "32 bits read back wrongly");
			break;
		case 3:
			inside -= 8;
			CHECK("C06:read", sc_buf_get_64(b) == it.v, "64 bits read back wrongly");
			break;
		default: {
			const char *p;
			std::string s(it.n + 1, 0);
			if (it.kind == 4) {
				inside -= it.n + 8;
				uint64_t n = sc_buf_get_64(b);
				CHECK("C06:read", n == it.n, "a blob of %zu bytes has length %lu", it.n, (unsigned long) n);
				p = (const char *) sc_buf_get_blob(b, n);
				CHECK("C06:read", p != nullptr || !it.n, "a blob of %zu bytes cannot be read", it.n);
			} else {
				inside -= it.n;
				sc_buf_get_data(b, &s[0], it.n);
				p = s.data();
			}
			for (size_t i = 0; i < it.n; i++)
				CHECK("C06:read", p[i] == byte(it.v, i), "byte %zu of %zu reads back wrongly", i, it.n);
		}
		}
		CHECK("C06:size", sc_buf_size(b) == inside && sc_buf_valid(b), "%lu bytes inside, expected %zu", (unsigned long) sc_buf_size(b), inside);
	};
	for (int k = 0, rounds = (int) range(1, 6); k < rounds && !bad; k++) {
		uint32_t what = choose(4);
		size_t n = choose(2) ? 1 + r(40) : 1 + r(1500);
		for (; n && !bad; n--) {
			if (what != 1 || r(2))
				put();
			if (!bad && what == 1)
				get();
			if (!bad && what == 2 && r(3) == 0)
				get();
			if (!bad && what == 3 && r(20) == 0) {
				sc_buf_compact(b);
				CHECK("C06:size", sc_buf_size(b) == inside && sc_buf_rpos(b) == 0, "compaction changed the contents");
			}
			if (inside > 4000000)
				while (!q.empty())
					get();
		}
		state_hash(inside * 4 + what);
	}
	while (!bad && !q.empty())
		get();
	sc_buf_term(b);
	harness_free(b);
	check_leaks();
}

namespace {
struct Tm {
	std::vector<uint64_t> due, id;
	std::vector<char> live;
	uint64_t ts = 0;
	size_t fired = 0, cap = 0;
	Rng r;
	struct sc_timer *t;
};
} // namespace

static void tm_cb(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	Tm &x = *(Tm *) arg;
	uint64_t i = (uint64_t) data - 1;
	(void) timeout;
	CHECK("T01:data", i < x.live.size() && type == i * 3 + 1, "a callback for a timer that was never added");
	CHECK("T01:once", x.live[i], "timer #%lu is delivered again, or after it was cancelled", (unsigned long) i + 1);
	CHECK("T01:early", x.due[i] <= x.ts, "timer #%lu due at %lu is delivered at %lu", (unsigned long) i + 1,
	      (unsigned long) x.due[i], (unsigned long) x.ts);
	x.live[i] = 0;
	x.fired++;
}

SCENARIO(T01, large, 1)
{
	rare_refusals();
	Tm x;
	x.t = (struct sc_timer *) harness_alloc(sizeof(struct sc_timer));
	x.ts = choose(2) ? 0 : choose64() >> 3;
	sc_timer_init(x.t, x.ts);
	uint64_t last = x.ts, span = choose(2) ? 300 : choose(2) ? 16 : 20000;
	size_t alive = 0;
	auto add = [&]() {
		uint64_t to = x.r(span), i = x.due.size(), r0 = mallocs_refused();
		uint64_t id = sc_timer_add(x.t, to, i * 3 + 1, (void *) (i + 1));
		bool refused = mallocs_refused() != r0;
		CHECK("T01:oom", (id == SC_TIMER_INVALID) == refused, "add of timer #%lu: id %lx, memory %s", (unsigned long) i + 1,
		      (unsigned long) id, refused ? "refused" : "given");
		x.due.push_back(last + to);
		x.id.push_back(id);
		x.live.push_back(!refused);
		alive += !refused;
	};
	for (int k = 0, rounds = (int) range(1, 4); k < rounds; k++) {
		for (size_t n = std::min<size_t>(many(), 18000) / 2; n; n--)
			add();
		for (size_t n = x.r(alive / 2 + 1); n; n--) {
			size_t i = x.r(x.live.size());
			if (!x.live[i])
				continue;
			sc_timer_cancel(x.t, &x.id[i]);
			CHECK("T01:cancel", x.id[i] == SC_TIMER_INVALID, "cancel leaves the id");
			x.live[i] = 0;
		}
		for (int p = 0, polls = (int) range(1, 30); p < polls; p++) {
			x.ts += x.r(2) ? x.r(40) : x.r(span + 1);
			sc_timer_timeout(x.t, x.ts, &x, tm_cb);
			if (x.ts - last >= 16)
				last = x.ts;
		}
		alive = 0;
		for (auto l : x.live)
			alive += l;
		state_hash(alive);
	}
	for (int i = 0; i < 40; i++) {
		x.ts += span + 300;
		sc_timer_timeout(x.t, x.ts, &x, tm_cb);
	}
	for (size_t i = 0; i < x.live.size(); i++)
		CHECK("T01:lost", !x.live[i], "timer #%zu of %zu, due at %lu, is not delivered by %lu", i + 1, x.live.size(),
		      (unsigned long) x.due[i], (unsigned long) x.ts);
	sc_timer_term(x.t);
	harness_free(x.t);
	check_leaks();
}
