// T01, T02: timers against a reference set of deadlines.
#include "sim.h"
extern "C" {
#include "sc_time.h"
#include "sc_timer.h"
}
using namespace sim;

ACCEPT(T01, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(T02, "mem:", "hang:", "assert", "exit:")

namespace {
struct T {
	uint64_t id, deadline, type, timeout;
	uint64_t ticks;	   // ticks polled when it was added
	uint64_t late = 0; // ticks polled since the deadline
	bool live = true;
};
struct H {
	struct sc_timer *t;
	std::vector<T> v; // index = data - 1
	uint64_t last;	  // timestamp the timer works from
	uint64_t ts = 0;  // of the poll under way
	uint64_t ticks = 0;
	uint64_t gap_at = 0; // ticks after the last poll of more than 16 ticks
	bool gap = false;
	uint32_t cb_add = 0, cb_cancel = 0, maxto = 0;
	bool polling = false;
	uint64_t delivered = 0;
};
} // namespace

static uint64_t pick_timeout(H &h)
{
	switch (choose(8)) {
	case 0:
		return choose(3);
	case 1:
		return 16 * choose(40) + choose(3) - (choose(2) ? 0 : 0);
	case 2:
		return 15 + choose(3);
	case 3:
		return 255 + choose(4);
	case 4:
		return choose(20) ? choose(2000) : choose(2) ? UINT64_MAX - choose(5000) : choose64() | 1ull << 40;
	default:
		return choose(h.maxto);
	}
}

static void add(H &h)
{
	uint64_t to = pick_timeout(h), type = choose64();
	uint64_t base = h.polling ? h.ts : h.last;
	uint64_t data = h.v.size() + 1;
	uint64_t r0 = mallocs_refused();
	uint64_t id = sc_timer_add(h.t, to, type, (void *) data);
	bool refused = mallocs_refused() != r0;
	trace("add #%lu in %lu = %lx%s", (unsigned long) data, (unsigned long) to, (unsigned long) id,
	      h.polling ? " (in a callback)" : "");
	CHECK("T01:add", (id == SC_TIMER_INVALID) == refused, "add returned id %lx, memory %s", (unsigned long) id,
	      refused ? "refused" : "given");
	if (refused) {
		probe("timer add refused");
		return;
	}
	for (auto &x : h.v)
		CHECK("T01:id", !x.live || x.id != id, "add returned the id of another pending timer");
	T n;
	n.id = id;
	n.timeout = to;
	n.deadline = to > UINT64_MAX - 1 - base ? UINT64_MAX - 1 : base + to;
	n.type = type;
	n.ticks = h.ticks;
	h.v.push_back(n);
}

static void cancel(H &h)
{
	std::vector<size_t> l;
	for (size_t i = 0; i < h.v.size(); i++)
		if (h.v[i].live)
			l.push_back(i);
	if (l.empty()) {
		uint64_t id = SC_TIMER_INVALID;
		sc_timer_cancel(h.t, &id);
		return;
	}
	size_t i = l[choose((uint32_t) l.size())];
	uint64_t id = h.v[i].id;
	sc_timer_cancel(h.t, &id);
	trace("cancel #%zu%s", i + 1, h.polling ? " (in a callback)" : "");
	CHECK("T01:cancel", id == SC_TIMER_INVALID, "cancel left the id %lx", (unsigned long) id);
	h.v[i].live = false;
	if (choose(4) == 0)
		sc_timer_cancel(h.t, &id); // harmless
}

static void on_timer(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	H &h = *(H *) arg;
	NoPreempt np;
	uint64_t d = (uint64_t) data;
	trace("  fired #%lu", (unsigned long) d);
	CHECK("T01:identity", d >= 1 && d <= h.v.size(), "a timer fired with data %lu that was never added",
	      (unsigned long) d);
	T &x = h.v[d - 1];
	CHECK("T01:once", x.live, "timer #%lu fired though it was delivered or cancelled before", (unsigned long) d);
	CHECK("T01:identity", type == x.type, "timer #%lu fired with another type", (unsigned long) d);
	CHECK("T01:identity", timeout == x.deadline, "timer #%lu fired with deadline %lu, expected %lu",
	      (unsigned long) d, (unsigned long) timeout, (unsigned long) x.deadline);
	CHECK("T01:early", h.ts >= x.deadline, "timer #%lu due at %lu fired in a poll at %lu", (unsigned long) d,
	      (unsigned long) x.deadline, (unsigned long) h.ts);
	x.live = false;
	h.delivered++;
	if (h.cb_add && h.v.size() < 1500)
		for (uint32_t n = choose(h.cb_add); n > 0; n--)
			add(h);
	if (h.cb_cancel && choose(h.cb_cancel) == 0)
		cancel(h);
}

static uint64_t poll(H &h, uint64_t ts)
{
	h.ts = ts;
	uint64_t time = ts - h.last, got = time / 16, w = got < 16 ? got : 16;
	uint64_t prev = h.last;
	h.polling = true;
	size_t known = h.v.size();
	uint64_t del0 = h.delivered;
	// timers added in callbacks count from this poll's timestamp and ticks
	if (got)
		h.ticks += w;
	uint64_t wait = sc_timer_timeout(h.t, ts, &h, on_timer);
	h.polling = false;
	trace("poll at +%lu: %lu fired, wait %lu", (unsigned long) time, (unsigned long) (h.delivered - del0),
	      (unsigned long) wait);
	CHECK("T02:wait", wait <= 16, "poll returned a wait of %lu", (unsigned long) wait);
	if (got == 0) {
		CHECK("T02:wait", wait == 16 - time, "a poll %lu units after the last tick returned a wait of %lu",
		      (unsigned long) time, (unsigned long) wait);
		return wait;
	}
	h.last = ts;
	if (got > 16) {
		h.gap = true;
		h.gap_at = h.ticks;
		probe("poll covering more than 16 ticks");
	}
	for (size_t i = 0; i < known; i++) {
		T &x = h.v[i];
		if (!x.live || ts < x.deadline)
			continue;
		if (prev >= x.deadline)
			x.late += w;
		CHECK("T02:late", x.late < 16, "timer #%zu due at %lu not delivered by %lu, %lu ticks later", i + 1,
		      (unsigned long) x.deadline, (unsigned long) ts, (unsigned long) x.late);
		if (!h.gap || h.gap_at <= x.ticks)
			CHECK("T02:late", h.ticks - x.ticks < x.timeout / 16 + 1,
			      "timer #%zu of %lu units not delivered after %lu ticks", i + 1, (unsigned long) x.timeout,
			      (unsigned long) (h.ticks - x.ticks));
	}
	return wait;
}

HISTORY(T01, timer)
{
	H h;
	h.t = (struct sc_timer *) harness_alloc(sizeof(struct sc_timer));
	uint64_t start = choose(4) ? choose(1000) : choose(2) ? 1ull << 62 : choose64() >> 2;
	sc_timer_init(h.t, start);
	h.last = start;
	h.cb_add = choose(3) == 0 ? range(2, 4) : 0;
	h.cb_cancel = choose(3) == 0 ? range(1, 4) : 0;
	static const uint32_t mt[] = {40, 300, 1000, 5000};
	h.maxto = mt[choose(4)];
	uint32_t gapkind = choose(5), ba = range(1, 10), bp = range(1, 10), bc = choose(4);
	uint64_t ts = start;
	int n = (int) range(2, choose(4) == 0 ? 120 : 40);
	for (int s = 0; s < n; s++) {
		switch (weighted({ba * 4, bp * 4, bc * 4, 1, 1})) {
		case 0: {
			int burst = choose(8) == 0 ? (int) range(2, 40) : 1;
			for (int i = 0; i < burst && h.v.size() < 1500; i++)
				add(h);
			break;
		}
		case 1: {
			uint64_t g;
			switch (gapkind) {
			case 0:
				g = choose(24);
				break;
			case 1:
				g = 16;
				break;
			case 2:
				g = choose(300);
				break;
			case 3:
				g = choose(6) ? choose(40) : choose(20) ? choose(1000) : 1ull << choose(40);
				break;
			default:
				g = 16 * choose(20) + choose(3);
				break;
			}
			ts += g;
			poll(h, ts);
			break;
		}
		case 2:
			cancel(h);
			break;
		case 3:
			if (choose(6))
				break;
			trace("clear");
			sc_timer_clear(h.t);
			for (auto &x : h.v)
				x.live = false;
			break;
		default:
			if (choose(10))
				break;
			trace("term");
			sc_timer_term(h.t);
			for (auto &x : h.v)
				x.live = false;
			if (choose(2)) {
				ts += choose(100);
				sc_timer_init(h.t, ts);
				h.last = ts;
			}
			break;
		}
		size_t live = 0;
		for (auto &x : h.v)
			live += x.live;
		state_hash(live * 1024 + (ts - h.last) * 32 + h.ticks % 16);
	}
	// everything still pending comes, and only that
	h.cb_add = 0;
	uint64_t far = ts + (1ull << 45) < ts ? UINT64_MAX - 1 : ts + (1ull << 45);
	for (auto &x : h.v)
		if (x.live && x.deadline > far && choose(2))
			far = UINT64_MAX - 1;
	if (choose(2))
		for (int i = 0; i < 30; i++)
			poll(h, ts += range(1, 40));
	if (far > h.last + 16) {
		poll(h, far);
		for (size_t i = 0; i < h.v.size(); i++)
			CHECK("T01:lost", !h.v[i].live || h.v[i].deadline > far, "timer #%zu due at %lu was never delivered",
			      i + 1, (unsigned long) h.v[i].deadline);
	}
	sc_timer_term(h.t);
	harness_free(h.t);
}

SCENARIO(T01, histories, 2000)
{
	swarm_malloc();
	hist_timer();
	check_leaks();
}
SCENARIO(T02, histories, 3)
{
	if (choose(2))
		swarm_malloc();
	hist_timer();
}

// An event loop as in the documentation: poll with the clock, sleep for the wait.
SCENARIO(T02, loop, 2)
{
	swarm({F_MALLOC, F_EINTR, F_STALL}, 30);
	H h;
	h.t = (struct sc_timer *) harness_alloc(sizeof(struct sc_timer));
	uint64_t t0 = sc_time_mono_ms();
	sc_timer_init(h.t, t0);
	h.last = t0;
	static const uint32_t mt[] = {20, 100, 400, 1500};
	h.maxto = mt[choose(4)];
	h.cb_add = choose(3) == 0 ? 2 : 0;
	int n = (int) range(1, 20);
	for (int i = 0; i < n; i++)
		add(h);
	int still = 0;
	for (int round = 0; round < 400; round++) {
		uint64_t ticks = h.ticks;
		uint64_t now_ms = sc_time_mono_ms();
		uint64_t wait = poll(h, now_ms);
		if (h.cb_add && round > 60)
			h.cb_add = 0;
		bool near = false;
		for (auto &x : h.v)
			near |= x.live && x.deadline < now_ms + 5000;
		still = h.ticks == ticks ? still + 1 : 0;
		CHECK("T02:progress", still < 3, "a loop that sleeps for the returned wait polled 3 times without a tick");
		if (!near)
			break;
		sc_time_sleep(wait);
		if (choose(12) == 0)
			advance((int64_t) choose(400) * 1000000); // a slow iteration
		if (choose(20) == 0)
			wall_step(((int64_t) choose(20000) - 10000) * 1000000);
	}
	state_hash(h.delivered);
	sc_timer_term(h.t);
	harness_free(h.t);
}
