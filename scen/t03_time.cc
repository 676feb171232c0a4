// T03: sleep and clocks.
#include "kernel.h"
#include "sim.h"
#include <cerrno>
extern "C" {
#include "sc_time.h"
}
using namespace sim;

ACCEPT(T03, "hang:", "mem:", "assert", "exit:")

static uint64_t pick_ms()
{
	switch (choose(6)) {
	case 0:
		return choose(3);
	case 1:
		return range(1, 50);
	case 2:
		return range(900, 2100);
	case 3:
		return 1000ull * choose(100);
	case 4:
		return range(0, 1000000);
	default:
		return 1ull << choose(34);
	}
}

static void one_sleep(bool alone)
{
	uint64_t ms = pick_ms();
	int64_t t0 = now();
	uint64_t e0 = faults_fired(F_EINTR), s0 = faults_fired(F_STALL);
	errno = choose(2) ? EINTR : 0;
	int rc = sc_time_sleep(ms);
	int64_t d = now() - t0;
	trace("sleep(%lu) = %d after %.6f ms", (unsigned long) ms, rc, (double) d / 1e6);
	CHECK("T03:rc", rc == 0, "sleep(%lu) returned %d", (unsigned long) ms, rc);
	CHECK("T03:early", d >= (int64_t) ms * 1000000,
	      "sleep(%lu ms) returned after %.6f ms", (unsigned long) ms, (double) d / 1e6);
	if (alone) {
		uint64_t intr = faults_fired(F_EINTR) - e0;
		uint64_t stalls = faults_fired(F_STALL) - s0;
		int64_t slack = (int64_t) (2 + intr) * 1000000 + (int64_t) stalls * 5100000;
		CHECK("T03:restart", d <= (int64_t) ms * 1000000 + slack,
		      "sleep(%lu ms) took %.3f ms with %lu interruption(s)",
		      (unsigned long) ms, (double) d / 1e6, (unsigned long) intr);
		if (intr > 2)
			probe("sleep interrupted more than twice");
	}
}

static void faults_t03()
{
	swarm({F_EINTR, F_STALL}, 15);
}

SCENARIO(T03, sleep_alone, 3)
{
	faults_t03();
	int n = (int) range(1, 6);
	for (int i = 0; i < n; i++) {
		one_sleep(true);
		if (choose(3) == 0)
			wall_step(((int64_t) choose(2000000) - 1000000) * 1000000);
		state_hash(faults_fired(F_EINTR) * 100 + (uint64_t) i);
	}
}

static uint64_t steps_done; // wall steps so far

static void clock_checks(int n)
{
	uint64_t last_ms = 0, last_ns = 0;
	for (int i = 0; i < n; i++) {
		switch (choose(4)) {
		case 0: {
			int64_t lo = now();
			uint64_t v = sc_time_mono_ns();
			int64_t hi = now();
			CHECK("T03:mono", v >= (uint64_t) lo && v <= (uint64_t) hi,
			      "monotonic ns reading %lu outside [%ld,%ld]", (unsigned long) v, (long) lo, (long) hi);
			CHECK("T03:back", v >= last_ns, "monotonic ns clock went backwards");
			last_ns = v;
			break;
		}
		case 1: {
			int64_t lo = now();
			uint64_t v = sc_time_mono_ms();
			int64_t hi = now();
			CHECK("T03:mono", v >= (uint64_t) lo / 1000000 && v <= (uint64_t) hi / 1000000,
			      "monotonic ms reading %lu outside [%ld,%ld]", (unsigned long) v,
			      (long) (lo / 1000000), (long) (hi / 1000000));
			CHECK("T03:back", v >= last_ms, "monotonic ms clock went backwards");
			last_ms = v;
			break;
		}
		case 2: {
			uint64_t s = steps_done;
			int64_t lo = wall();
			uint64_t v = sc_time_ns();
			int64_t hi = wall();
			if (s == steps_done)
				CHECK("T03:wall", v >= (uint64_t) lo && v <= (uint64_t) hi,
				      "wall ns reading %lu outside [%ld,%ld]", (unsigned long) v, (long) lo, (long) hi);
			break;
		}
		default: {
			uint64_t s = steps_done;
			int64_t lo = wall();
			uint64_t v = sc_time_ms();
			int64_t hi = wall();
			if (s == steps_done)
				CHECK("T03:wall", v >= (uint64_t) lo / 1000000 && v <= (uint64_t) hi / 1000000,
				      "wall ms reading %lu outside [%ld,%ld]", (unsigned long) v,
				      (long) (lo / 1000000), (long) (hi / 1000000));
			break;
		}
		}
		if (choose(3) == 0)
			advance((int64_t) choose(3000000));
	}
}

static void do_step()
{
	static const int64_t d[] = {1000000, -1000000, 3600000000000ll, -3600000000000ll,
				    500, -999999, 86400000000000ll * 400, -86400000000000ll * 400};
	steps_done++;
	wall_step(d[choose(8)]);
}

SCENARIO(T03, clocks, 2)
{
	faults_t03();
	steps_done = 0;
	// boundary positions inside a second and a millisecond
	static const int64_t off[] = {0, 1, 999999, 999999999, 999000000, 500000};
	advance(off[choose(6)]);
	int n = (int) range(2, 8);
	for (int i = 0; i < n; i++) {
		clock_checks(2);
		if (choose(2))
			do_step();
	}
}

SCENARIO(T03, threads, 2)
{
	faults_t03();
	steps_done = 0;
	int nt = (int) range(1, 4);
	std::vector<Fiber *> f;
	for (int i = 0; i < nt; i++)
		f.push_back(spawn("sleeper", []() {
			int n = (int) range(1, 4);
			for (int j = 0; j < n; j++) {
				if (choose(2))
					one_sleep(false);
				else
					clock_checks(3);
			}
		}));
	int n = (int) range(0, 4);
	for (int i = 0; i < n; i++) {
		do_step();
		advance((int64_t) choose(1000) * 1000000);
		yield();
	}
	for (auto x : f)
		join_fiber(x);
}
