// P01: the profiler against simulated performance counters.
#include "kernel.h"
#include <cmath>
#include <csignal>
#include <cstdio>
extern "C" {
#include "sc_perf.h"
}
using namespace sim;
ACCEPT(P01, "mem:", "leak", "hang:", "fd:", "assert", "exit:")

static const size_t N = sizeof(sc_perf_hw) / sizeof(*sc_perf_hw);

namespace {
struct Row {
	std::string name;
	double value, share;
};
} // namespace
static std::vector<Row> rows(const std::string &out)
{
	std::vector<Row> r;
	size_t at = 0;
	while (at < out.size()) {
		size_t e = out.find('\n', at);
		if (e == std::string::npos)
			e = out.size();
		std::string l = out.substr(at, e - at);
		at = e + 1;
		char name[64];
		double v, sh = 0;
		if (sscanf(l.c_str(), "| %60[^|]| %lf | (%lf", name, &v, &sh) >= 2) {
			std::string n = name;
			while (!n.empty() && n.back() == ' ')
				n.pop_back();
			r.push_back(Row{n, v, sh});
		}
	}
	return r;
}

SCENARIO(P01, measurement, 1)
{
	if (choose(4) == 0) {
		fault_set(F_SYSCALL_ERR, range(1, 40));
		if (choose(2))
			fault_set(F_READ_ERR, range(1, 40));
	}
	std::string &out = std_capture(1);
	for (int m = 0, ms = (int) range(1, 3); m < ms; m++) {
		size_t first = perf().evs.size();
		out.clear();
		int64_t total = 0, since = -1;
		bool ended = false, begun = false;
		uint64_t f0 = my_faults(F_SYSCALL_ERR) + my_faults(F_READ_ERR);
		ExitInfo x = catch_exit([&]() {
			auto spend = [&]() {
				uint32_t ms_ = choose(3) ? range(0, 90000) : choose(3);
				advance((int64_t) ms_ * 1000000);
				if (choose(4) == 0)
					wall_step(((int64_t) choose(2000) - 1000) * 1000000000);
			};
			spend();
			sc_perf_start();
			since = now();
			begun = true;
			for (int i = 0, n = (int) choose(7); i < n; i++) {
				spend();
				if (choose(2)) {
					int64_t t = now();
					sc_perf_pause();
					if (since >= 0)
						total += t - since;
					since = -1;
				} else {
					sc_perf_start();
					if (since < 0)
						since = now();
				}
				for (size_t k = first; k < perf().evs.size(); k++)
					CHECK("P01:enabled", perf().evs[k].enabled == (since >= 0), "counter %zu is %s while %s", k - first,
					      perf().evs[k].enabled ? "enabled" : "disabled", since >= 0 ? "measuring" : "paused");
			}
			spend();
			if (since >= 0)
				total += now() - since;
			sc_perf_end();
			ended = true;
		});
		bool hit = my_faults(F_SYSCALL_ERR) + my_faults(F_READ_ERR) != f0;
		CHECK("P01:abort", x.exited == hit && (!x.exited || x.sig == SIGABRT), "%s, the profiler %s",
		      hit ? "a system call failed" : "no system call failed", x.exited ? "ended the program" : "went on");
		if (x.exited) {
			CHECK("P01:abort", std_capture(2).size() > 0, "the program was aborted without a message");
			return;
		}
		CHECK("P01:end", begun && ended, "no end");
		CHECK("P01:counters", perf().evs.size() == first + N, "%zu counters were opened", perf().evs.size() - first);
		std::vector<Row> r = rows(out);
		CHECK("P01:rows", r.size() == N + 1, "%zu rows are reported", r.size());
		CHECK("P01:time", fabs(r[0].value - (double) total / 1e9) < 0.0151, "%.2f s are reported, %.3f s were measured", r[0].value,
		      (double) total / 1e9);
		for (size_t i = 0; i < N; i++) {
			PerfStub::Ev &e = perf().evs[first + i];
			CHECK("P01:counters", e.type == sc_perf_hw[i].type && e.config == sc_perf_hw[i].config, "counter %zu counts something else", i);
			CHECK("P01:counters", e.whole, "counter %zu counts only a part of what the program does", i);
			CHECK("P01:counters", e.cloexec, "counter %zu would stay open in a program started with exec", i);
			CHECK("P01:rows", r[i + 1].name == sc_perf_hw[i].name, "row %zu is %s", i, r[i + 1].name.c_str());
			CHECK("P01:closed", !e.open, "counter %zu is still open", i);
			CHECK("P01:enabled", llabs(e.on_ns - total) < 5000, "counter %zu was enabled for %.6f s of %.6f s", i,
			      (double) e.on_ns / 1e9, (double) total / 1e9);
			uint64_t c = e.counted();
			double want = c ? (double) e.value() * (double) e.on_ns / (double) c : 0;
			CHECK("P01:value", fabs(r[i + 1].value - want) <= 0.011 + want * 1e-9, "counter %zu: %.2f is reported, it is %.2f", i,
			      r[i + 1].value, want);
			double share = c ? 100.0 * (double) c / (double) e.on_ns : 0;
			CHECK("P01:share", fabs(r[i + 1].share - share) <= 0.011, "counter %zu: %.2f%% measured is reported, it is %.2f%%", i,
			      r[i + 1].share, share);
		}
		state_hash((uint64_t) (total / 1000000) * 8 + (uint64_t) m);
		check_leaks();
	}
}
