#pragma once
#include "sim.h"
#include <csetjmp>
#include <cstdarg>
#include <unordered_set>

namespace sim {

struct Event {
	std::function<void()> fn;
};

struct Result {
	bool violated = false;
	bool abandoned = false;
	std::string cls, msg;
	uint64_t hash = 0;	// whole event log
	uint64_t sched_hash = 0;	// interleaving
	uint64_t steps = 0;
	uint64_t switches = 0;
	uint64_t worst = 0; // most of a step budget used, per mille
	int64_t sim_ns = 0;
	uint64_t faults = 0;
	uint32_t fibers = 0;
};

struct RunState {
	// choices
	bool replay = false;
	const std::vector<uint32_t> *tape_in = nullptr;
	size_t tape_pos = 0;
	std::vector<uint32_t> tape_out;
	uint64_t rng[2];
	// faults
	uint32_t fden[F_COUNT];
	uint64_t ffired[F_COUNT];
	// hashing
	uint64_t hash, sched_hash;
	uint64_t nevents;
	// fibers
	std::vector<Fiber *> fibers;
	Fiber *cur = nullptr;
	void *root_sp = nullptr;
	uint64_t steps, budget, switches;
	uint64_t seg_start, worst;
	int64_t countdown, countdown_start;
	int64_t preempt_left; // steps until forced preemption, -1 = none
	int preempt_mode;
	int no_preempt;
	bool exact_time;
	bool running = false;
	// signals
	int64_t sig_left;
	int sig_num;
	std::deque<std::pair<int64_t, int>> sigq;
	// time
	int64_t now_ns, wall_off;
	long zone; // local time, seconds east
	std::map<std::pair<int64_t, uint64_t>, std::function<void()>> events;
	uint64_t seq;
	// outcome
	bool violated, abandoned;
	std::string cls, msg, prefix;
	bool scheduling = false; // drawing for the scheduler, not the thread
	// race
	bool race;
	// heap
	uint64_t refused;
};
extern RunState g;

struct Totals {
	uint64_t runs = 0, abandoned = 0, steps = 0, switches = 0;
	uint64_t fired[F_COUNT] = {0};
	uint64_t runs_with_fault = 0;
	double sim_s = 0;
	std::map<std::string, uint64_t> probes;
	std::map<std::string, uint64_t> scen_runs, worst;
	std::map<std::string, uint64_t> foreign;
	std::unordered_set<uint64_t> hashes, scheds, states;
	uint64_t nontrivial = 0;
};
extern Totals tot;
extern bool g_trace;
extern FILE *g_trace_fp;

extern sigjmp_buf root_jmp;

std::vector<Scenario> &scenarios();
Result run_one(const Scenario &s, const std::vector<uint32_t> *tape,
	       uint64_t seed);

void hook_slow(); // countdown expired
void recompute_countdown();
void mem_reset();
void kernel_reset();
void posix_reset();
void extra_reset();
void extra2_reset();
void exit_fiber(); // the calling fiber ends here
void extra_thread_exit();
size_t checked_strlen(const char *s, size_t max);
void touch_format(const char *fmt, va_list va);
void mem_leaks(std::string &out);
void kernel_leaks(std::string &out);
void posix_leaks(std::string &out);
void deliver_signal(int sig);
void touch(const void *p, size_t n, bool write);
void touch_now(const void *p, size_t n, bool write);
void unsafe_call(const char *what);
void statics_snapshot();
void statics_restore();
[[noreturn]] void to_root();
void hb_acquire(const VC &v);
void hb_release(VC &v);
int64_t step_now();
int failed(int e); // remembers that a call reports e

inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 32;
	return h;
}

struct ErrnoGuard {
	int e;
	ErrnoGuard();
	~ErrnoGuard();
};

// arena for simulated heap
extern char *arena_base, *arena_end;
// region holding simulated file pages
extern char *page_base, *page_end;
bool page_addressable(const char *p, size_t n, bool write);
} // namespace sim
