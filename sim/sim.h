// Deterministic simulator for tezc/sc: public interface used by the seams and
// by the scenarios. One process, one OS thread; every thread of the code under
// test is a fiber, every choice comes from one tape.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- fault kinds
#define SIM_FAULTS(X)                                                          \
	X(MALLOC, "allocation refused")                                        \
	X(MUTEX_INIT, "pthread_mutex_init fails")                              \
	X(ATTR_INIT, "pthread attribute init fails")                           \
	X(COND_INIT, "pthread_cond_init fails")                                \
	X(THREAD_CREATE, "pthread_create fails")                               \
	X(THREAD_JOIN, "pthread_join fails")                                   \
	X(SYNC_DESTROY, "pthread_mutex_destroy or _cond_destroy fails")        \
	X(SPURIOUS, "spurious condition wake-up")                              \
	X(EINTR, "system call interrupted (EINTR)")                            \
	X(SHORT_READ, "short read/recv")                                       \
	X(SHORT_WRITE, "short write/send")                                     \
	X(READ_ERR, "read fails (EIO)")                                        \
	X(WRITE_ERR, "write fails (EIO/ENOSPC)")                               \
	X(OPEN_ERR, "open/fopen fails")                                        \
	X(RENAME_ERR, "rename fails")                                          \
	X(CLOSE_ERR, "close/fclose reports an error")                          \
	X(SYSCALL_ERR, "other system call fails")                              \
	X(TIME_ERR, "clock conversion fails")                                  \
	X(DISK_FULL, "disk full")                                              \
	X(GAI_ERR, "name resolution fails")                                    \
	X(NET_DELAY, "delivery delayed")                                       \
	X(NET_SEGMENT, "delivery split into segments")                         \
	X(NET_RESET, "connection reset")                                       \
	X(NET_REFUSE, "connection refused or unreachable")                     \
	X(NET_SMALLBUF, "tiny socket buffers")                                 \
	X(CLOCK_STEP, "wall clock stepped")                                    \
	X(STALL, "thread or poller stalled")                                   \
	X(CRASH, "crash and restart")                                          \
	X(WRITEBACK, "unsynced page written back or torn")                     \
	X(SIGNAL, "signal delivered mid-operation")                            \
	X(SIGACTION_ERR, "signal registration fails")                          \
	X(CORRUPT, "stored byte flipped or truncated")                         \
	X(CALLBACK_ERR, "user callback fails")                                 \
	X(MSYNC_ERR, "msync/mlock fails")                                      \
	X(FD_LOW, "descriptor 0 handed out")

enum Fault {
#define X(n, d) F_##n,
	SIM_FAULTS(X)
#undef X
	F_COUNT
};
extern const char *fault_names[F_COUNT];

// ---------------------------------------------------------------- choices
uint32_t choose(uint32_t n);		      // uniform in [0,n)
bool chance(uint32_t num, uint32_t den);      // outcome 1 with prob num/den
uint32_t range(uint32_t lo, uint32_t hi);     // inclusive
uint64_t choose64();			      // 64 random bits, biased to edges
uint32_t weighted(std::initializer_list<uint32_t> w);

void swarm(std::initializer_list<Fault> kinds, uint32_t clean_percent = 25);
void swarm_malloc(); // allocation refusals only, at a rate for short histories
void fault_set(Fault f, uint32_t den); // 0 = off, else one in den
uint32_t fault_get(Fault f);
void faults_off();
bool fault(Fault f); // draws; counts when it fires
void fault_fired(Fault f);
uint64_t faults_fired(Fault f); // in this run
uint64_t faults_fired_total();  // in this run
uint64_t my_faults(Fault f);	// on this thread
uint64_t my_faults();

// ---------------------------------------------------------------- outcome
[[noreturn]] void fail(const char *cls, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
#define CHECK(cls, cond, ...)                                                  \
	do {                                                                   \
		if (!(cond))                                                   \
			::sim::fail(cls, __VA_ARGS__);                         \
	} while (0)
// put in front of the class of every later failure of this run
void class_prefix(const char *p);
// the static data of the code under test as the program starts with it
void fresh_statics();
void abandon(const char *why); // end the run without a verdict (counted)
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void event(uint64_t a, uint64_t b = 0, uint64_t c = 0); // into the run hash
void event_bytes(const void *p, size_t n);
void state_hash(uint64_t h); // distinct-state measure
void probe(const char *name);

// ---------------------------------------------------------------- fibers
struct VC {
	std::vector<uint32_t> c;
	uint32_t get(uint32_t i) const { return i < c.size() ? c[i] : 0; }
	void join(const VC &o)
	{
		if (o.c.size() > c.size())
			c.resize(o.c.size());
		for (size_t i = 0; i < o.c.size(); i++)
			if (o.c[i] > c[i])
				c[i] = o.c[i];
	}
	void set(uint32_t i, uint32_t v)
	{
		if (i >= c.size())
			c.resize(i + 1);
		c[i] = v;
	}
};

enum FState { FS_FREE, FS_READY, FS_BLOCKED, FS_DONE };
struct Fiber {
	int id = 0;
	void *sp = nullptr;
	char *stack = nullptr;
	FState state = FS_FREE;
	std::function<void()> body;
	const char *why = "";
	bool woken = false;   // set by wake()
	bool intr = false;    // woken by a signal
	bool interruptible = false;
	uint64_t timer_seq = 0;
	int err = 0; // errno
	uint64_t failed[2][3] = {{0, 0, 0}, {0, 0, 0}}; // error numbers calls reported: close, others
	uint32_t failed_gai = 0;
	VC vc;
	std::map<void *, void *> tls;
	bool detached = false;
	bool is_pthread = false;
	bool joined = false;
	void *ret = nullptr;
	Fiber *joiner = nullptr;
	int sig_depth = 0;
	void *exit_catch = nullptr;
	int nofault = 0;
	uint64_t sigmask = 0;
	uint64_t blocks = 0;	      // how often it had to wait
	uint64_t refused = 0;	      // allocations refused on this fiber
	uint64_t fired[F_COUNT] = {}; // faults that hit this fiber
	std::string name;
	// own stream of choices: what it does is independent of the schedule
	bool priv = false;
	uint64_t rng[2] = {0, 0};
	uint64_t digest = 0; // over its choices and reported states
};

Fiber *self();
int self_id();
// Harness thread: runs body in a new fiber (not through pthread_create).
Fiber *spawn(const char *name, std::function<void()> body);
// The same, but its choices come from a stream of its own with that seed.
Fiber *spawn_seeded(const char *name, uint32_t seed, std::function<void()> body);
void digest(uint64_t v); // into the digest of this thread
void join_fiber(Fiber *f); // blocks until f is done
void yield();	       // scheduling point
void block(const char *why);
bool block_until(const char *why, int64_t deadline); // false on timeout
void wake(Fiber *f);
void interrupt(Fiber *f); // wake it with EINTR if interruptible
void sched_point(int kind);
void at(int64_t t, std::function<void()> fn); // timed event
int live_fibers();
// Lets everything else run until it is blocked for good, or only waits for
// timed events beyond the horizon.
void settle(int64_t horizon_ns);
void set_preempt(bool on);
struct NoPreempt {
	NoPreempt();
	~NoPreempt();
};
void step_budget(uint64_t n);
// Time stands still while any thread can run (otherwise threads may be slow).
void exact_time(bool on);

// ---------------------------------------------------------------- time
int64_t now();			// monotonic ns
int64_t wall();			// realtime ns
void wall_step(int64_t delta_ns);
void set_zone(long seconds); // what localtime() adds
// A pause: usually none, now and then one longer than any patience
int64_t lull();
void advance(int64_t ns);	// sleep the current fiber in simulated time

// ---------------------------------------------------------------- memory
void *harness_alloc(size_t n); // guarded block, not leak-tracked
void harness_free(void *p);
uint64_t mallocs_refused(); // refused so far on this thread
uint64_t live_blocks();
void check_leaks(); // heap, descriptors, mappings, streams, locks, threads
bool addressable(const void *p, size_t n);
bool heap_block(const void *p, size_t *size); // live tracked block at p?
void race_on(bool on);

// signals: schedule sig to arrive at the current fiber after n more steps
void signal_after(int sig, uint64_t steps);
void signal_cancel(); // forget pending deliveries
bool signals_left();
void signal_raise(int sig); // now, on the current fiber
bool in_handler();

struct Scenario {
	const char *prop;
	const char *name;
	void (*fn)();
	uint32_t weight;
	uint64_t budget; // steps
};
void reg(const Scenario &s);
struct Reg { // registers a scenario
	Reg(const char *prop, const char *name, void (*fn)(), uint32_t weight = 1,
	    uint64_t budget = 8000000)
	{
		reg(Scenario{prop, name, fn, weight, budget});
	}
};
// failure classes (prefixes) that count against a property besides its own
void accept(const char *prop, std::initializer_list<const char *> classes);
struct Acc {
	Acc(const char *prop, std::initializer_list<const char *> c)
	{
		accept(prop, c);
	}
};
#define ACCEPT(prop, ...) static sim::Acc acc_##prop(#prop, {__VA_ARGS__});
// A history: a workload with its own model that touches only its own objects,
// so that it can run alone or next to others.
struct History {
	const char *name;
	void (*fn)();
	const char *prop; // the property it belongs to
};
std::vector<History> &histories();
struct HistReg {
	HistReg(const char *name, void (*fn)(), const char *prop)
	{
		histories().push_back(History{name, fn, prop});
	}
};
#define HISTORY(prop, name)                                                    \
	static void hist_##name();                                             \
	static sim::HistReg hreg_##name(#name, hist_##name, #prop);            \
	static void hist_##name()
#define SCENARIO(prop, name, weight)                                           \
	static void scen_##prop##_##name();                                    \
	static sim::Reg reg_##prop##_##name(#prop, #name,                      \
					    scen_##prop##_##name, weight);     \
	static void scen_##prop##_##name()

// process exit seen by the code under test (_Exit, abort, fatal signal)
struct ExitInfo {
	bool exited = false;
	int status = 0;
	int sig = 0;
};
// Runs body; if the code under test calls _Exit/abort/dies by a signal, control
// comes back here with the information. Only for the current fiber.
ExitInfo catch_exit(std::function<void()> body);
[[noreturn]] void proc_exit(int status, int sig);

} // namespace sim
