// Choices, fibers, scheduler, run loop.
#include "internal.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {

RunState g;
Totals tot;
bool g_trace = false;
FILE *g_trace_fp = nullptr;
sigjmp_buf root_jmp;

const char *fault_names[F_COUNT] = {
#define X(n, d) d,
	SIM_FAULTS(X)
#undef X
};

std::vector<Scenario> &scenarios()
{
	static std::vector<Scenario> v;
	return v;
}
void reg(const Scenario &s) { scenarios().push_back(s); }

ErrnoGuard::ErrnoGuard() { e = errno; }
ErrnoGuard::~ErrnoGuard() { errno = e; }

// ------------------------------------------------------------------ choices
static uint64_t rnd_of(uint64_t *rng)
{
	uint64_t s1 = rng[0], s0 = rng[1];
	uint64_t r = s0 + s1;
	rng[0] = s0;
	s1 ^= s1 << 23;
	rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
	return r;
}

static void seed_rng(uint64_t *rng, uint64_t seed)
{
	for (int i = 0; i < 2; i++) {
		seed += 0x9e3779b97f4a7c15ull;
		uint64_t z = seed;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		rng[i] = z ^ (z >> 31);
	}
}

static bool priv() { return g.cur && g.cur->priv && !g.scheduling; }
static uint64_t rnd() { return rnd_of(priv() ? g.cur->rng : g.rng); }
// no need to generate a value: the tape has it
static bool taped() { return g.replay && !priv(); }

static uint32_t draw(uint32_t n, uint32_t gen)
{
	uint32_t v;
	if (priv()) {
		g.cur->digest = mix(g.cur->digest, gen);
		return gen;
	}
	if (g.replay) {
		v = g.tape_pos < g.tape_in->size() ? (*g.tape_in)[g.tape_pos] : 0;
		g.tape_pos++;
		if (v >= n)
			v = v % n;
	} else {
		v = gen;
	}
	g.tape_out.push_back(v);
	if (g.tape_out.size() > 2000000)
		abandon("tape too long");
	return v;
}

uint32_t choose(uint32_t n)
{
	if (n <= 1)
		return 0;
	return draw(n, taped() ? 0 : (uint32_t) ((rnd() >> 16) % n));
}

bool chance(uint32_t num, uint32_t den)
{
	if (num == 0)
		return false;
	if (num >= den)
		return true;
	return draw(2, taped() ? 0 : ((rnd() >> 16) % den) < num) != 0;
}

uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }

uint32_t weighted(std::initializer_list<uint32_t> w)
{
	uint32_t total = 0, i = 0, gen = 0;
	for (auto x : w)
		total += x;
	if (!taped()) {
		uint32_t v = (uint32_t) ((rnd() >> 16) % total);
		for (auto x : w) {
			if (v < x) {
				gen = i;
				break;
			}
			v -= x;
			i++;
		}
	}
	uint32_t v = draw((uint32_t) w.size(), gen);
	// a weight of zero means "never", also in a shrunk tape
	i = 0;
	for (auto x : w) {
		if (i == v && x == 0) {
			uint32_t j = 0;
			for (auto y : w) {
				if (y)
					return j;
				j++;
			}
		}
		i++;
	}
	return v;
}

uint64_t choose64()
{
	switch (choose(5)) {
	case 0:
		return choose(256);
	case 1:
		return ~(uint64_t) choose(256);
	case 2:
		return 1ull << choose(64);
	case 3:
		return (1ull << choose(64)) - 1;
	default: {
		uint64_t v = 0;
		for (int i = 0; i < 4; i++)
			v = v << 16 | choose(65536);
		return v;
	}
	}
}

// ------------------------------------------------------------------ faults
void swarm(std::initializer_list<Fault> kinds, uint32_t clean_percent)
{
	if (!chance(100 - clean_percent, 100))
		return;
	static const uint32_t dens[] = {32, 8, 3, 128};
	for (auto k : kinds)
		if (chance(1, 2))
			g.fden[k] = dens[choose(4)];
}
void fault_set(Fault f, uint32_t den) { g.fden[f] = den; }
uint32_t fault_get(Fault f) { return g.fden[f]; }
void faults_off() { memset(g.fden, 0, sizeof(g.fden)); }
void fault_fired(Fault f)
{
	g.ffired[f]++;
	if (g.cur)
		g.cur->fired[f]++;
	event(0xfa, f);
	if (g_trace)
		trace("FAULT %s", fault_names[f]);
}
void swarm_malloc()
{
	static const uint32_t den[] = {0, 2, 3, 4, 6, 10, 25};
	fault_set(F_MALLOC, den[choose(7)]);
}
bool fault(Fault f)
{
	if (g.fden[f] == 0 || (g.cur && g.cur->nofault))
		return false;
	if (!chance(1, g.fden[f]))
		return false;
	fault_fired(f);
	return true;
}
uint64_t faults_fired(Fault f) { return g.ffired[f]; }
uint64_t my_faults(Fault f) { return g.cur ? g.cur->fired[f] : 0; }
uint64_t my_faults()
{
	uint64_t t = 0;
	for (int i = 0; i < F_COUNT && g.cur; i++)
		t += g.cur->fired[i];
	return t;
}
std::vector<History> &histories()
{
	static std::vector<History> h;
	return h;
}
uint64_t faults_fired_total()
{
	uint64_t t = 0;
	for (int i = 0; i < F_COUNT; i++)
		t += g.ffired[i];
	return t;
}

// ------------------------------------------------------------------ logging
bool tracing() { return g_trace; }

void trace(const char *fmt, ...)
{
	if (!g_trace)
		return;
	ErrnoGuard eg;
	va_list va;
	va_start(va, fmt);
	fprintf(g_trace_fp, "  [%6lu t=%.6fms f%d] ", (unsigned long) g.steps,
		(double) g.now_ns / 1e6, g.cur ? g.cur->id : -1);
	vfprintf(g_trace_fp, fmt, va);
	fputc('\n', g_trace_fp);
	va_end(va);
}

void event(uint64_t a, uint64_t b, uint64_t c)
{
	g.hash = mix(mix(mix(g.hash, a), b), c);
	g.nevents++;
}

void event_bytes(const void *p, size_t n)
{
	const unsigned char *b = (const unsigned char *) p;
	uint64_t h = n;
	for (size_t i = 0; i < n; i++)
		h = h * 1099511628211ull ^ b[i];
	event(0xb7, h);
}

void digest(uint64_t v)
{
	if (g.cur)
		g.cur->digest = mix(g.cur->digest, v);
}
void state_hash(uint64_t h)
{
	digest(h);
	if (tot.states.size() < 400000)
		tot.states.insert(h);
}

void probe(const char *name) { tot.probes[name]++; }

// ------------------------------------------------------------------ outcome
void to_root()
{
	g.running = false;
	siglongjmp(root_jmp, 1);
}

void fail(const char *cls, const char *fmt, ...)
{
	char buf[2048];
	va_list va;
	va_start(va, fmt);
	vsnprintf(buf, sizeof(buf), fmt, va);
	va_end(va);
	g.violated = true;
	g.cls = g.prefix + cls;
	g.msg = buf;
	if (g_trace)
		trace("VIOLATION %s: %s", cls, buf);
	to_root();
}

void class_prefix(const char *p) { g.prefix = p; }
void fresh_statics() { statics_restore(); }
void abandon(const char *why)
{
	g.abandoned = true;
	g.cls = "abandoned";
	g.msg = why;
	to_root();
}

// ------------------------------------------------------------------ fibers
static const size_t STACK = 256 * 1024;
static const int MAXF = 40;
static char *stacks;

extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");

Fiber *self() { return g.cur; }
int self_id() { return g.cur ? g.cur->id : -1; }

static void fiber_exit();
static void fiber_main()
{
	errno = 0;
	recompute_countdown();
	g.cur->body();
	fiber_exit();
	abort();
}

static void prepare(Fiber *f)
{
	if (!stacks) {
		stacks = (char *) mmap((void *) 0x500000000000ull, MAXF * STACK,
				       PROT_READ | PROT_WRITE,
				       MAP_PRIVATE | MAP_ANONYMOUS |
					       MAP_NORESERVE |
					       MAP_FIXED_NOREPLACE,
				       -1, 0);
		if (stacks == MAP_FAILED)
			abort();
		for (int i = 0; i < MAXF; i++)
			mprotect(stacks + i * STACK, 4096, PROT_NONE);
	}
	f->stack = stacks + (size_t) f->id * STACK;
	char *top = f->stack + STACK;
	memset(top - 48 * 1024, 0xa5, 48 * 1024);
	uint64_t *sp = (uint64_t *) (top - 64);
	*--sp = 0;
	*--sp = (uint64_t) fiber_main;
	for (int i = 0; i < 6; i++)
		*--sp = 0;
	f->sp = sp;
}

static Fiber *new_fiber(std::function<void()> body)
{
	if (g.fibers.size() >= MAXF)
		abandon("too many fibers");
	Fiber *f = new Fiber();
	f->id = (int) g.fibers.size();
	f->body = std::move(body);
	f->state = FS_READY;
	f->vc.set(f->id, 1);
	if (g.cur) {
		f->vc.join(g.cur->vc);
		f->vc.set(f->id, 1);
		g.cur->vc.set(g.cur->id, g.cur->vc.get(g.cur->id) + 1);
		f->sigmask = g.cur->sigmask;
	}
	g.fibers.push_back(f);
	prepare(f);
	return f;
}

static void preempt_mode_init()
{
	if (g.preempt_mode < 0) {
		static const int m[] = {0, 8, 64, 512, 2048};
		g.preempt_mode = m[choose(5)];
	}
}

Fiber *spawn(const char *name, std::function<void()> body)
{
	Fiber *f = new_fiber(std::move(body));
	f->name = name;
	event(0x5f, f->id);
	trace("spawn fiber %d (%s)", f->id, name);
	preempt_mode_init();
	sched_point(1);
	return f;
}

Fiber *spawn_seeded(const char *name, uint32_t seed, std::function<void()> body)
{
	Fiber *f = new_fiber(std::move(body));
	f->name = name;
	f->priv = true;
	seed_rng(f->rng, seed);
	event(0x5f, f->id, seed);
	trace("spawn fiber %d (%s, choices of seed %u)", f->id, name, seed);
	preempt_mode_init();
	sched_point(1);
	return f;
}

void settle(int64_t horizon)
{
	int64_t end = g.now_ns + horizon;
	for (;;) {
		bool any = false;
		for (auto f : g.fibers)
			any |= f != g.cur && f->state == FS_READY;
		if (any) {
			yield();
			continue;
		}
		if (g.events.empty() || g.events.begin()->first.first > end)
			return;
		int64_t t = g.events.begin()->first.first;
		advance(t > g.now_ns ? t - g.now_ns : 0);
	}
}

int live_fibers()
{
	int n = 0;
	for (auto f : g.fibers)
		n += f->state == FS_READY || f->state == FS_BLOCKED;
	return n;
}

static int ready_count()
{
	int n = 0;
	for (auto f : g.fibers)
		n += f->state == FS_READY;
	return n;
}

static void charge()
{
	int64_t used = g.countdown_start - (g.countdown > 0 ? g.countdown : 0);
	if (used < 0)
		used = 0;
	g.steps += used;
	if (g.preempt_left >= 0) {
		g.preempt_left -= used;
		if (g.preempt_left < 0)
			g.preempt_left = 0;
	}
	if (g.sig_left >= 0) {
		g.sig_left -= used;
		if (g.sig_left < 0)
			g.sig_left = 0;
	}
	g.countdown = g.countdown_start = 0;
}

int64_t step_now() { return g.steps + (g.countdown_start - g.countdown); }

void recompute_countdown()
{
	int64_t c = (int64_t) g.budget - (int64_t) g.steps;
	if (c < 1)
		c = 1;
	if (g.preempt_left >= 0 && g.preempt_left < c)
		c = g.preempt_left;
	if (g.sig_left >= 0 && g.sig_left < c)
		c = g.sig_left;
	g.countdown = g.countdown_start = c;
}

static void next_signal()
{
	if (g.sigq.empty()) {
		g.sig_left = -1;
	} else {
		g.sig_left = g.sigq.front().first;
		g.sig_num = g.sigq.front().second;
		g.sigq.pop_front();
	}
	recompute_countdown();
}

struct Scheduling {
	bool was = g.scheduling;
	Scheduling() { g.scheduling = true; }
	~Scheduling() { g.scheduling = was; }
};

static void draw_quantum()
{
	g.preempt_left = -1;
	if (g.preempt_mode > 0 && g.no_preempt == 0 && ready_count() > 1) {
		Scheduling sc;
		uint32_t v = choose((uint32_t) g.preempt_mode + 1);
		if (v)
			g.preempt_left = v;
	}
}

static void switch_to(Fiber *f)
{
	Fiber *old = g.cur;
	if (old == f)
		return;
	g.switches++;
	g.sched_hash = mix(g.sched_hash, (uint64_t) f->id << 8 | old->id);
	old->err = errno;
	g.cur = f;
	sim_switch(&old->sp, f->sp);
	errno = g.cur->err;
}

static void run_due()
{
	while (!g.events.empty() && g.events.begin()->first.first <= g.now_ns) {
		auto fn = std::move(g.events.begin()->second);
		g.events.erase(g.events.begin());
		fn();
	}
}

static void deadlock()
{
	std::string s;
	for (auto f : g.fibers)
		if (f->state == FS_BLOCKED)
			s += " fiber " + std::to_string(f->id) + " (" + f->name +
			     ") waits in " + f->why + ";";
	fail("hang:deadlock", "no thread can run and no event is pending:%s",
	     s.c_str());
}

// Current fiber is READY or BLOCKED/DONE; returns when it runs again.
static void reschedule(bool forced)
{
	ErrnoGuard eg;
	charge();
	g.steps += 1;
	if (g.steps > g.budget)
		fail("hang:steps", "no progress after %lu steps (fiber %d, %s)",
		     (unsigned long) g.steps, g.cur->id, g.cur->why);
	bool was = g.scheduling;
	g.scheduling = true;
	run_due();
	for (;;) {
		Fiber *list[MAXF];
		uint32_t n = 0;
		if (g.cur->state == FS_READY)
			list[n++] = g.cur;
		for (auto f : g.fibers)
			if (f->state == FS_READY && f != g.cur)
				list[n++] = f;
		if (n == 0) {
			if (g.events.empty())
				deadlock();
			g.now_ns = g.events.begin()->first.first;
			run_due();
			continue;
		}
		// let pending timed events overtake runnable threads sometimes
		if (!g.events.empty() && g.fibers.size() > 1 && !g.exact_time && chance(1, 8)) {
			int64_t t = g.events.begin()->first.first;
			if (t > g.now_ns)
				g.now_ns = t;
			run_due();
			continue;
		}
		uint32_t idx;
		if (n == 1)
			idx = 0;
		else if (g.cur->state == FS_READY && !forced) {
			uint32_t v = choose(2 * n);
			idx = v <= n ? 0 : v - n;
		} else if (g.cur->state == FS_READY) {
			// forced preemption: anyone else
			idx = 1 + choose(n - 1);
		} else {
			idx = choose(n);
		}
		Fiber *next = list[idx];
		g.scheduling = was;
		if (next != g.cur)
			switch_to(next);
		break;
	}
	draw_quantum();
	recompute_countdown();
}

void sched_point(int kind)
{
	if (!g.running || !g.cur)
		return;
	g.steps++;
	if (g.no_preempt)
		return;
	if (g.fibers.size() > 1 || !g.events.empty() || g.sig_left >= 0) {
		(void) kind;
		reschedule(false);
		if (g.sig_left == 0) {
			int sig = g.sig_num;
			next_signal();
			deliver_signal(sig);
		}
	} else {
		charge();
		if (g.steps > g.budget)
			fail("hang:steps", "no progress after %lu steps",
			     (unsigned long) g.steps);
		recompute_countdown();
	}
}

void yield() { sched_point(0); }

void hook_slow()
{
	ErrnoGuard eg;
	if (!g.running || !g.cur) {
		g.countdown = g.countdown_start = INT64_MAX / 2;
		return;
	}
	charge();
	if (g.steps >= g.budget)
		fail("hang:steps", "no progress after %lu steps (fiber %d)",
		     (unsigned long) g.steps, g.cur->id);
	if (g.sig_left == 0) {
		int sig = g.sig_num;
		next_signal();
		errno = eg.e;
		deliver_signal(sig);
		eg.e = errno; // handlers are checked for errno preservation
		return;
	}
	if (g.preempt_left == 0) {
		g.preempt_left = -1;
		if (g.no_preempt == 0 && ready_count() > 1) {
			errno = eg.e;
			reschedule(true);
			return;
		}
	}
	recompute_countdown();
}

void block(const char *why)
{
	g.cur->blocks++;
	g.cur->why = why;
	g.cur->state = FS_BLOCKED;
	g.cur->woken = false;
	g.cur->intr = false;
	reschedule(false);
	g.cur->why = "";
}

bool block_until(const char *why, int64_t deadline)
{
	Fiber *f = g.cur;
	uint64_t id = ++g.seq;
	f->timer_seq = id;
	bool timed = false;
	if (deadline >= 0) {
		g.events[{deadline, ++g.seq}] = [f, id, &timed]() {
			if (f->state == FS_BLOCKED && f->timer_seq == id) {
				timed = true;
				f->timer_seq = 0;
				f->state = FS_READY;
			}
		};
	}
	block(why);
	f->timer_seq = 0;
	if (deadline >= 0 && !timed) {
		// drop the stale event (it refers to our stack)
		for (auto it = g.events.begin(); it != g.events.end(); ++it) {
			if (it->first.second == id + 1) {
				g.events.erase(it);
				break;
			}
		}
	}
	return !timed;
}

void wake(Fiber *f)
{
	if (f->state == FS_BLOCKED) {
		f->state = FS_READY;
		f->woken = true;
		f->timer_seq = 0;
	}
}

void interrupt(Fiber *f)
{
	if (f->state == FS_BLOCKED && f->interruptible) {
		f->intr = true;
		f->state = FS_READY;
		f->timer_seq = 0;
	}
}

static void fiber_exit()
{
	Fiber *f = g.cur;
	f->state = FS_DONE;
	event(0xed, f->id);
	if (f->id == 0) {
		to_root();
	}
	if (f->joiner)
		wake(f->joiner);
	reschedule(false);
	abort();
}

void exit_fiber()
{
	fiber_exit();
}

void join_fiber(Fiber *f)
{
	while (f->state != FS_DONE) {
		f->joiner = g.cur;
		block("join_fiber");
	}
	g.cur->vc.join(f->vc);
}

void at(int64_t t, std::function<void()> fn)
{
	if (t < g.now_ns)
		t = g.now_ns;
	g.events[{t, ++g.seq}] = std::move(fn);
}

void set_preempt(bool on) { g.preempt_mode = on ? -1 : 0; }
NoPreempt::NoPreempt()
{
	charge();
	g.no_preempt++;
	g.preempt_left = -1;
	recompute_countdown();
}
NoPreempt::~NoPreempt() { g.no_preempt--; }
void exact_time(bool on) { g.exact_time = on; }
static void note_budget()
{
	if (g.budget > g.seg_start) {
		uint64_t pm = (g.steps - g.seg_start) * 1000 / (g.budget - g.seg_start);
		if (pm > g.worst)
			g.worst = pm;
	}
}
void step_budget(uint64_t n)
{
	charge();
	note_budget();
	g.seg_start = g.steps;
	g.budget = g.steps + n;
	recompute_countdown();
}

// ------------------------------------------------------------------ time
int64_t now() { return g.now_ns; }
int64_t wall() { return g.now_ns + g.wall_off; }
void set_zone(long seconds) { g.zone = seconds; }
void wall_step(int64_t d)
{
	g.wall_off += d;
	fault_fired(F_CLOCK_STEP);
}
int64_t lull()
{
	static const int64_t d[] = {1100, 2500, 7000, 31000, 61000, 601000, 3700000, 90000000};
	return choose(24) ? 0 : d[choose(8)] * 1000000;
}

void advance(int64_t ns)
{
	if (g.fibers.size() <= 1) {
		int64_t t = g.now_ns + ns;
		while (!g.events.empty() &&
		       g.events.begin()->first.first <= t) {
			g.now_ns = g.events.begin()->first.first;
			run_due();
		}
		g.now_ns = t;
		g.steps++;
		if (g.steps > g.budget)
			fail("hang:steps", "no progress");
		return;
	}
	block_until("advance", g.now_ns + ns);
}

// ------------------------------------------------------------------ signals
void signal_after(int sig, uint64_t steps)
{
	charge();
	g.sigq.push_back({(int64_t) steps, sig});
	if (g.sig_left < 0)
		next_signal();
	else
		recompute_countdown();
}
void signal_cancel()
{
	charge();
	g.sigq.clear();
	g.sig_left = -1;
	recompute_countdown();
}
bool signals_left() { return g.sig_left >= 0 || !g.sigq.empty(); }
void signal_raise(int sig) { deliver_signal(sig); }
bool in_handler() { return g.cur && g.cur->sig_depth > 0; }

struct ExitCatch {
	jmp_buf jb;
	Fiber *f;
	ExitInfo info;
};
#define exit_catch (*(ExitCatch **) &g.cur->exit_catch) // each fiber has its own

ExitInfo catch_exit(std::function<void()> body)
{
	ExitCatch *c = new ExitCatch();
	c->f = g.cur;
	ExitCatch *prev = exit_catch;
	exit_catch = c;
	if (_setjmp(c->jb) == 0)
		body();
	exit_catch = prev;
	ExitInfo i = c->info;
	delete c;
	return i;
}

void proc_exit(int status, int sig)
{
	trace("process ends: status=%d signal=%d", status, sig);
	event(0xe1, (uint64_t) status, (uint64_t) sig);
	if (!exit_catch || exit_catch->f != g.cur)
		fail("exit:unexpected",
		     "the code under test ended the process (status %d, signal %d)",
		     status, sig);
	exit_catch->info.exited = true;
	exit_catch->info.status = status;
	exit_catch->info.sig = sig;
	g.cur->sig_depth = 0;
	_longjmp(exit_catch->jb, 1);
}

// ------------------------------------------------------------------ statics
extern "C" {
extern char __start_repo_data[] __attribute__((weak));
extern char __stop_repo_data[] __attribute__((weak));
extern char __start_repo_bss[] __attribute__((weak));
extern char __stop_repo_bss[] __attribute__((weak));
extern char __start_repo_text[] __attribute__((weak));
extern char __stop_repo_text[] __attribute__((weak));
}
static std::string snap_data, snap_bss;
void statics_snapshot()
{
	if (__start_repo_data)
		snap_data.assign(__start_repo_data, __stop_repo_data);
	if (__start_repo_bss)
		snap_bss.assign(__start_repo_bss, __stop_repo_bss);
}
void statics_restore()
{
	if (!snap_data.empty())
		memcpy(__start_repo_data, snap_data.data(), snap_data.size());
	if (!snap_bss.empty())
		memcpy(__start_repo_bss, snap_bss.data(), snap_bss.size());
}

// ------------------------------------------------------------------ run
static volatile uint64_t run_serial, seen_serial;
static volatile int hang_ticks;

static void on_crash(int sig, siginfo_t *si, void *ctx)
{
	ucontext_t *uc = (ucontext_t *) ctx;
	uint64_t pc = (uint64_t) uc->uc_mcontext.gregs[REG_RIP];
	bool in_repo = pc >= (uint64_t) __start_repo_text &&
		       pc < (uint64_t) __stop_repo_text;
	if (!g.running) {
		static const char m[] = "simulator crashed outside a run\n";
		(void) !write(2, m, sizeof(m) - 1);
		_exit(70);
	}
	char buf[160];
	bool stack = false;
	uint64_t addr = (uint64_t) si->si_addr;
	if (stacks && addr >= (uint64_t) stacks &&
	    addr < (uint64_t) stacks + MAXF * STACK)
		stack = true;
	snprintf(buf, sizeof(buf), "signal %d at address %s in %s code%s", sig,
		 addr < 4096 ? "near NULL" : "(non-null)",
		 in_repo ? "library" : "called", stack ? " (stack overflow)" : "");
	g.violated = true;
	g.cls = "mem:crash";
	g.msg = buf;
	g.running = false;
	if (g_trace)
		fprintf(g_trace_fp, "  CRASH pc=%#lx %s\n", (unsigned long) pc,
			buf);
	siglongjmp(root_jmp, 1);
}

static void on_tick(int)
{
	if (seen_serial != run_serial || !g.running) {
		seen_serial = run_serial;
		hang_ticks = 0;
		return;
	}
	if (++hang_ticks >= 16) {
		hang_ticks = 0;
		g.violated = true;
		g.cls = "hang:loop";
		g.msg = "endless loop that makes no memory access";
		g.running = false;
		siglongjmp(root_jmp, 1);
	}
}

static void install_handlers()
{
	static bool done;
	if (done)
		return;
	done = true;
	static char alt[128 * 1024];
	stack_t ss = {};
	ss.ss_sp = alt;
	ss.ss_size = sizeof(alt);
	sigaltstack(&ss, nullptr);
	struct sigaction sa = {};
	sa.sa_sigaction = on_crash;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
		sigaction(s, &sa, nullptr);
	struct sigaction st = {};
	st.sa_handler = on_tick;
	st.sa_flags = SA_ONSTACK | SA_RESTART | SA_NODEFER;
	sigaction(SIGVTALRM, &st, nullptr);
	struct itimerval it = {{0, 500000}, {0, 500000}};
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static void free_fibers()
{
	for (auto f : g.fibers)
		delete f;
	g.fibers.clear();
}

static const Scenario *cur_scen;
static void main_body() { cur_scen->fn(); }

Result run_one(const Scenario &s, const std::vector<uint32_t> *tape,
	       uint64_t seed)
{
	install_handlers();
	static bool snapped;
	if (!snapped) {
		statics_snapshot();
		snapped = true;
	}
	free_fibers();
	statics_restore();
	g.replay = tape != nullptr;
	g.tape_in = tape;
	g.tape_pos = 0;
	g.tape_out.clear();
	seed_rng(g.rng, seed);
	g.prefix.clear();
	g.scheduling = false;
	memset(g.fden, 0, sizeof(g.fden));
	memset(g.ffired, 0, sizeof(g.ffired));
	g.hash = g.sched_hash = 0x1234567;
	g.nevents = 0;
	g.cur = nullptr;
	g.steps = 0;
	g.budget = s.budget;
	g.seg_start = g.worst = 0;
	g.switches = 0;
	g.preempt_left = -1;
	g.preempt_mode = -1;
	g.no_preempt = 0;
	g.exact_time = false;
	g.sig_left = -1;
	g.sigq.clear();
	g.now_ns = 1000000000ll * 1000;
	g.wall_off = 1700000000ll * 1000000000ll;
	g.zone = 0;
	g.events.clear();
	g.seq = 0;
	g.violated = g.abandoned = false;
	g.cls.clear();
	g.msg.clear();
	g.race = false;
	g.refused = 0;
	mem_reset();
	posix_reset();
	extra_reset();
	extra2_reset();
	kernel_reset();
	recompute_countdown();
	cur_scen = &s;
	int64_t t0 = g.now_ns;
	run_serial++;
	errno = 0;
	if (sigsetjmp(root_jmp, 0) == 0) {
		Fiber *m = new_fiber(main_body);
		m->name = "main";
		g.cur = m;
		g.running = true;
		sim_switch(&g.root_sp, m->sp);
	}
	g.running = false;
	charge();
	Result r;
	r.violated = g.violated;
	r.abandoned = g.abandoned;
	r.cls = g.cls;
	r.msg = g.msg;
	r.hash = mix(mix(g.hash, g.steps), (uint64_t) g.now_ns);
	r.sched_hash = mix(g.sched_hash, g.hash);
	r.steps = g.steps;
	note_budget();
	r.worst = g.worst;
	r.switches = g.switches;
	r.sim_ns = g.now_ns - t0;
	r.faults = faults_fired_total();
	r.fibers = (uint32_t) g.fibers.size();
	g.cur = nullptr;
	return r;
}

} // namespace sim
