// M01 condition, M02 mutex, M03 thread.
#include "kernel.h"
#include "sim.h"
#include "w_misc.h"
#include <cerrno>
extern "C" {
#include "sc_cond.h"
#include "sc_mutex.h"
#include "sc_thread.h"
}
using namespace sim;

ACCEPT(M01, "mem:", "leak", "hang:", "race:", "lock:", "assert", "exit:")
ACCEPT(M02, "mem:", "leak", "hang:", "race:", "lock:", "assert", "exit:")
ACCEPT(M03, "mem:", "leak", "hang:", "race:", "lock:", "thread:", "assert", "exit:")

// ------------------------------------------------------------------- M01
namespace {
struct Op {
	bool sig;	 // signal or wait
	uint64_t inv, ret; // ret = ~0 while pending
	intptr_t data;
};
struct Box { // recorded history of one condition
	std::vector<Op> ops;
	uint64_t clock = 0;
};

// Is there an order of the completed operations, consistent with real time,
// that a one-place mailbox allows, ending empty if `empty` (a waiter is still
// blocked after everything else settled)?
struct Lin {
	const std::vector<Op> &o;
	bool empty;
	std::set<std::pair<uint64_t, int>> seen;
	uint64_t all;
	explicit Lin(const std::vector<Op> &v, bool e) : o(v), empty(e)
	{
		all = 0;
		for (size_t i = 0; i < o.size(); i++)
			if (o[i].ret != ~0ull)
				all |= 1ull << i;
	}
	bool go(uint64_t done, int box) // box = index of pending signal or -1
	{
		if (done == all)
			return !empty || box < 0;
		if (!seen.insert({done, box}).second)
			return false;
		uint64_t lim = ~0ull; // earliest return among the rest
		for (size_t i = 0; i < o.size(); i++)
			if ((all & ~done) >> i & 1 && o[i].ret < lim)
				lim = o[i].ret;
		for (size_t i = 0; i < o.size(); i++) {
			if (!((all & ~done) >> i & 1) || o[i].inv > lim)
				continue;
			if (o[i].sig) {
				if (go(done | 1ull << i, (int) i))
					return true;
			} else if (box >= 0 && o[(size_t) box].data == o[i].data) {
				if (go(done | 1ull << i, -1))
					return true;
			}
		}
		return false;
	}
};

static std::string show(const Box &b)
{
	std::string s;
	for (auto &o : b.ops)
		s += std::string(s.empty() ? "" : "; ") + (o.sig ? "signal(" : "wait()=(") +
		     std::to_string((long) o.data) + ")[" + std::to_string(o.inv) + "," +
		     (o.ret == ~0ull ? std::string("pending") : std::to_string(o.ret)) + "]";
	return s;
}
} // namespace

static bool init_cond(struct sc_cond *c)
{
	uint64_t f0 = my_faults();
	size_t m0 = live_mutexes(), c0 = live_conds();
	errno = 0;
	int rc = sc_cond_init(c);
	bool hit = my_faults() != f0;
	CHECK("M01:init", (rc != 0) == hit && (rc == 0 || rc < 0), "init returned %d, %s", rc,
	      hit ? "a step of it failed" : "nothing failed");
	if (rc == 0)
		return true;
	probe("condition init failed");
	CHECK("M01:init", errno != 0, "failed init left errno unset");
	CHECK("M01:init", live_mutexes() == m0 && live_conds() == c0, "failed init left a mutex or condition behind");
	CHECK("M01:init", sc_cond_term(c) == 0, "terminating after a failed init reports an error");
	return false;
}

static void term_cond(struct sc_cond *c)
{
	uint64_t f0 = my_faults(F_SYNC_DESTROY);
	size_t m0 = live_mutexes(), c0 = live_conds();
	errors_mark();
	int rc = sc_cond_term(c), e = errno;
	bool hit = my_faults(F_SYNC_DESTROY) != f0;
	CHECK("M01:term", rc == 0 || rc < 0, "a failed term returned %d, a negative value is documented", rc);
	CHECK("M01:term", (rc != 0) == hit, "term returned %d, %s", rc, hit ? "a step of it failed" : "nothing failed");
	CHECK("M01:term", rc == 0 || (e != 0 && errno_named(e)), "a failed term set errno %d, nothing failed that way", e);
	CHECK("M01:term", live_mutexes() == m0 - 1 && live_conds() == c0 - 1, "term left the mutex or the condition behind");
	if (rc)
		probe("condition term failed");
}

static void cond_run(bool null_data)
{
	swarm({F_SPURIOUS, F_STALL, F_ATTR_INIT, F_MUTEX_INIT, F_COND_INIT}, 20);
	race_on(true);
	struct sc_cond *c = (struct sc_cond *) harness_alloc(sizeof(*c));
	memset((void *) c, 0xa5, sizeof(*c));
	bool ok = false;
	for (int i = 0; i < 4 && !ok; i++)
		ok = init_cond(c);
	if (!ok) {
		faults_off();
		ok = init_cond(c);
	}
	int ns = (int) range(1, 3), nw = (int) range(1, 3);
	int per = (int) range(1, 3);
	Box b;
	int *mem = (int *) harness_alloc(64 * sizeof(int));
	memset(mem, 0, 64 * sizeof(int));
	int next = 1;
	int waits_left = ns * per + nw; // more waits than signals
	std::vector<Fiber *> sig, wt;
	auto do_signal = [&](int v) {
		intptr_t d = v;
		if (null_data && choose(3) == 0)
			d = 0;
		else
			w_store(&mem[v], v * 7 + 1);
		size_t id = b.ops.size();
		b.ops.push_back(Op{true, b.clock++, ~0ull, d});
		trace("signal(%ld)", (long) d);
		sc_cond_signal(c, (void *) d);
		b.ops[id].ret = b.clock++;
	};
	for (int i = 0; i < nw; i++)
		wt.push_back(spawn("waiter", [&]() {
			while (waits_left > 0) {
				waits_left--;
				if (choose(4) == 0)
					yield();
				size_t id = b.ops.size();
				b.ops.push_back(Op{false, b.clock++, ~0ull, 0});
				intptr_t d = (intptr_t) sc_cond_wait(c);
				b.ops[id].data = d;
				b.ops[id].ret = b.clock++;
				trace("wait() = %ld", (long) d);
				CHECK("M01:data", d >= 0 && d < next, "wait returned %ld, which no signal carried",
				      (long) d);
				if (d)
					CHECK("M01:data", w_load(&mem[d]) == (int) d * 7 + 1,
					      "what was written before the signal is not visible after the wait");
			}
		}));
	for (int i = 0; i < ns; i++)
		sig.push_back(spawn("signaller", [&]() {
			for (int j = 0; j < per; j++) {
				switch (choose(4)) {
				case 0:
					yield();
					break;
				case 1:
					advance((int64_t) choose(1000) * 1000 + lull());
					break;
				}
				do_signal(next++);
			}
		}));
	for (auto f : sig)
		join_fiber(f);
	settle(1000000000 + lull());
	auto blocked = [&]() {
		size_t n = 0;
		for (auto &o : b.ops)
			n += !o.sig && o.ret == ~0ull;
		return n;
	};
	{
		Lin l(b.ops, blocked() > 0);
		if (!l.go(0, -1)) {
			Lin l2(b.ops, false);
			if (l2.go(0, -1))
				fail("M01:lost", "a signal is pending and a waiter still sleeps: %s", show(b).c_str());
			fail("M01:mailbox", "no order of the calls explains what the waits returned: %s", show(b).c_str());
		}
	}
	state_hash((uint64_t) b.ops.size() * 100 + blocked());
	// drain: every further signal lets exactly one waiter return with it
	int guard = 0;
	while (blocked() > 0 && guard++ < 64) {
		size_t n0 = b.ops.size();
		size_t done0 = 0;
		for (auto &o : b.ops)
			done0 += !o.sig && o.ret != ~0ull;
		int v = next++;
		CHECK("M01:drain", v < 64, "harness: too many signals");
		w_store(&mem[v], v * 7 + 1);
		b.ops.push_back(Op{true, b.clock++, ~0ull, v});
		sc_cond_signal(c, (void *) (intptr_t) v);
		b.ops[n0].ret = b.clock++;
		settle(1000000000 + lull());
		size_t done1 = 0, match = 0;
		for (auto &o : b.ops)
			if (!o.sig && o.ret != ~0ull) {
				done1++;
				match += o.data == v;
			}
		CHECK("M01:lost", done1 == done0 + 1 && match == 1,
		      "a signal to sleeping waiters made %zu of them return (%zu with its data)", done1 - done0, match);
	}
	for (auto f : wt)
		join_fiber(f);
	if (choose(4) == 0)
		fault_set(F_SYNC_DESTROY, range(100, 700));
	term_cond(c);
	CHECK("M01:term", sc_cond_term(c) == 0, "a second term is not harmless");
	harness_free(c);
	harness_free(mem);
	check_leaks();
}

SCENARIO(M01, mailbox, 4)
{
	cond_run(false);
}
SCENARIO(M01, mailbox_null, 1)
{
	cond_run(true);
}

// several conditions used as a request/reply channel: nothing is lost and
// everybody finishes
SCENARIO(M01, ping_pong, 2)
{
	swarm({F_SPURIOUS, F_STALL}, 20);
	race_on(true);
	struct sc_cond *c = (struct sc_cond *) harness_alloc(2 * sizeof(*c));
	CHECK("M01:init", sc_cond_init(&c[0]) == 0 && sc_cond_init(&c[1]) == 0, "init failed");
	int n = (int) range(1, 8);
	int *cell = (int *) harness_alloc(sizeof(int));
	w_store(cell, 0);
	Fiber *f = spawn("server", [&]() {
		for (int i = 1; i <= n; i++) {
			intptr_t v = (intptr_t) sc_cond_wait(&c[0]);
			CHECK("M01:mailbox", v == i, "request %d arrived as %ld", i, (long) v);
			w_bump(cell);
			if (choose(4) == 0)
				advance(lull());
			sc_cond_signal(&c[1], (void *) (intptr_t) (i * 2));
		}
	});
	for (int i = 1; i <= n; i++) {
		w_bump(cell);
		sc_cond_signal(&c[0], (void *) (intptr_t) i);
		intptr_t v = (intptr_t) sc_cond_wait(&c[1]);
		CHECK("M01:mailbox", v == i * 2, "reply %d arrived as %ld", i, (long) v);
		CHECK("M01:data", w_load(cell) == i * 2, "work done before a signal is not visible");
	}
	join_fiber(f);
	CHECK("M01:term", sc_cond_term(&c[0]) == 0 && sc_cond_term(&c[1]) == 0, "term failed");
	harness_free(c);
	harness_free(cell);
	check_leaks();
}

// ------------------------------------------------------------------- M02
static bool init_mutex(struct sc_mutex *m)
{
	uint64_t f0 = my_faults();
	size_t m0 = live_mutexes();
	int rc = sc_mutex_init(m);
	bool hit = my_faults() != f0;
	CHECK("M02:init", (rc != 0) == hit && rc <= 0, "init returned %d, %s", rc,
	      hit ? "a step of it failed" : "nothing failed");
	if (rc == 0)
		return true;
	probe("mutex init failed");
	CHECK("M02:init", live_mutexes() == m0, "failed init left a mutex behind");
	return false;
}

SCENARIO(M02, exclusion, 3)
{
	swarm({F_STALL, F_ATTR_INIT, F_MUTEX_INIT}, 20);
	race_on(true);
	int nm = (int) range(1, 3), nt = (int) range(2, 5), per = (int) range(1, 6);
	struct sc_mutex *m = (struct sc_mutex *) harness_alloc(sizeof(*m) * (size_t) nm);
	memset((void *) m, 0xa5, sizeof(*m) * (size_t) nm);
	for (int i = 0; i < nm; i++) {
		bool ok = false;
		for (int j = 0; j < 4 && !ok; j++)
			ok = init_mutex(&m[i]);
		if (!ok) {
			faults_off();
			ok = init_mutex(&m[i]);
		}
	}
	int *cell = (int *) harness_alloc(sizeof(int) * (size_t) nm);
	std::vector<int> owner((size_t) nm, -1), want((size_t) nm, 0);
	memset(cell, 0, sizeof(int) * (size_t) nm);
	int entered = 0;
	std::vector<Fiber *> t;
	for (int i = 0; i < nt; i++)
		t.push_back(spawn("locker", [&, i]() {
			for (int j = 0; j < per; j++) {
				// nested locks are taken in one order
				size_t a = choose((uint32_t) nm), z = a;
				if (choose(3) == 0 && a + 1 < (size_t) nm)
					z = a + 1 + choose((uint32_t) ((size_t) nm - a - 1));
				for (size_t q = a; q <= z; q += (z > a ? z - a : 1)) {
					sc_mutex_lock(&m[q]);
					CHECK("M02:exclusion", owner[q] < 0,
					      "thread %d entered while thread %d holds the mutex", i, owner[q]);
					owner[q] = i;
				}
				for (size_t q = a; q <= z; q += (z > a ? z - a : 1)) {
					w_bump(&cell[q]);
					want[q]++;
				}
				entered++;
				if (choose(4) == 0)
					advance((int64_t) choose(1000) * 1000 + lull());
				if (choose(4) == 0)
					yield();
				for (size_t q = a; q <= z; q += (z > a ? z - a : 1)) {
					CHECK("M02:exclusion", owner[q] == i, "another thread got in");
					owner[q] = -1;
					sc_mutex_unlock(&m[q]);
				}
			}
		}));
	for (auto f : t)
		join_fiber(f);
	CHECK("M02:progress", entered == nt * per, "some lock call never returned");
	for (int i = 0; i < nm; i++) {
		CHECK("M02:visible", w_load(&cell[i]) == want[(size_t) i], "an update made under the mutex was lost");
		state_hash((uint64_t) want[(size_t) i]);
		if (choose(8) == 0)
			fault_set(F_SYNC_DESTROY, range(100, 900));
		uint64_t f0 = my_faults(F_SYNC_DESTROY);
		int rc = sc_mutex_term(&m[i]);
		bool hit = my_faults(F_SYNC_DESTROY) != f0;
		CHECK("M02:term", rc == (hit ? -1 : 0), "term returned %d, %s", rc, hit ? "the system refused" : "nothing failed");
	}
	harness_free(m);
	harness_free(cell);
	check_leaks();
}

// ------------------------------------------------------------------- M03
namespace {
struct Job {
	int *cell; // [0] starts, [1] result written by the thread
	int arg;
	bool done;
	int runs;
	void *ret;
	Fiber *self;
};
} // namespace
static std::vector<int> *order_log;
static void *job_fn(void *arg)
{
	Job *j = (Job *) arg;
	j->runs++;
	j->self = self();
	CHECK("M03:once", j->runs == 1, "the function ran %d times for one start", j->runs);
	CHECK("M03:arg", j->arg >= 0, "the function got another argument");
	if (choose(3) == 0)
		yield();
	if (choose(4) == 0)
		advance((int64_t) choose(5000) * 1000 + lull());
	w_store(&j->cell[1], j->arg * 3 + w_load(&j->cell[0]));
	if (choose(3) == 0)
		yield();
	j->done = true;
	return j->ret;
}

// a thread that could not be joined; true if join failed, and rightly so
static bool join_failed(struct sc_thread *t, Job *j, int rc, bool hit)
{
	CHECK("M03:join", rc == (hit ? -1 : 0), "join or term returned %d, %s", rc, hit ? "the system refused" : "nothing failed");
	if (!hit)
		return false;
	probe("thread join failed");
	const char *e = sc_thread_err(t);
	CHECK("M03:text", e && addressable(e, 1) && *e && strnlen(e, 128) < 128, "a failed join reports no text");
	CHECK("M03:text", errors_named(e), "a failed join reports \"%s\", nothing failed that way", e);
	while (!j->self)
		advance(1000000);
	join_fiber(j->self);
	sc_thread_init(t);
	return true;
}

static void one_thread(int id, int depth)
{
	struct sc_thread *t = (struct sc_thread *) harness_alloc(sizeof(*t));
	memset((void *) t, 0xa5, sizeof(*t));
	sc_thread_init(t);
	int rounds = (int) range(1, 3);
	for (int r = 0; r < rounds; r++) {
		if (choose(5) == 0) { // nothing started: harmless
			void *v = (void *) 0x77;
			if (choose(2))
				CHECK("M03:idle", sc_thread_term(t) == 0, "term of an unstarted thread failed");
			else
				CHECK("M03:idle", sc_thread_join(t, choose(2) ? &v : nullptr) == 0,
				      "join of an unstarted thread failed");
		}
		Job *j = (Job *) harness_alloc(sizeof(*j));
		*j = Job();
		j->cell = (int *) harness_alloc(2 * sizeof(int));
		j->arg = id * 100 + r;
		j->ret = choose(4) ? (void *) (uintptr_t) (0x1000 + choose(100000)) : nullptr;
		w_store(&j->cell[0], 5 + r);
		w_store(&j->cell[1], -1);
		uint64_t f0 = my_faults();
		size_t l0 = live_blocks();
		(void) l0;
		errors_mark();
		int rc = sc_thread_start(t, job_fn, j);
		bool hit = my_faults() != f0;
		bool started = rc == 0;
		trace("start = %d (%s)", rc, hit ? "fault" : "no fault");
		CHECK("M03:start", hit || rc == 0, "start failed with nothing wrong: %d", rc);
		CHECK("M03:start", rc == 0 || rc == -1, "start returned %d", rc);
		if (!started) {
			probe("thread start failed");
			const char *e = sc_thread_err(t);
			CHECK("M03:start", e && addressable(e, 1) && e[0] && strnlen(e, 128) < 128,
			      "a failed start reports no text");
			CHECK("M03:text", errors_named(e), "a failed start reports \"%s\", nothing failed that way", e);
			if (choose(2))
				advance(10000000);
			CHECK("M03:start", j->runs == 0, "a failed start ran the function");
		} else if (choose(3) == 0) {
			advance((int64_t) choose(10000) * 1000);
		}
		int joins = (int) choose(3);
		bool first = true;
		for (int k = 0; k <= joins; k++) {
			void *v = (void *) 0x55;
			bool with = choose(3) != 0, term = choose(4) == 0;
			uint64_t j0 = my_faults(F_THREAD_JOIN);
			errors_mark();
			int jr = term ? sc_thread_term(t) : sc_thread_join(t, with ? &v : nullptr);
			if (join_failed(t, j, jr, my_faults(F_THREAD_JOIN) != j0))
				break;
			if (first && started) {
				CHECK("M03:join", j->done, "join returned before the function ended");
				CHECK("M03:join", !with || term || v == j->ret, "join returned %p, the function %p", v,
				      j->ret);
				CHECK("M03:visible", w_load(&j->cell[1]) == j->arg * 3 + 5 + r,
				      "what the thread wrote is not visible after the join");
			} else if (with && !term && !started) {
				CHECK("M03:join", v == nullptr, "join of nothing invented a result");
			}
			first = false;
		}
		CHECK("M03:once", !started || j->runs == 1, "the function ran %d times", j->runs);
		harness_free(j->cell);
		harness_free(j);
	}
	if (choose(2))
		CHECK("M03:join", sc_thread_term(t) == 0, "term after join failed");
	harness_free(t);
	(void) depth;
}

SCENARIO(M03, lifecycle, 3)
{
	swarm({F_STALL, F_ATTR_INIT, F_THREAD_CREATE, F_THREAD_JOIN}, 25);
	race_on(true);
	int n = (int) range(1, 4);
	std::vector<Fiber *> f;
	for (int i = 0; i < n; i++)
		f.push_back(spawn("owner", [i]() { one_thread(i, 0); }));
	for (auto x : f)
		join_fiber(x);
	state_hash((uint64_t) n * 1000 + faults_fired(F_THREAD_CREATE) * 10 + faults_fired(F_ATTR_INIT));
	check_leaks();
}

// many threads of one owner, joined in any order
SCENARIO(M03, many, 2)
{
	swarm({F_STALL, F_ATTR_INIT, F_THREAD_CREATE, F_THREAD_JOIN}, 25);
	race_on(true);
	size_t n = range(2, 6);
	struct sc_thread *t = (struct sc_thread *) harness_alloc(sizeof(*t) * n);
	memset((void *) t, 0x5a, sizeof(*t) * n);
	std::vector<Job *> j(n);
	std::vector<int> rc(n);
	for (size_t i = 0; i < n; i++) {
		sc_thread_init(&t[i]);
		j[i] = (Job *) harness_alloc(sizeof(Job));
		*j[i] = Job();
		j[i]->cell = (int *) harness_alloc(2 * sizeof(int));
		j[i]->arg = (int) i;
		j[i]->ret = (void *) (uintptr_t) (0x100 + i);
		w_store(&j[i]->cell[0], (int) i);
		uint64_t f0 = my_faults();
		rc[i] = sc_thread_start(&t[i], job_fn, j[i]);
		CHECK("M03:start", rc[i] == 0 || my_faults() != f0, "start failed with nothing wrong");
	}
	std::vector<size_t> order;
	for (size_t i = 0; i < n; i++)
		order.insert(order.begin() + choose((uint32_t) order.size() + 1), i);
	for (size_t i : order) {
		void *v = (void *) 0x55;
		uint64_t j0 = my_faults(F_THREAD_JOIN);
		errors_mark();
		int r = sc_thread_join(&t[i], &v);
		if (join_failed(&t[i], j[i], r, my_faults(F_THREAD_JOIN) != j0))
			continue;
		CHECK("M03:join", v == (rc[i] == 0 ? j[i]->ret : nullptr), "join of thread %zu returned %p", i, v);
		CHECK("M03:once", j[i]->runs == (rc[i] == 0), "function ran %d times", j[i]->runs);
		if (rc[i] == 0)
			CHECK("M03:visible", w_load(&j[i]->cell[1]) == (int) i * 4,
			      "what the thread wrote is not visible after the join");
	}
	for (size_t i = 0; i < n; i++) {
		CHECK("M03:join", sc_thread_term(&t[i]) == 0, "term after join failed");
		harness_free(j[i]->cell);
		harness_free(j[i]);
	}
	harness_free(t);
	check_leaks();
}
