// Threads, mutexes, conditions, clocks, signals and process control.
#include "internal.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <pthread.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {

struct SimMutex {
	int type = PTHREAD_MUTEX_NORMAL;
	Fiber *owner = nullptr;
	int depth = 0;
	std::vector<Fiber *> waiters;
	VC vc;
	bool is_static = false;
};
struct SimCond {
	std::vector<Fiber *> waiters;
	int clock = CLOCK_REALTIME;
};
static std::map<const void *, SimMutex> mutexes;
static std::map<const void *, SimCond> conds;
static std::map<const void *, int> mattrs;  // type
static std::map<const void *, int> tattrs;  // detach state
static std::map<const void *, int> cattrs;
static std::set<const void *> destroyed;
struct SigAct {
	struct sigaction sa;
};
static struct sigaction acts[65];
static uint64_t pending;
static std::map<std::string, std::string> env;
static unsigned key_next;

void posix_reset()
{
	mutexes.clear();
	conds.clear();
	mattrs.clear();
	tattrs.clear();
	cattrs.clear();
	destroyed.clear();
	memset(acts, 0, sizeof(acts));
	pending = 0;
	env.clear();
	key_next = 0;
}

void posix_leaks(std::string &out)
{
	for (auto &m : mutexes)
		if (m.second.depth) {
			out += " a locked mutex;";
			break;
		}
	size_t n = 0;
	for (auto &m : mutexes)
		n += !m.second.is_static;
	if (n)
		out += " " + std::to_string(n) + " mutex(es) not destroyed;";
	if (!conds.empty())
		out += " " + std::to_string(conds.size()) +
		       " condition(s) not destroyed;";
	if (!mattrs.empty())
		out += " mutex attribute not destroyed;";
	if (!tattrs.empty())
		out += " thread attribute not destroyed;";
	for (auto f : g.fibers)
		if (f->is_pthread && !f->joined && !f->detached) {
			out += " thread never joined;";
			break;
		}
}

bool any_mutex_locked()
{
	for (auto &m : mutexes)
		if (m.second.depth)
			return true;
	return false;
}
size_t live_mutexes()
{
	size_t n = 0;
	for (auto &m : mutexes)
		n += !m.second.is_static;
	return n;
}
size_t live_conds() { return conds.size(); }
size_t live_pthreads()
{
	size_t n = 0;
	for (auto f : g.fibers)
		n += f->is_pthread && !f->joined && !f->detached;
	return n;
}

void set_env(const char *k, const char *v)
{
	if (v)
		env[k] = v;
	else
		env.erase(k);
}

static SimMutex *get_mutex(pthread_mutex_t *m, const char *op)
{
	auto it = mutexes.find(m);
	if (it == mutexes.end()) {
		// statically initialised? (destroy leaves other bytes behind)
		static const pthread_mutex_t z = PTHREAD_MUTEX_INITIALIZER;
		if (destroyed.count(m) && memcmp(m, &z, sizeof(z)) != 0)
			fail("lock:misuse", "%s on a destroyed mutex", op);
		if (memcmp(m, &z, sizeof(z)) == 0) {
			destroyed.erase(m);
			SimMutex &s = mutexes[m];
			s.is_static = true;
			return &s;
		}
		fail("lock:misuse", "%s on an uninitialised mutex", op);
	}
	return &it->second;
}

static int do_lock(pthread_mutex_t *m, SimMutex *s, const char *why)
{
	(void) m;
	if (s->owner == g.cur) {
		if (s->type == PTHREAD_MUTEX_RECURSIVE) {
			s->depth++;
			return 0;
		}
		if (s->type == PTHREAD_MUTEX_ERRORCHECK)
			return failed(EDEADLK);
	}
	while (s->depth) {
		s->waiters.push_back(g.cur);
		block(why);
		for (size_t i = 0; i < s->waiters.size(); i++)
			if (s->waiters[i] == g.cur) {
				s->waiters.erase(s->waiters.begin() + (long) i);
				break;
			}
	}
	s->owner = g.cur;
	s->depth = 1;
	hb_acquire(s->vc);
	event(0x10c, (uint64_t) g.cur->id);
	return 0;
}

static int do_unlock(SimMutex *s)
{
	if (s->depth == 0 || s->owner != g.cur)
		fail("lock:misuse", "unlock by a thread that does not hold it");
	if (--s->depth)
		return 0;
	s->owner = nullptr;
	hb_release(s->vc);
	for (auto f : s->waiters)
		wake(f);
	s->waiters.clear();
	return 0;
}

// a synchronous fault: a blocked or ignored one kills at once
void deliver_fault(int sig)
{
	if ((g.cur->sigmask & (1ull << sig)) || acts[sig].sa_handler == SIG_IGN)
		proc_exit(0, sig);
	deliver_signal(sig);
	// returning from the handler re-executes the faulting instruction
	for (int i = 0; i < 50; i++) {
		if ((g.cur->sigmask & (1ull << sig)) ||
		    acts[sig].sa_handler == SIG_IGN)
			proc_exit(0, sig);
		deliver_signal(sig);
	}
	fail("hang:loop", "the handler of a fault returns to the fault for ever");
}

void deliver_signal(int sig)
{
	Fiber *f = g.cur;
	if (f->sigmask & (1ull << sig)) {
		pending |= 1ull << sig;
		return;
	}
	struct sigaction sa = acts[sig];
	event(0x516, (uint64_t) sig);
	fault_fired(F_SIGNAL);
	trace("signal %d delivered", sig);
	if (sa.sa_handler == SIG_IGN)
		return;
	if (sa.sa_handler == SIG_DFL) {
		if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH ||
		    sig == SIGCONT)
			return;
		proc_exit(0, sig);
	}
	uint64_t old = f->sigmask;
	uint64_t add = 0;
	for (int i = 1; i < 64; i++)
		if (sigismember(&sa.sa_mask, i) == 1)
			add |= 1ull << i;
	if (!(sa.sa_flags & SA_NODEFER))
		add |= 1ull << sig;
	if (sa.sa_flags & SA_RESETHAND)
		acts[sig].sa_handler = SIG_DFL;
	f->sigmask |= add;
	f->sig_depth++;
	int e = errno;
	if (sa.sa_flags & SA_SIGINFO) {
		siginfo_t si;
		memset(&si, 0, sizeof(si));
		si.si_signo = sig;
		static char fake_ctx[1024];
		sa.sa_sigaction(sig, &si, fake_ctx);
	} else {
		sa.sa_handler(sig);
	}
	if (errno != e)
		fail("sig:errno", "handler of signal %d changed errno", sig);
	f->sig_depth--;
	f->sigmask = old;
	for (int i = 1; i < 64; i++)
		if ((pending & (1ull << i)) && !(f->sigmask & (1ull << i))) {
			pending &= ~(1ull << i);
			deliver_signal(i);
		}
}

bool signal_ignored(int sig) { return acts[sig].sa_handler == SIG_IGN; }
bool signal_default(int sig) { return acts[sig].sa_handler == SIG_DFL; }
void sigpipe()
{
	deliver_signal(SIGPIPE);
}

} // namespace sim

using namespace sim;

extern "C" {

// ------------------------------------------------------------------- mutex
int simc_pthread_mutexattr_init(pthread_mutexattr_t *a)
{
	sched_point(2);
	if (fault(F_ATTR_INIT))
		return failed(ENOMEM);
	mattrs[a] = PTHREAD_MUTEX_NORMAL;
	return 0;
}
int simc_pthread_mutexattr_destroy(pthread_mutexattr_t *a)
{
	if (!mattrs.erase(a))
		fail("lock:misuse", "destroy of an uninitialised attribute");
	return 0;
}
int simc_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t)
{
	if (!mattrs.count(a))
		fail("lock:misuse", "settype on an uninitialised attribute");
	mattrs[a] = t;
	return 0;
}
int simc_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	sched_point(2);
	touch(m, sizeof(*m), true);
	if (a && !mattrs.count(a))
		fail("lock:misuse", "mutex init with a dead attribute");
	if (fault(F_MUTEX_INIT))
		return failed(choose(2) ? EAGAIN : ENOMEM);
	if (mutexes.count(m) && (!mutexes[m].is_static || mutexes[m].depth))
		fail("lock:misuse", "mutex initialised twice");
	destroyed.erase(m);
	mutexes[m] = SimMutex();
	if (a)
		mutexes[m].type = mattrs[a];
	memset(m, 0x5e, sizeof(*m));
	return 0;
}
int simc_pthread_mutex_destroy(pthread_mutex_t *m)
{
	sched_point(2);
	SimMutex *s = get_mutex(m, "destroy");
	if (s->depth || !s->waiters.empty())
		fail("lock:misuse", "destroy of a mutex in use");
	mutexes.erase(m);
	destroyed.insert(m);
	touch(m, sizeof(*m), true);
	memset(m, 0x5d, sizeof(*m));
	return fault(F_SYNC_DESTROY) ? failed(EBUSY) : 0;
}
int simc_pthread_mutex_lock(pthread_mutex_t *m)
{
	unsafe_call("pthread_mutex_lock");
	SimMutex *s = get_mutex(m, "lock");
	sched_point(2);
	return do_lock(m, s, "pthread_mutex_lock");
}
int simc_pthread_mutex_trylock(pthread_mutex_t *m)
{
	SimMutex *s = get_mutex(m, "trylock");
	sched_point(2);
	if (s->depth && !(s->owner == g.cur && s->type == PTHREAD_MUTEX_RECURSIVE))
		return EBUSY;
	return do_lock(m, s, "trylock");
}
int simc_pthread_mutex_unlock(pthread_mutex_t *m)
{
	unsafe_call("pthread_mutex_unlock");
	SimMutex *s = get_mutex(m, "unlock");
	do_unlock(s);
	sched_point(2);
	return 0;
}

// --------------------------------------------------------------- condition
int simc_pthread_condattr_init(pthread_condattr_t *a)
{
	if (fault(F_ATTR_INIT))
		return failed(ENOMEM);
	cattrs[a] = CLOCK_REALTIME;
	return 0;
}
int simc_pthread_condattr_destroy(pthread_condattr_t *a)
{
	cattrs.erase(a);
	return 0;
}
int simc_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c)
{
	cattrs[a] = (int) c;
	return 0;
}
int simc_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	sched_point(2);
	touch(c, sizeof(*c), true);
	if (fault(F_COND_INIT))
		return failed(choose(2) ? EAGAIN : ENOMEM);
	if (conds.count(c))
		fail("lock:misuse", "condition initialised twice");
	conds[c] = SimCond();
	if (a && cattrs.count(a))
		conds[c].clock = cattrs[a];
	memset(c, 0x5c, sizeof(*c));
	return 0;
}
static SimCond *get_cond(pthread_cond_t *c, const char *op)
{
	auto it = conds.find(c);
	if (it == conds.end())
		fail("lock:misuse", "%s on a condition that is not initialised",
		     op);
	return &it->second;
}
int simc_pthread_cond_destroy(pthread_cond_t *c)
{
	SimCond *s = get_cond(c, "destroy");
	if (!s->waiters.empty())
		fail("lock:misuse", "destroy of a condition with waiters");
	conds.erase(c);
	return fault(F_SYNC_DESTROY) ? failed(EINVAL) : 0;
}
}
namespace sim {
int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
	SimCond *s = get_cond(c, "wait");
	SimMutex *k = get_mutex(m, "cond wait");
	if (k->owner != g.cur)
		fail("lock:misuse", "cond wait without holding the mutex");
	int depth = k->depth;
	if (depth > 1)
		probe("cond wait with recursive lock");
	k->depth = 1;
	bool spur = fault(F_SPURIOUS);
	if (!spur)
		s->waiters.push_back(g.cur);
	do_unlock(k);
	bool ok = true;
	if (spur) {
		sched_point(3);
	} else {
		ok = block_until("pthread_cond_wait", deadline);
		for (size_t i = 0; i < s->waiters.size(); i++)
			if (s->waiters[i] == g.cur) {
				s->waiters.erase(s->waiters.begin() + (long) i);
				break;
			}
	}
	do_lock(m, k, "pthread_cond_wait (relock)");
	k->depth = depth;
	return ok ? 0 : ETIMEDOUT;
}
} // namespace sim
extern "C" {
int simc_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	return cond_wait(c, m, -1);
}
int simc_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
				const struct timespec *ts)
{
	int64_t t = (int64_t) ts->tv_sec * 1000000000 + ts->tv_nsec;
	if (get_cond(c, "timedwait")->clock == CLOCK_REALTIME)
		t -= g.wall_off;
	return cond_wait(c, m, t < g.now_ns ? g.now_ns : t);
}
static void wake_one(SimCond *s)
{
	if (s->waiters.empty())
		return;
	size_t i = choose((uint32_t) s->waiters.size());
	Fiber *f = s->waiters[i];
	s->waiters.erase(s->waiters.begin() + (long) i);
	wake(f);
}
int simc_pthread_cond_signal(pthread_cond_t *c)
{
	unsafe_call("pthread_cond_signal");
	SimCond *s = get_cond(c, "signal");
	wake_one(s);
	if (!s->waiters.empty() && fault(F_SPURIOUS))
		wake_one(s);
	sched_point(2);
	return 0;
}
int simc_pthread_cond_broadcast(pthread_cond_t *c)
{
	SimCond *s = get_cond(c, "broadcast");
	while (!s->waiters.empty())
		wake_one(s);
	sched_point(2);
	return 0;
}

// ----------------------------------------------------------------- threads
int simc_pthread_attr_init(pthread_attr_t *a)
{
	sched_point(2);
	if (fault(F_ATTR_INIT))
		return failed(ENOMEM);
	tattrs[a] = PTHREAD_CREATE_JOINABLE;
	return 0;
}
int simc_pthread_attr_destroy(pthread_attr_t *a)
{
	if (!tattrs.erase(a))
		fail("lock:misuse", "destroy of an uninitialised thread attribute");
	return 0;
}
int simc_pthread_attr_setdetachstate(pthread_attr_t *a, int s)
{
	if (fault(F_ATTR_INIT))
		return failed(EINVAL);
	tattrs[a] = s;
	return 0;
}
int simc_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; }

static Fiber *thread_of(pthread_t t)
{
	uint64_t v = (uint64_t) t;
	if (v < 0x7a0000001000ull)
		return nullptr;
	v -= 0x7a0000000000ull;
	uint64_t id = v >> 12;
	if ((v & 0xfff) || id >= g.fibers.size())
		return nullptr;
	Fiber *f = g.fibers[id];
	return f->is_pthread ? f : nullptr;
}
static pthread_t handle(Fiber *f)
{
	return (pthread_t) (0x7a0000000000ull + ((uint64_t) f->id << 12));
}
int simc_pthread_create(pthread_t *t, const pthread_attr_t *a,
			void *(*fn)(void *), void *arg)
{
	sched_point(2);
	touch(t, sizeof(*t), true);
	if (fault(F_THREAD_CREATE)) {
		// the handle is unspecified after a failure
		*t = (pthread_t) 0x7f00dead0000ull;
		return failed(EAGAIN);
	}
	if (a && !tattrs.count(a))
		fail("lock:misuse", "thread created with a dead attribute");
	NoPreempt np; // handle is stored before the thread can be seen
	Fiber *f = spawn("pthread", [fn, arg]() {
		void *r = fn(arg);
		g.cur->ret = r;
		extra_thread_exit();
	});
	f->is_pthread = true;
	f->detached = a && tattrs[a] == PTHREAD_CREATE_DETACHED;
	*t = handle(f);
	return 0;
}
int simc_pthread_join(pthread_t t, void **ret)
{
	sched_point(2);
	Fiber *f = thread_of(t);
	if (!f)
		fail("thread:badjoin", "join of a handle that names no thread");
	if (f->joined || f->detached)
		fail("thread:badjoin", "join of a thread already joined");
	if (f == g.cur)
		return failed(EDEADLK);
	if (fault(F_THREAD_JOIN)) {
		// a documented failure, the thread is left alone
		f->detached = true;
		return failed(EINVAL);
	}
	join_fiber(f);
	f->joined = true;
	if (ret) {
		touch(ret, sizeof(*ret), true);
		*ret = f->ret;
	}
	return 0;
}
int simc_pthread_detach(pthread_t t)
{
	Fiber *f = thread_of(t);
	if (!f)
		fail("thread:badjoin", "detach of a handle that names no thread");
	f->detached = true;
	return 0;
}
pthread_t simc_pthread_self(void) { return handle(g.cur); }
int simc_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int simc_pthread_setname_np(pthread_t, const char *) { return 0; }
int simc_pthread_once(pthread_once_t *o, void (*fn)(void))
{
	static_assert(sizeof(*o) >= 4, "");
	sched_point(2);
	static std::map<const void *, VC> vcs;
	while (*(volatile int *) o == 1)
		yield();
	if (*(volatile int *) o == 0) {
		*(int *) o = 1;
		fn();
		*(int *) o = 2;
		VC &v = vcs[o];
		v = VC();
		hb_release(v);
	} else {
		hb_acquire(vcs[o]);
	}
	return 0;
}
int simc_pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
	uint64_t m = 0;
	Fiber *f = g.cur;
	if (old) {
		sigemptyset(old);
		for (int i = 1; i < 64; i++)
			if (f->sigmask & (1ull << i))
				sigaddset(old, i);
	}
	if (!set)
		return 0;
	for (int i = 1; i < 64; i++)
		if (sigismember(set, i) == 1)
			m |= 1ull << i;
	if (how == SIG_BLOCK)
		f->sigmask |= m;
	else if (how == SIG_UNBLOCK)
		f->sigmask &= ~m;
	else
		f->sigmask = m;
	for (int i = 1; i < 64; i++)
		if ((pending & (1ull << i)) && !(f->sigmask & (1ull << i))) {
			pending &= ~(1ull << i);
			deliver_signal(i);
		}
	return 0;
}
int simc_sigprocmask(int how, const sigset_t *set, sigset_t *old)
{
	return simc_pthread_sigmask(how, set, old);
}
int simc_sched_yield(void)
{
	sched_point(2);
	return 0;
}

// ------------------------------------------------------------------ clocks
static void put_ts(struct timespec *ts, int64_t ns)
{
	touch(ts, sizeof(*ts), true);
	ts->tv_sec = ns / 1000000000;
	ts->tv_nsec = ns % 1000000000;
}
int simc_clock_gettime(clockid_t c, struct timespec *ts)
{
	sched_point(4);
	g.now_ns += 50;
	switch (c) {
	case CLOCK_REALTIME:
		put_ts(ts, wall());
		return 0;
	case CLOCK_REALTIME_COARSE: // the time of the last 4 ms tick
		put_ts(ts, wall() - g.now_ns % 4000000);
		return 0;
	case CLOCK_MONOTONIC:
		put_ts(ts, g.now_ns);
		return 0;
	case CLOCK_MONOTONIC_COARSE:
		put_ts(ts, g.now_ns - g.now_ns % 4000000);
		return 0;
	case CLOCK_MONOTONIC_RAW: // not slewed: differs from the others by now
		put_ts(ts, g.now_ns + 123456789);
		return 0;
	case CLOCK_BOOTTIME: // has run on while the machine was suspended
		put_ts(ts, g.now_ns + 5000000000);
		return 0;
	case CLOCK_PROCESS_CPUTIME_ID:
	case CLOCK_THREAD_CPUTIME_ID:
		put_ts(ts, (g.now_ns - 1000000000000ll) / 3);
		return 0;
	}
	errno = EINVAL;
	return -1;
}
int simc_gettimeofday(struct timeval *tv, void *)
{
	sched_point(4);
	g.now_ns += 50;
	tv->tv_sec = wall() / 1000000000;
	tv->tv_usec = wall() % 1000000000 / 1000;
	return 0;
}
time_t simc_time(time_t *t)
{
	sched_point(4);
	time_t v = wall() / 1000000000;
	if (t)
		*t = v;
	return v;
}
static int do_sleep(int64_t ns, struct timespec *rem)
{
	int64_t start = g.now_ns;
	sched_point(4);
	if (ns > 0 && fault(F_EINTR)) {
		int64_t part = (int64_t) ((double) ns * choose(100) / 100.0);
		if (part)
			advance(part);
		int64_t left = ns - (g.now_ns - start);
		if (left > 0) {
			if (rem)
				put_ts(rem, left);
			event(0x51e, (uint64_t) part);
			return EINTR;
		}
	}
	int64_t end = start + ns;
	if (fault(F_STALL))
		end += range(1, 5000000);
	if (end > g.now_ns)
		advance(end - g.now_ns);
	event(0x51e, (uint64_t) (g.now_ns - start));
	return 0;
}
int simc_nanosleep(const struct timespec *req, struct timespec *rem)
{
	if (req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0) {
		errno = EINVAL;
		return -1;
	}
	int rc = do_sleep((int64_t) req->tv_sec * 1000000000 + req->tv_nsec, rem);
	if (rc) {
		errno = rc;
		return -1;
	}
	return 0;
}
int simc_clock_nanosleep(clockid_t c, int fl, const struct timespec *req,
			 struct timespec *rem)
{
	if (req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0)
		return EINVAL;
	int64_t t = (int64_t) req->tv_sec * 1000000000 + req->tv_nsec;
	if (fl & TIMER_ABSTIME) {
		t -= c == CLOCK_REALTIME ? wall() : g.now_ns;
		if (t < 0)
			t = 0;
		return do_sleep(t, nullptr);
	}
	return do_sleep(t, rem);
}
int simc_usleep(useconds_t us)
{
	int rc = do_sleep((int64_t) us * 1000, nullptr);
	if (rc) {
		errno = rc;
		return -1;
	}
	return 0;
}
unsigned simc_sleep(unsigned s)
{
	return do_sleep((int64_t) s * 1000000000, nullptr) ? 1 : 0;
}
struct tm *simc_localtime_r(const time_t *t, struct tm *out)
{
	unsafe_call("localtime_r");
	if (fault(F_TIME_ERR)) {
		errno = EOVERFLOW;
		return nullptr;
	}
	struct tm x;
	time_t lt = *t + g.zone;
	gmtime_r(&lt, &x);
	x.tm_gmtoff = g.zone;
	touch(out, sizeof(*out), true);
	*out = x;
	return out;
}
struct tm *simc_gmtime_r(const time_t *t, struct tm *out)
{
	time_t u = *t - g.zone;
	return simc_localtime_r(&u, out);
}
static struct tm static_tm;
struct tm *simc_localtime(const time_t *t)
{
	// non-reentrant: the result lives in one static object
	unsafe_call("localtime");
	if (fault(F_TIME_ERR)) {
		errno = EOVERFLOW;
		return nullptr;
	}
	touch(&static_tm, sizeof(static_tm), true);
	time_t lt = *t + g.zone;
	gmtime_r(&lt, &static_tm);
	static_tm.tm_gmtoff = g.zone;
	sched_point(2);
	return &static_tm;
}
struct tm *simc_gmtime(const time_t *t)
{
	time_t u = *t - g.zone;
	return simc_localtime(&u);
}

// ----------------------------------------------------------------- signals
int simc_sigaction(int sig, const struct sigaction *sa, struct sigaction *old)
{
	sched_point(4);
	if (sig < 1 || sig > 63 || sig == SIGKILL || sig == SIGSTOP) {
		errno = EINVAL;
		return -1;
	}
	if (sa && fault(F_SIGACTION_ERR)) {
		errno = EINVAL;
		return -1;
	}
	if (old)
		*old = acts[sig];
	if (sa) {
		touch(sa, sizeof(*sa), false);
		acts[sig] = *sa;
	}
	return 0;
}
sighandler_t simc_signal(int sig, sighandler_t h)
{
	sched_point(4);
	if (fault(F_SIGACTION_ERR)) {
		errno = EINVAL;
		return SIG_ERR;
	}
	sighandler_t old = acts[sig].sa_handler;
	memset(&acts[sig], 0, sizeof(acts[sig]));
	acts[sig].sa_handler = h;
	acts[sig].sa_flags = SA_RESTART;
	return old;
}
int simc_raise(int sig)
{
	deliver_signal(sig);
	return 0;
}
int simc_getpid(void) { return 4242; }
int simc_gettid(void) { return 4242 + g.cur->id; }
int simc_kill(int pid, int sig)
{
	if (pid != 4242 && pid != 0)
		fail("exit:kill", "kill(%d, %d) aimed at another process", pid,
		     sig);
	deliver_signal(sig);
	return 0;
}
void simc__Exit(int st) { proc_exit(st, 0); }
void simc__exit(int st) { proc_exit(st, 0); }
void simc_exit(int st)
{
	unsafe_call("exit");
	proc_exit(st, 0);
}
void simc_abort(void)
{
	// unblocks and raises SIGABRT, then kills even if handled
	g.cur->sigmask &= ~(1ull << SIGABRT);
	deliver_signal(SIGABRT);
	proc_exit(0, SIGABRT);
}
char *simc_getenv(const char *k)
{
	auto it = env.find(k);
	return it == env.end() ? nullptr : (char *) it->second.c_str();
}
char *simc_secure_getenv(const char *k) { return simc_getenv(k); }

static bool bt_faulted;
int simc_backtrace(void **buf, int n)
{
	(void) bt_faulted;
	if (fault(F_STALL)) {
		// the report code itself hits bad memory
		trace("backtrace faults");
		deliver_fault(SIGSEGV);
	}
	int k = n < 3 ? n : 3;
	for (int i = 0; i < k; i++)
		buf[i] = (void *) (uintptr_t) (0x400000 + i * 16);
	return k;
}
ssize_t simc_write(int fd, const void *p, size_t n);
void simc_backtrace_symbols_fd(void *const *buf, int n, int fd)
{
	for (int i = 0; i < n; i++) {
		char line[64];
		int l = snprintf(line, sizeof(line), "frame[%p]\n", buf[i]);
		simc_write(fd, line, (size_t) l);
	}
}
char **simc_backtrace_symbols(void *const *, int)
{
	unsafe_call("backtrace_symbols");
	return nullptr;
}
}
