// N03 poller, N05 pipe, N06 service notification.
#include "w_sock.h"
#include "w_misc.h"
using namespace sim;

ACCEPT(N03, "mem:", "leak", "hang:", "race:", "assert", "exit:", "fd:")
ACCEPT(N05, "mem:", "leak", "hang:", "race:", "assert", "exit:", "fd:")
ACCEPT(N06, "mem:", "leak", "hang:", "race:", "assert", "exit:", "fd:")

static const uint32_t IN = 1, OUT = 4, ERR = 8, HUP = 16, RDHUP = 0x2000;
static const int64_t MS = 1000000;

// ------------------------------------------------------------------ N03
namespace {
struct Item {
	int id;
	struct sc_sock_fd *fdt;
	std::function<int(char *, int)> read;  // from this end
	std::function<int(char *, int)> feed;  // into this end
	std::function<void()> hang;	       // the other end goes away
	std::function<void()> term;
	bool hung = false, closed = false, deleted = false;
	int mask = 0;
	void *data = nullptr;
	bool due = false; // edge: something new since the last report
};
} // namespace

static int norm(int m)
{
	return m == SC_SOCK_EDGE ? 0 : m;
}
// what a wait has to say about an item now; 0 nothing
static uint32_t expected(const Item &it)
{
	if (!it.mask || it.closed)
		return 0;
	uint32_t r = fd_ready(it.fdt->fd), ev = 0;
	if ((it.mask & SC_SOCK_READ) && (r & IN))
		ev |= SC_SOCK_READ;
	if ((it.mask & SC_SOCK_WRITE) && (r & OUT))
		ev |= SC_SOCK_WRITE;
	if (r & (ERR | HUP | RDHUP))
		ev = SC_SOCK_READ | SC_SOCK_WRITE;
	return ev;
}
static void same_registration(struct sc_sock_poll *p, const Item &it, const char *when)
{
	uint32_t m = 0;
	uint64_t d = 0;
	bool there = epoll_mask(p->fds, it.fdt->fd, &m, &d);
	CHECK("N03:reg", there == (it.mask != 0), "%s: descriptor %d is %s", when, it.fdt->fd, there ? "still registered" : "not registered");
	if (!there)
		return;
	CHECK("N03:reg", !!(m & IN) == !!(it.mask & SC_SOCK_READ) && !!(m & OUT) == !!(it.mask & SC_SOCK_WRITE) &&
				 !!(m & 0x80000000u) == !!(it.mask & SC_SOCK_EDGE),
	      "%s: registered for %#x, asked for %d", when, m, it.mask);
	CHECK("N03:reg", d == (uint64_t) (uintptr_t) it.data, "%s: registered with other user data", when);
}

static Item make_pipe(int id)
{
	Item it;
	it.id = id;
	struct sc_sock_pipe *p = (struct sc_sock_pipe *) harness_alloc(sizeof(*p));
	NoFaults nf;
	if (sc_sock_pipe_init(p, id) != 0)
		fail("N:setup", "pipe");
	it.fdt = &p->fdt;
	it.read = [p](char *b, int n) { return sc_sock_pipe_read(p, b, (unsigned) n); };
	it.feed = [p](char *b, int n) { return sc_sock_pipe_write(p, b, (unsigned) n); };
	it.term = [p]() { sc_sock_pipe_term(p); };
	return it;
}
// Some other descriptor of the user's, one end of a pipe; the other end may go away.
static Item make_plain(int id)
{
	Item it;
	it.id = id;
	int *e = (int *) harness_alloc(sizeof(int) * 3);
	int ends[2];
	NoFaults nf;
	if (simc_pipe(ends) != 0)
		fail("N:setup", "pipe");
	struct sc_sock_fd *f = (struct sc_sock_fd *) harness_alloc(sizeof(*f));
	memset((void *) f, 0, sizeof(*f));
	int me = (int) choose(2);
	e[0] = ends[me];
	e[1] = ends[1 - me];
	e[2] = 0;
	f->fd = e[0];
	it.fdt = f;
	if (me == 0) {
		it.read = [e](char *b, int n) { return (int) simc_read(e[0], b, (size_t) n); };
		it.feed = [e](char *b, int n) { return (int) simc_write(e[1], b, (size_t) n); };
	} else {
		it.read = [e](char *, int) { return 0; };
		it.feed = [](char *, int) { return 0; };
	}
	it.hang = [e]() {
		simc_close(e[1]);
		e[2] = 1;
	};
	it.term = [e]() {
		simc_close(e[0]);
		if (!e[2])
			simc_close(e[1]);
	};
	return it;
}
static Item make_sock(int id, sc_sock *l, const Place &pl)
{
	Item it;
	it.id = id;
	sc_sock *a = new_sock(false, pl.family), *b = new_sock(false, pl.family);
	NoFaults nf;
	connect_pair(l, a, b, pl);
	sc_sock *me = choose(2) ? a : b, *far = me == a ? b : a;
	it.fdt = &me->fdt;
	it.read = [me](char *buf, int n) { return sc_sock_recv(me, buf, n, 0); };
	it.feed = [far](char *buf, int n) { return sc_sock_send(far, buf, n, 0); };
	it.hang = [far]() { sc_sock_term(far); };
	it.term = [me, far]() {
		sc_sock_term(me);
		sc_sock_term(far);
	};
	return it;
}

static bool init_poll(struct sc_sock_poll *p)
{
	size_t fds = open_fds();
	uint64_t f0 = my_faults(F_MALLOC) + my_faults(F_SYSCALL_ERR);
	uint64_t b0 = live_blocks();
	errors_mark();
	int rc = sc_sock_poll_init(p);
	bool hit = my_faults(F_MALLOC) + my_faults(F_SYSCALL_ERR) != f0;
	CHECK("N03:init", (rc != 0) == hit && rc <= 0, "poll_init returned %d", rc);
	if (rc == 0)
		return true;
	CHECK("N03:text", *sc_sock_poll_err(p) && errors_named(sc_sock_poll_err(p)),
	      "a failed init left the error text \"%s\"", sc_sock_poll_err(p));
	CHECK("N03:init", open_fds() == fds && live_blocks() == b0, "a failed init left something behind");
	CHECK("N03:init", sc_sock_poll_wait(p, 0) < 0, "waiting on a poller that failed to initialise succeeds");
	CHECK("N03:init", sc_sock_poll_term(p) == 0, "terminating after a failed init fails");
	return false;
}

static const int EVS[] = {SC_SOCK_READ, SC_SOCK_WRITE, SC_SOCK_READ | SC_SOCK_WRITE, SC_SOCK_EDGE, SC_SOCK_READ | SC_SOCK_EDGE,
			  SC_SOCK_WRITE | SC_SOCK_EDGE, SC_SOCK_READ | SC_SOCK_WRITE | SC_SOCK_EDGE, SC_SOCK_NONE};

SCENARIO(N03, history, 6)
{
	swarm({F_SYSCALL_ERR, F_EINTR, F_READ_ERR, F_MALLOC, F_CLOSE_ERR}, 30);
	ignore_sigpipe();
	exact_time(true);
	if (choose(5) == 0)
		fd_policy(2);
	struct sc_sock_poll *p = (struct sc_sock_poll *) harness_alloc(sizeof(*p));
	memset((void *) p, 0xa5, sizeof(*p));
	bool ok = false;
	for (int i = 0; i < 5 && !ok; i++)
		ok = init_poll(p);
	if (!ok) {
		faults_off();
		ok = init_poll(p);
	}
	CHECK("N03:init", p->fds >= 0 && !strcmp(fd_kind(p->fds), "epoll"), "the poller has no descriptor");
	Place pl = any_place();
	net_latency((int64_t) choose(3) * 100000);
	net_bufsize(choose(2) ? 60000 : range(1, 400));
	sc_sock *l = new_sock(false, pl.family);
	{
		NoFaults nf;
		if (sc_sock_listen(l, pl.host.c_str(), pl.port.c_str()) != 0)
			fail("N:setup", "listen: %s", sc_sock_error(l));
	}
	std::deque<Item> its;
	int n = (int) range(1, 6);
	for (int i = 0; i < n; i++)
		its.push_back(choose(3) ? make_sock(i, l, pl) : choose(2) ? make_plain(i) : make_pipe(i));
	int *tags = (int *) harness_alloc(sizeof(int) * 16);
	for (auto &it : its)
		it.data = &tags[it.id];
	int ops = (int) range(5, 50);
	char buf[512];
	memset(buf, 'x', sizeof(buf));
	for (int o = 0; o < ops; o++) {
		Item &it = its[choose((uint32_t) n)];
		switch (weighted({6, 5, 4, 2, 1, 8})) {
		case 0:
		case 1: { // add or delete
			if (it.closed)
				break;
			bool add = choose(5) < 3;
			int ev = EVS[choose(8)];
			int want = norm(add ? it.mask | ev : it.mask & ~ev);
			int old = it.mask;
			uint64_t f0 = my_faults(F_SYSCALL_ERR);
			errors_mark();
			int rc = add ? sc_sock_poll_add(p, it.fdt, (enum sc_sock_ev) ev, it.data)
				     : sc_sock_poll_del(p, it.fdt, (enum sc_sock_ev) ev, it.data);
			bool hit = my_faults(F_SYSCALL_ERR) != f0;
			trace("%s(%d, %d) = %d", add ? "add" : "del", it.id, ev, rc);
			CHECK("N03:rc", (rc != 0) == hit && rc <= 0, "%s returned %d", add ? "add" : "del", rc);
			if (rc != 0) {
				CHECK("N03:text", *sc_sock_poll_err(p) && errors_named(sc_sock_poll_err(p)),
	      "a failed registration left the error text \"%s\"", sc_sock_poll_err(p));
				probe("registration failed");
			} else {
				it.mask = want;
				if (want != old)
					it.due = true;
			}
			CHECK("N03:op", norm((int) it.fdt->op) == it.mask, "the object says %d, registered is %d", (int) it.fdt->op, it.mask);
			same_registration(p, it, add ? "add" : "del");
			break;
		}
		case 2: { // data for this end
			if (it.hung || it.closed)
				break;
			NoFaults nf;
			size_t u0 = stream_unread(it.fdt->fd) + pipe_unread(it.fdt->fd);
			if (u0 > 30000)
				break;
			it.feed(buf, (int) range(1, sizeof(buf)));
			advance(MS);
			if (stream_unread(it.fdt->fd) + pipe_unread(it.fdt->fd) > u0)
				it.due = true;
			break;
		}
		case 3: { // take some
			if (it.closed || !(fd_ready(it.fdt->fd) & IN) ||
			    !(stream_unread(it.fdt->fd) + pipe_unread(it.fdt->fd)))
				break;
			NoFaults nf;
			it.read(buf, (int) range(1, sizeof(buf)));
			break;
		}
		case 4: // the other end disappears
			if (it.hung || it.closed)
				break;
			if (it.hang && choose(2)) {
				NoFaults nf;
				it.hang();
				advance(MS);
				it.hung = true;
				it.due = true;
			} else {
				// deleted, then closed
				int rc = it.mask ? sc_sock_poll_del(p, it.fdt, (enum sc_sock_ev) 7, it.data) : 0;
				if (rc == 0) {
					it.mask = 0;
					same_registration(p, it, "full delete");
					NoFaults nf;
					it.term();
					it.closed = true;
				}
			}
			break;
		default: { // wait
			static const int tos[] = {0, 0, 1, 2, 7, 100, 1500, 60000};
			int to = tos[choose(8)];
			bool some = false;
			for (auto &x : its)
				some |= expected(x) != 0 && !(x.mask & SC_SOCK_EDGE);
			if (some && choose(4) == 0)
				to = -1;
			uint64_t r0 = my_faults(F_READ_ERR), e0 = my_faults(F_EINTR);
			int64_t t0 = now();
			NoPreempt np;
			errors_mark();
			int k = sc_sock_poll_wait(p, to);
			int64_t took = now() - t0;
			bool hit = my_faults(F_READ_ERR) != r0;
			trace("wait(%d) = %d after %lld us, %d interruptions", to, k, (long long) took / 1000,
			      (int) (my_faults(F_EINTR) - e0));
			CHECK("N03:rc", (k < 0) == hit, "wait returned %d", k);
			if (k < 0) {
				CHECK("N03:text", *sc_sock_poll_err(p) && errors_named(sc_sock_poll_err(p)),
	      "a failed wait left the error text \"%s\"", sc_sock_poll_err(p));
				break;
			}
			std::vector<int> seen((size_t) n, 0);
			for (int i = 0; i < k; i++) {
				Item *x = nullptr;
				void *d = sc_sock_poll_data(p, i);
				uint32_t ev = sc_sock_poll_event(p, i);
				for (auto &y : its)
					if (y.data == d)
						x = &y;
				CHECK("N03:data", x != nullptr, "a report with unknown user data");
				CHECK("N03:twice", !seen[(size_t) x->id]++, "descriptor %d is reported twice", x->id);
				CHECK("N03:deleted", x->mask != 0 && !x->closed, "descriptor %d is reported, it is not registered", x->id);
				uint32_t want = expected(*x);
				CHECK("N03:events", ev == want, "descriptor %d: reported %u, ready for %u of %d (%#x)", x->id, ev, want,
				      x->mask, fd_ready(x->fdt->fd));
				x->due = false;
			}
			for (auto &x : its) {
				if (seen[(size_t) x.id] || !expected(x))
					continue;
				if (x.mask & SC_SOCK_EDGE)
					CHECK("N03:missed", !x.due, "something new at descriptor %d and no report", x.id);
				else
					fail("N03:missed", "descriptor %d is ready (%#x, asked for %d) and not reported", x.id,
					     fd_ready(x.fdt->fd), x.mask);
			}
			if (k == 0) {
				CHECK("N03:early", to >= 0 && took >= (int64_t) to * MS, "timeout %d ms, nothing after %lld us", to,
				      (long long) took / 1000);
				CHECK("N03:late", took <= (int64_t) to * MS + MS, "timeout %d ms, nothing after %lld us", to,
				      (long long) took / 1000);
			} else if (some) {
				CHECK("N03:late", took < MS, "something was ready and the wait took %lld us", (long long) took / 1000);
			}
			state_hash((uint64_t) k * 64 + (uint64_t) n);
		}
		}
	}
	// everything goes
	for (auto &it : its) {
		if (it.closed)
			continue;
		for (int i = 0; it.mask; i++) {
			if (i == 5)
				faults_off();
			if (sc_sock_poll_del(p, it.fdt, (enum sc_sock_ev) (SC_SOCK_READ | SC_SOCK_WRITE | SC_SOCK_EDGE), it.data) == 0)
				it.mask = 0;
		}
		same_registration(p, it, "full delete");
	}
	CHECK("N03:reg", epoll_count(p->fds) == 0, "registrations remain");
	uint64_t c0 = my_faults(F_CLOSE_ERR);
	size_t fds = open_fds();
	errors_mark();
	int rc = sc_sock_poll_term(p);
	CHECK("N03:term", (rc != 0) == (my_faults(F_CLOSE_ERR) != c0), "term returned %d", rc);
	if (rc)
		CHECK("N03:text", *sc_sock_poll_err(p) && errors_named(sc_sock_poll_err(p), true),
		      "a failed term left the error text \"%s\"", sc_sock_poll_err(p));
	CHECK("N03:term", open_fds() == fds - 1, "term did not close the poller");
	CHECK("N03:term", sc_sock_poll_term(p) == 0, "a second term fails");
	CHECK("N03:term", sc_sock_poll_wait(p, 0) < 0, "waiting on a terminated poller succeeds");
	NoFaults nf;
	for (auto &it : its)
		if (!it.closed)
			it.term();
	sc_sock_term(l);
	check_leaks();
}

// The wait ends in time when data comes from another thread, whatever
// interrupts it.
SCENARIO(N03, wakeup, 2)
{
	swarm({F_EINTR, F_STALL}, 25);
	exact_time(true);
	struct sc_sock_poll poll;
	std::deque<Item> its;
	{
		NoFaults nf;
		if (sc_sock_poll_init(&poll) != 0)
			fail("N:setup", "poll");
	}
	int n = (int) range(1, 3);
	for (int i = 0; i < n; i++) {
		its.push_back(make_pipe(i));
		its.back().data = &its.back();
		if (choose(4))
			if (sc_sock_poll_add(&poll, its.back().fdt, SC_SOCK_READ, its.back().data) == 0)
				its.back().mask = SC_SOCK_READ;
	}
	for (int round = 0, m = (int) range(1, 4); round < m; round++) {
		Item &it = its[choose((uint32_t) n)];
		int to = (int) range(1, 3000) + (int) (lull() / MS);
		int64_t when = (int64_t) choose((uint32_t) to * 2) * MS + 500000;
		bool late_add = it.mask == 0 && choose(2);
		// without a timeout only the data ends the wait, however late
		bool inf = (it.mask || late_add) && choose(3) == 0;
		if (inf) {
			when = (int64_t) range(1, 200000) * MS;
			to = -1;
		}
		Fiber *f = spawn("writer", [&]() {
			NoFaults nf;
			advance(when);
			if (late_add) {
				it.mask = SC_SOCK_READ;
				if (sc_sock_poll_add(&poll, it.fdt, SC_SOCK_READ, it.data) != 0)
					fail("N:setup", "add");
			}
			char c = 'c';
			it.feed(&c, 1);
		});
		int64_t t0 = now();
		int k = sc_sock_poll_wait(&poll, to);
		int64_t took = now() - t0;
		trace("wait(%d) = %d after %lld us, data at %lld us", to, k, (long long) took / 1000, (long long) when / 1000);
		// An interrupted wait goes on for the rest of the timeout, rounded up to
		// whole milliseconds: up to 1 ms more, in which the data may arrive.
		int64_t limit = inf ? INT64_MAX / 2 : (int64_t) to * MS;
		bool in_time = it.mask && when < limit;
		bool either = it.mask && when >= limit && when <= limit + MS;
		if (k == 1)
			CHECK("N03:events", sc_sock_poll_data(&poll, 0) == it.data && sc_sock_poll_event(&poll, 0) == SC_SOCK_READ,
			      "a wrong report");
		CHECK("N03:wakeup", k == (in_time ? 1 : 0) || (either && k == 1), "data after %lld us, timeout %d ms: wait returned %d",
		      (long long) when / 1000, to, k);
		int64_t due = k == 1 ? when : limit;
		CHECK("N03:late", took >= due && took <= due + MS + (k == 1 ? 0 : 100000),
		      "data after %lld us, timeout %d ms: wait returned after %lld us", (long long) when / 1000, to, (long long) took / 1000);
		join_fiber(f);
		char c;
		NoFaults nf;
		it.read(&c, 1);
	}
	NoFaults nf;
	for (auto &it : its) {
		if (it.mask)
			sc_sock_poll_del(&poll, it.fdt, (enum sc_sock_ev) 7, it.data);
		it.term();
	}
	sc_sock_poll_term(&poll);
	check_leaks();
}

// More ready descriptors than one wait can report: none is lost.
SCENARIO(N03, many, 1)
{
	swarm({F_EINTR}, 30);
	struct sc_sock_poll *p = (struct sc_sock_poll *) harness_alloc(sizeof(*p));
	int n = choose(600) ? (int) range(1, 40) : (int) range(1020, 1200);
	struct sc_sock_pipe *pp = (struct sc_sock_pipe *) harness_alloc(sizeof(*pp) * (size_t) n);
	std::vector<int> left((size_t) n, 0);
	char c = 'm';
	int total = 0;
	{
		NoFaults nf;
		if (sc_sock_poll_init(p) != 0)
			fail("N:setup", "poll");
		for (int i = 0; i < n; i++) {
			if (sc_sock_pipe_init(&pp[i], i) != 0 ||
			    sc_sock_poll_add(p, &pp[i].fdt, SC_SOCK_READ, &pp[i]) != 0)
				fail("N:setup", "pipe");
			left[(size_t) i] = choose(20) ? (int) range(1, 2) : 0;
			for (int k = 0; k < left[(size_t) i]; k++)
				sc_sock_pipe_write(&pp[i], &c, 1);
			total += left[(size_t) i];
		}
	}
	for (int guard = 0; total > 0; guard++) {
		CHECK("N03:missed", guard < 2 * n + 10, "%d bytes are never reported", total);
		int k = sc_sock_poll_wait(p, choose(2) ? -1 : 0);
		CHECK("N03:rc", k > 0 && k <= n, "something is ready and the wait returned %d", k);
		std::vector<char> seen((size_t) n, 0);
		for (int i = 0; i < k; i++) {
			struct sc_sock_pipe *x = (struct sc_sock_pipe *) sc_sock_poll_data(p, i);
			CHECK("N03:data", x >= pp && x < pp + n, "a report with unknown user data");
			int id = (int) (x - pp);
			CHECK("N03:twice", !seen[(size_t) id], "descriptor %d is reported twice", id);
			seen[(size_t) id] = 1;
			CHECK("N03:events", sc_sock_poll_event(p, i) == SC_SOCK_READ && left[(size_t) id] > 0,
			      "descriptor %d is reported for %u", id, sc_sock_poll_event(p, i));
			CHECK("N03:data", sc_sock_pipe_read(x, &c, 1) == 1, "nothing to read");
			left[(size_t) id]--;
			total--;
		}
	}
	CHECK("N03:events", sc_sock_poll_wait(p, 0) == 0, "something reported, nothing is ready");
	NoFaults nf;
	for (int i = 0; i < n; i++) {
		sc_sock_poll_del(p, &pp[i].fdt, SC_SOCK_READ, &pp[i]);
		sc_sock_pipe_term(&pp[i]);
	}
	sc_sock_poll_term(p);
	state_hash((uint64_t) n);
	check_leaks();
}

// A server: one loop over a listener and what it accepts, echoing.
namespace {
struct Sess {
	sc_sock *s;
	std::string out;
	bool edge = false, hot = false; // hot: asked to be told about room
};
} // namespace
SCENARIO(N03, serve, 3)
{
	swarm({F_SYSCALL_ERR, F_EINTR, F_STALL, F_NET_DELAY, F_NET_SEGMENT, F_SHORT_READ, F_SHORT_WRITE}, 25);
	ignore_sigpipe();
	Place pl = any_place();
	net_latency((int64_t) choose(4) * 100000);
	net_bufsize(choose(3) == 0 ? 60000 : range(20, 400));
	struct sc_sock_poll *p = (struct sc_sock_poll *) harness_alloc(sizeof(*p));
	sc_sock *l = new_sock(false, pl.family);
	{
		NoFaults nf;
		if (sc_sock_poll_init(p) != 0)
			fail("N:setup", "poll");
		if (sc_sock_listen(l, pl.host.c_str(), pl.port.c_str()) != 0)
			fail("N:setup", "listen: %s", sc_sock_error(l));
	}
	auto reg = [&](sc_sock *s, int ev, void *d, bool add) {
		int old = norm((int) s->fdt.op);
		for (int i = 0;; i++) {
			uint64_t f0 = my_faults(F_SYSCALL_ERR);
			int rc = add ? sc_sock_poll_add(p, &s->fdt, (enum sc_sock_ev) ev, d)
				     : sc_sock_poll_del(p, &s->fdt, (enum sc_sock_ev) ev, d);
			CHECK("N03:rc", (rc != 0) == (my_faults(F_SYSCALL_ERR) != f0), "%s returned %d", add ? "add" : "del", rc);
			if (rc == 0)
				break;
			CHECK("N03:op", norm((int) s->fdt.op) == old, "a failed registration changed the object");
			if (i > 50)
				faults_off();
		}
		CHECK("N03:op", norm((int) s->fdt.op) == norm(add ? old | ev : old & ~ev), "the object says %d after %s(%d) on %d",
		      (int) s->fdt.op, add ? "add" : "del", ev, old);
		Item it;
		it.fdt = &s->fdt;
		it.mask = norm((int) s->fdt.op);
		it.data = d;
		same_registration(p, it, add ? "add" : "del");
	};
	bool ledge = choose(2) == 0;
	if (choose(4) == 0)
		ledge = false;
	reg(l, SC_SOCK_READ | (ledge ? SC_SOCK_EDGE : 0), l, true);
	int nc = (int) range(1, 4), served = 0, opened = 0;
	std::vector<Fiber *> cl;
	for (int i = 0; i < nc; i++)
		cl.push_back(spawn("client", [&, i]() {
			sc_sock *s = new_sock(true, pl.family);
			{
				NoFaults nf;
				if (choose(2))
					advance((int64_t) choose(50) * 100000);
				if (sc_sock_connect(s, pl.host.c_str(), pl.port.c_str(), nullptr, nullptr) != 0)
					fail("N:setup", "connect: %s", sc_sock_error(s));
			}
			std::string all;
			size_t got = 0;
			for (int m = 0, n = (int) range(0, 3); m < n; m++) {
				if (choose(4) == 0)
					advance((int64_t) choose(100) * 1000000 + lull());
				size_t len = range(1, 900);
				size_t from = all.size();
				for (size_t k = 0; k < len; k++)
					all.push_back((char) ('a' + (i * 7 + (int) (from + k) * 5) % 26));
				while (from < all.size()) {
					int rc = sc_sock_send(s, (char *) all.data() + from, (int) (all.size() - from), 0);
					CHECK("N03:serve", rc > 0, "send: %s", sc_sock_error(s));
					from += (size_t) rc;
				}
				if (choose(3) == 0 && m + 1 < n)
					continue; // the answer later
				char b[300];
				while (got < all.size()) {
					int want = (int) range(1, sizeof(b));
					if ((size_t) want > all.size() - got)
						want = (int) (all.size() - got);
					int rc = sc_sock_recv(s, b, want, 0);
					CHECK("N03:serve", rc > 0, "recv: %s", sc_sock_error(s));
					CHECK("N03:serve", !memcmp(b, all.data() + got, (size_t) rc), "the answer is garbled");
					got += (size_t) rc;
				}
			}
			NoFaults nf;
			sc_sock_term(s);
		}));
	std::deque<Sess> ss;
	char buf[256];
	auto flush = [&](Sess &x) {
		while (!x.out.empty()) {
			errno = 0;
			int rc = sc_sock_send(x.s, (char *) x.out.data(), (int) x.out.size(), 0);
			if (rc > 0) {
				x.out.erase(0, (size_t) rc);
				continue;
			}
			CHECK("N03:serve", errno == EAGAIN, "send: %s", sc_sock_error(x.s));
			break;
		}
		bool hot = !x.out.empty();
		if (hot != x.hot)
			reg(x.s, SC_SOCK_WRITE, &x, hot);
		x.hot = hot;
	};
	for (int guard = 0; served < nc; guard++) {
		if (guard > 100000)
			fail("hang:loop", "the server spins");
		int to = choose(3) ? -1 : (int) choose(300);
		int n = sc_sock_poll_wait(p, to);
		CHECK("N03:rc", n >= 0, "a wait failed: %s", sc_sock_poll_err(p));
		CHECK("N03:early", n > 0 || to >= 0, "a wait without a timeout returned nothing");
		for (int i = 0; i < n; i++) {
			void *d = sc_sock_poll_data(p, i);
			uint32_t ev = sc_sock_poll_event(p, i);
			if (d == l) {
				CHECK("N03:events", ev == SC_SOCK_READ, "the listener is reported for %u", ev);
				for (;;) {
					sc_sock *a = new_sock(choose(2) == 0, choose(2) ? pl.family : AF_INET);
					if (choose(3) == 0) // nothing says that it is to be initialised
						memset((void *) a, choose(2) ? 0xff : 1, sizeof(*a));
					errno = 0;
					int rc;
					{
						NoFaults nf;
						rc = sc_sock_accept(l, a);
					}
					if (rc != 0) {
						CHECK("N03:serve", errno == EAGAIN, "accept: %s", sc_sock_error(l));
						break;
					}
					CHECK("N03:op", norm((int) a->fdt.op) == 0, "an accepted socket claims to be registered for %d",
					      (int) a->fdt.op);
					opened++;
					ss.emplace_back();
					Sess &x = ss.back();
					x.s = a;
					x.edge = choose(2) == 0;
					reg(a, SC_SOCK_READ | (x.edge ? SC_SOCK_EDGE : 0), &x, true);
					if (!ledge && choose(2))
						break; // the rest is reported again
				}
				continue;
			}
			Sess *x = nullptr;
			for (auto &y : ss)
				if (&y == d)
					x = &y;
			CHECK("N03:data", x && x->s, "a report with unknown user data");
			if (ev & SC_SOCK_WRITE)
				flush(*x);
			if (!(ev & SC_SOCK_READ))
				continue;
			bool eof = false;
			do {
				errno = 0;
				int rc = sc_sock_recv(x->s, buf, (int) range(1, sizeof(buf)), 0);
				if (rc > 0) {
					x->out.append(buf, (size_t) rc);
					if (x->out.size() < 64 || choose(2))
						flush(*x);
					continue;
				}
				if (errno == EAGAIN)
					break;
				CHECK("N03:serve", errno == EOF, "recv: %s", sc_sock_error(x->s));
				eof = true;
			} while (!eof && (x->edge || choose(3)));
			if (!eof) {
				flush(*x);
				continue;
			}
			CHECK("N03:serve", x->out.empty(), "the client left before its answer was through");
			if (norm((int) x->s->fdt.op))
				reg(x->s, SC_SOCK_READ | SC_SOCK_WRITE | SC_SOCK_EDGE, x, false);
			NoFaults nf;
			sc_sock_term(x->s);
			x->s = nullptr;
			served++;
		}
	}
	for (auto f : cl)
		join_fiber(f);
	CHECK("N03:reg", epoll_count(p->fds) == 1, "%d registrations, the listener is the only one left", (int) epoll_count(p->fds));
	reg(l, SC_SOCK_READ | SC_SOCK_EDGE, l, false);
	CHECK("N03:reg", epoll_count(p->fds) == 0, "registrations remain");
	state_hash((uint64_t) served * 8 + (uint64_t) opened);
	NoFaults nf;
	sc_sock_term(l);
	sc_sock_poll_term(p);
	check_leaks();
}

// One thread waits and serves while others register, feed and deregister.
SCENARIO(N03, threads, 4)
{
	swarm({F_SYSCALL_ERR, F_EINTR, F_STALL, F_READ_ERR}, 30);
	ignore_sigpipe();
	race_on(true);
	struct sc_sock_poll *p = (struct sc_sock_poll *) harness_alloc(sizeof(*p));
	{
		NoFaults nf;
		if (sc_sock_poll_init(p) != 0)
			fail("N:setup", "poll");
	}
	Place pl = any_place();
	sc_sock *l = new_sock(false, pl.family);
	{
		NoFaults nf;
		if (sc_sock_listen(l, pl.host.c_str(), pl.port.c_str()) != 0)
			fail("N:setup", "listen: %s", sc_sock_error(l));
	}
	struct Job {
		Item it;
		size_t total = 0, fed = 0, got = 0;
		bool done = false;
		uint64_t gone = ~0ull; // tick of the completed delete
		bool ours = false;     // deregistered by its own thread
		uint64_t live = ~0ull; // tick before the add
	};
	std::deque<Job> jobs;
	int nt = (int) range(1, 3), per = (int) range(1, 2);
	for (int i = 0; i < nt * per; i++) {
		jobs.emplace_back();
		Job &j = jobs.back();
		j.it = choose(2) ? make_sock(i, l, pl) : make_pipe(i);
		j.total = range(1, 300);
		j.ours = choose(3) == 0;
	}
	uint64_t tick = 1;
	int left = 0;
	for (auto &j : jobs)
		left += !j.ours;
	Item quit = make_pipe(99);
	{
		NoFaults nf;
		if (sc_sock_poll_add(p, quit.fdt, SC_SOCK_READ, nullptr) != 0)
			fail("N:setup", "add");
	}
	std::vector<Fiber *> fs;
	for (int t = 0; t < nt; t++)
		fs.push_back(spawn("worker", [&, t]() {
			char b[64];
			memset(b, 'w', sizeof(b));
			for (int k = 0; k < per; k++) {
				Job &j = jobs[(size_t) (t * per + k)];
				bool late = choose(2) == 0; // data first, then the registration
				auto feed = [&]() {
					while (j.fed < j.total) {
						size_t m = range(1, sizeof(b));
						if (m > j.total - j.fed)
							m = j.total - j.fed;
						NoFaults nf;
						int rc = j.it.feed(b, (int) m);
						if (rc > 0)
							j.fed += (size_t) rc;
						else
							advance(100000);
					}
				};
				if (late && j.total < 200)
					feed();
				if (choose(8) == 0)
					advance(lull());
				j.live = tick++;
				int ev = SC_SOCK_READ | (!j.ours && choose(3) == 0 ? SC_SOCK_EDGE : 0);
				while (sc_sock_poll_add(p, j.it.fdt, (enum sc_sock_ev) ev, &j) != 0) {
					CHECK("N03:text", *sc_sock_poll_err(p), "a failed add left no error text");
					CHECK("N03:op", j.it.fdt->op == SC_SOCK_NONE, "a failed add changed the object");
				}
				feed();
				if (j.ours) {
					if (choose(2))
						advance((int64_t) choose(20) * 100000);
					while (sc_sock_poll_del(p, j.it.fdt, (enum sc_sock_ev) 7, &j) != 0)
						CHECK("N03:op", j.it.fdt->op == SC_SOCK_READ, "a failed delete changed the object");
					j.gone = tick++;
				}
			}
		}));
	Fiber *srv = spawn("poller", [&]() {
		char b[100];
		bool stop = false;
		for (int guard = 0; !stop; guard++) {
			if (guard > 200000)
				fail("hang:loop", "the poller spins");
			uint64_t began = tick++;
			int to = choose(3) ? -1 : (int) choose(5);
			int n = sc_sock_poll_wait(p, to);
			if (n < 0) {
				CHECK("N03:text", *sc_sock_poll_err(p), "a failed wait left no error text");
				continue;
			}
			for (int i = 0; i < n; i++) {
				Job *j = (Job *) sc_sock_poll_data(p, i);
				uint32_t ev = sc_sock_poll_event(p, i);
				CHECK("N03:events", ev & SC_SOCK_READ, "reported %u, asked for reading", ev);
				if (!j) {
					NoFaults nf;
					quit.read(b, 1);
					stop = true;
					continue;
				}
				CHECK("N03:deleted", j->gone > began, "a descriptor deleted before the wait began is reported");
				CHECK("N03:deleted", j->live != ~0ull && !j->done, "a descriptor that is not registered is reported");
				if (j->ours)
					continue;
				// take what is there
				NoFaults nf;
				for (;;) {
					if (!(stream_unread(j->it.fdt->fd) + pipe_unread(j->it.fdt->fd)))
						break;
					int rc = j->it.read(b, sizeof(b));
					if (rc <= 0)
						break;
					j->got += (size_t) rc;
				}
				if (j->got >= j->total) {
					int ops = (int) j->it.fdt->op;
					CHECK("N03:op", ops & SC_SOCK_READ, "reported for reading, the object says %d", ops);
					CHECK("N03:rc", sc_sock_poll_del(p, j->it.fdt, (enum sc_sock_ev) 7, j) == 0, "delete failed");
					j->done = true;
					left--;
				}
			}
		}
	});
	for (auto f : fs)
		join_fiber(f);
	settle(1000 * MS);
	faults_off();
	settle(1000 * MS);
	CHECK("N03:missed", left == 0, "%d descriptors have unread data and the poller does not say so", left);
	char c = 'q';
	quit.feed(&c, 1);
	join_fiber(srv);
	for (auto &j : jobs)
		state_hash(j.got * 17 + j.total);
	sc_sock_poll_del(p, quit.fdt, SC_SOCK_READ, nullptr);
	quit.term();
	CHECK("N03:reg", epoll_count(p->fds) == 0, "registrations remain");
	sc_sock_poll_term(p);
	for (auto &j : jobs)
		j.it.term();
	sc_sock_term(l);
	check_leaks();
}

// Error text belongs to the thread that failed.
SCENARIO(N03, errtext, 1)
{
	race_on(true);
	fault_set(F_SYSCALL_ERR, 3);
	std::vector<Fiber *> fs;
	int n = (int) range(2, 3);
	for (int i = 0; i < n; i++) {
		bool bad = i == 0 || choose(2);
		fs.push_back(spawn(bad ? "failing" : "clean", [bad]() {
			struct sc_sock_poll p;
			NoFaults *nf = bad ? nullptr : new NoFaults();
			bool failed = false;
			std::string text;
			int up = -1;
			for (int k = 0; k < 6 && up != 0; k++) {
				up = sc_sock_poll_init(&p);
				if (up != 0) {
					failed = true;
					text = sc_sock_poll_err(&p);
				}
			}
			if (up == 0) {
				struct sc_sock_pipe pp;
				int pr = sc_sock_pipe_init(&pp, 0);
				for (int k = 0; pr == 0 && k < 4; k++) {
					int rc = choose(2) ? sc_sock_poll_add(&p, &pp.fdt, SC_SOCK_READ, nullptr)
							   : sc_sock_poll_del(&p, &pp.fdt, SC_SOCK_READ, nullptr);
					if (rc != 0) {
						failed = true;
						text = sc_sock_poll_err(&p);
						CHECK("N03:text", !text.empty(), "no error text");
					}
					if (choose(2))
						yield();
					if (failed)
						CHECK("N03:text", text == sc_sock_poll_err(&p), "the error text '%s' became '%s'",
						      text.c_str(), sc_sock_poll_err(&p));
				}
				if (!failed)
					CHECK("N03:text", !*sc_sock_poll_err(&p), "another thread's failure shows here: %s",
					      sc_sock_poll_err(&p));
				NoFaults nf2;
				if (pr == 0) {
					if (pp.fdt.op)
						sc_sock_poll_del(&p, &pp.fdt, (enum sc_sock_ev) 7, nullptr);
					sc_sock_pipe_term(&pp);
				}
				sc_sock_poll_term(&p);
			}
			delete nf;
		}));
	}
	for (auto f : fs)
		join_fiber(f);
	check_leaks();
}

// ------------------------------------------------------------------ N05
static bool init_pipe(struct sc_sock_pipe *p)
{
	size_t fds = open_fds();
	uint64_t f0 = my_faults(F_SYSCALL_ERR);
	int type = (int) choose(1000);
	memset((void *) p, 0xa5, sizeof(*p));
	errors_mark();
	int rc = sc_sock_pipe_init(p, type);
	bool hit = my_faults(F_SYSCALL_ERR) != f0;
	CHECK("N05:init", (rc != 0) == hit && rc <= 0, "init returned %d", rc);
	if (rc == 0) {
		CHECK("N05:init", open_fds() == fds + 2, "a pipe has two descriptors, %zu opened", open_fds() - fds);
		CHECK("N05:init", p->fdt.fd == p->fds[0] && !strcmp(fd_kind(p->fdt.fd), "pipe(read end)"),
		      "the poll descriptor is not the read end (%s)", fd_kind(p->fdt.fd));
		CHECK("N05:init", p->fdt.op == SC_SOCK_NONE && p->fdt.type == type, "the poll descriptor is not initialised");
		return true;
	}
	probe("pipe init failed");
	CHECK("N05:text", *sc_sock_pipe_err(p) && errors_named(sc_sock_pipe_err(p)),
	      "a failed init left the error text \"%s\"", sc_sock_pipe_err(p));
	CHECK("N05:init", open_fds() == fds, "a failed init left descriptors open");
	CHECK("N05:init", sc_sock_pipe_term(p) == 0 && open_fds() == fds, "terminating after a failed init fails");
	return false;
}
static void term_pipe(struct sc_sock_pipe *p)
{
	size_t fds = open_fds();
	uint64_t c0 = my_faults(F_CLOSE_ERR);
	errors_mark();
	int rc = sc_sock_pipe_term(p);
	bool hit = my_faults(F_CLOSE_ERR) != c0;
	CHECK("N05:term", (rc != 0) == hit && rc <= 0, "term returned %d, %s", rc, hit ? "a close failed" : "nothing failed");
	if (hit)
		CHECK("N05:text", *sc_sock_pipe_err(p) && errors_named(sc_sock_pipe_err(p), true),
		      "a failed close left the error text \"%s\"", sc_sock_pipe_err(p));
	CHECK("N05:term", open_fds() == fds - 2, "term closed %zd descriptors", (ssize_t) (fds - open_fds()));
	CHECK("N05:term", sc_sock_pipe_term(p) == 0, "a second term fails");
}

SCENARIO(N05, transfer, 4)
{
	swarm({F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_READ_ERR, F_WRITE_ERR, F_SYSCALL_ERR, F_CLOSE_ERR, F_NET_SMALLBUF, F_STALL}, 25);
	race_on(true);
	ignore_sigpipe();
	if (choose(4) == 0)
		fd_policy(2);
	struct sc_sock_pipe *p = (struct sc_sock_pipe *) harness_alloc(sizeof(*p));
	bool ok = false;
	for (int i = 0; i < 5 && !ok; i++)
		ok = init_pipe(p);
	if (!ok) {
		faults_off();
		ok = init_pipe(p);
	}
	int nw = (int) range(1, 3), nr = (int) range(1, 2);
	bool big = nr == 1 && choose(3) == 0; // more than fits
	std::vector<size_t> want((size_t) nw), done((size_t) nw, 0), seen((size_t) nw, 0);
	size_t total = 0, got = 0;
	for (auto &w : want)
		total += w = big ? range(1, 60000) : range(1, 400);
	std::vector<Fiber *> fs;
	for (int i = 0; i < nw; i++)
		fs.push_back(spawn("writer", [&, i]() {
			size_t w = (size_t) i;
			while (done[w] < want[w]) {
				size_t n = big ? range(1, 9000) : range(1, 60);
				if (choose(12) == 0) {
					int rc = sc_sock_pipe_write(p, p, 0);
					CHECK("N05:empty", rc == 0 || my_faults(F_WRITE_ERR), "writing nothing returned %d", rc);
				}
				if (n > want[w] - done[w])
					n = want[w] - done[w];
				unsigned char *b = (unsigned char *) harness_alloc(n);
				for (size_t k = 0; k < n; k++)
					b[k] = (unsigned char) (i * 64 + (int) ((done[w] + k) % 61));
				if (choose(6) == 0)
					advance(lull());
				uint64_t f0 = my_faults(F_WRITE_ERR);
				errno = 0;
				int rc = sc_sock_pipe_write(p, b, (unsigned) n);
				int e = errno;
				trace("writer %d: write(%zu) = %d errno %d", i, n, rc, rc < 0 ? e : 0);
				harness_free(b);
				if (rc < 0) {
					CHECK("N05:eintr", e != EINTR, "an interruption surfaced from write");
					CHECK("N05:error", my_faults(F_WRITE_ERR) != f0 && e != 0, "write failed with errno %d for no reason", e);
					continue;
				}
				CHECK("N05:count", rc > 0 && (size_t) rc <= n, "write of %zu bytes returned %d", n, rc);
				CHECK("N05:whole", (size_t) rc == n || my_faults(F_SHORT_WRITE) || my_faults(F_EINTR),
				      "a blocking write of %zu bytes stopped at %d", n, rc);
				done[w] += (size_t) rc;
			}
		}));
	std::vector<size_t> tally((size_t) nw, 0);
	int reading = 0;
	for (int i = 0; i < nr; i++)
		fs.push_back(spawn("reader", [&, i]() {
			// never ask for more than is still to come
			for (;;) {
				size_t n = big ? range(1, 12000) : range(1, 100);
				if (nr > 1)
					n = 1;
				if (got + (size_t) reading >= total)
					return;
				if (n > total - got - (size_t) reading)
					n = total - got - (size_t) reading;
				reading += (int) n;
				unsigned char *b = (unsigned char *) harness_alloc(n);
				uint64_t f0 = my_faults(F_READ_ERR);
				errno = 0;
				int rc = sc_sock_pipe_read(p, b, (unsigned) n);
				int e = errno;
				reading -= (int) n;
				trace("reader %d: read(%zu) = %d errno %d", i, n, rc, rc < 0 ? e : 0);
				if (rc < 0) {
					CHECK("N05:eintr", e != EINTR, "an interruption surfaced from read");
					CHECK("N05:error", my_faults(F_READ_ERR) != f0 && e != 0, "read failed with errno %d for no reason", e);
				} else {
					CHECK("N05:count", rc > 0 && (size_t) rc <= n, "read of %zu bytes returned %d", n, rc);
					for (int k = 0; k < rc; k++) {
						size_t w = b[k] / 64;
						CHECK("N05:bytes", w < (size_t) nw, "a byte nobody wrote");
						if (nr == 1)
							CHECK("N05:order", b[k] % 64 == seen[w] % 61, "byte %zu of writer %zu is out of order", seen[w], w);
						seen[w]++;
						CHECK("N05:bytes", seen[w] <= want[w], "more bytes of writer %zu than written", w);
					}
					got += (size_t) rc;
				}
				harness_free(b);
			}
		}));
	for (auto f : fs)
		join_fiber(f);
	for (int i = 0; i < nw; i++)
		CHECK("N05:all", seen[(size_t) i] == done[(size_t) i] && done[(size_t) i] == want[(size_t) i],
		      "writer %d: %zu bytes written, %zu read", i, done[(size_t) i], seen[(size_t) i]);
	CHECK("N05:all", pipe_unread(p->fds[0]) == 0, "bytes are left in the pipe");
	state_hash(total * 8 + (uint64_t) (nw * 2 + nr));
	term_pipe(p);
	check_leaks();
}

SCENARIO(N05, lifecycle, 1)
{
	swarm({F_SYSCALL_ERR, F_CLOSE_ERR, F_EINTR}, 15);
	if (choose(3) == 0)
		fd_policy(2);
	int rounds = (int) range(2, 8);
	for (int i = 0; i < rounds; i++) {
		struct sc_sock_pipe p;
		if (!init_pipe(&p))
			continue;
		struct sc_sock_poll poll;
		{
			NoFaults nf;
			if (choose(2) && sc_sock_poll_init(&poll) == 0) {
				char c = 'a';
				CHECK("N05:poll", sc_sock_poll_add(&poll, &p.fdt, SC_SOCK_READ, &p) == 0 && sc_sock_poll_wait(&poll, 0) == 0,
				      "an empty pipe is ready");
				CHECK("N05:poll", sc_sock_pipe_write(&p, &c, 1) == 1 && sc_sock_poll_wait(&poll, 0) == 1,
				      "a written pipe is not ready");
				CHECK("N05:poll", sc_sock_pipe_read(&p, &c, 1) == 1 && c == 'a', "the byte is lost");
				sc_sock_poll_del(&poll, &p.fdt, SC_SOCK_READ, &p);
				sc_sock_poll_term(&poll);
			}
		}
		term_pipe(&p);
	}
	check_leaks();
}

// ------------------------------------------------------------------ N06
SCENARIO(N06, notify, 3)
{
	swarm({F_SYSCALL_ERR, F_EINTR, F_CLOSE_ERR, F_STALL}, 35);
	if (choose(4) == 0)
		fd_policy(2);
	race_on(true);
	// SIGPIPE kills here: it must not come up
	std::string name, raw;
	bool valid = true, unset = false;
	switch (choose(8)) {
	case 0:
		unset = true;
		valid = false;
		break;
	case 1: {
		static const char *bad[] = {"", "@", "/", "run/notify", "x", "vsock:2:1234", " /run/n"};
		name = bad[choose(7)];
		valid = false;
		break;
	}
	default: {
		size_t len = choose(2) ? range(1, 60) : choose(4) ? range(98, 107) : range(108, 160);
		for (size_t i = 0; i < len; i++)
			name += (char) ('a' + choose(26));
		if (choose(4) == 0 && len > 3)
			name[2] = choose(2) ? '/' : '@';
		name[0] = '/';
		raw = name;
		if (len < 2)
			valid = false;
		else if (choose(2)) {
			name[0] = '@';
			raw[0] = 0;
		}
		break;
	}
	}
	bool bound = false;
	if (valid && choose(5)) {
		dgram_bind(raw);
		bound = true;
	}
	if (raw.size() > 107) // a receiver with the beginning of the name
		for (size_t n = 106; n <= 108; n++)
			dgram_bind(raw.substr(0, n));
	if (!unset)
		set_env("NOTIFY_SOCKET", name.c_str());
	int nt = (int) range(1, 3), per = (int) range(1, 4);
	size_t fds = open_fds(), ok = 0;
	std::vector<Fiber *> fs;
	std::vector<std::pair<std::string, int>> sent; // message, fiber
	for (int t = 0; t < nt; t++)
		fs.push_back(spawn("notifier", [&, t]() {
			for (int k = 0; k < per; k++) {
				std::string msg;
				switch (choose(4)) {
				case 0:
					msg = "READY=1\n";
					break;
				case 1:
					msg = "STATUS=" + std::to_string(t) + "." + std::to_string(k) + "\n";
					break;
				case 2:
					msg = "";
					break;
				default:
					msg = std::string(choose(5000), (char) ('a' + t)) + "\n";
					break;
				}
				char *b = (char *) harness_alloc(msg.size() + 1);
				memcpy(b, msg.c_str(), msg.size() + 1);
				uint64_t f0 = my_faults(F_SYSCALL_ERR) + my_faults(F_EINTR);
				size_t mine = 0;
				for (auto &d : datagrams())
					mine += d.from_fiber == self_id();
				errno = 0;
				errors_mark();
				int rc = sc_sock_notify_systemd(b);
				int e = errno;
				bool hit = my_faults(F_SYSCALL_ERR) + my_faults(F_EINTR) != f0;
				size_t mine2 = 0;
				const Datagram *last = nullptr;
				for (auto &d : datagrams())
					if (d.from_fiber == self_id()) {
						mine2++;
						last = &d;
					}
				trace("notify(%zu bytes) = %d errno %d%s", msg.size(), rc, rc ? e : 0, hit ? " (fault)" : "");
				CHECK("N06:input", memcmp(b, msg.c_str(), msg.size() + 1) == 0, "the message was changed");
				harness_free(b);
				if (rc == 0) {
					ok++;
					CHECK("N06:target", valid && bound, "success, and nobody listens at the name");
					CHECK("N06:once", mine2 == mine + 1, "success, and %zu datagrams sent", mine2 - mine);
					CHECK("N06:target", last->dest == raw, "the datagram went to another socket");
					CHECK("N06:whole", last->payload == msg, "the datagram has %zu bytes, the message %zu", last->payload.size(),
					      msg.size());
				} else {
					CHECK("N06:rc", rc < 0, "notify returned %d", rc);
					CHECK("N06:errno", e != 0, "a failed notification left errno unset");
					CHECK("N06:errno", errno_named(e), "a failed notification set errno %d, nothing failed that way", e);
					CHECK("N06:why", hit || !valid || !bound || raw.size() >= 108, "notification failed with errno %d for no reason", e);
					CHECK("N06:nothing", mine2 == mine, "notification failed, and a datagram was sent");
				}
			}
		}));
	for (auto f : fs)
		join_fiber(f);
	CHECK("N06:once", datagrams().size() == ok, "%zu notifications succeeded, %zu datagrams arrived", ok, datagrams().size());
	CHECK("N06:fds", open_fds() == fds, "a descriptor stays open");
	state_hash(ok * 8 + (uint64_t) valid * 4 + bound * 2 + raw.size() * 64);
	check_leaks();
}
