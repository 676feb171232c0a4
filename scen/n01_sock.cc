// N01 streams, N02 failures and addresses, N04 blocking mode, N07 timeouts.
#include "kernel.h"
#include "sim.h"
#include "w_sock.h"
#include <cerrno>
#include <csignal>
using namespace sim;

ACCEPT(N01, "mem:", "leak", "hang:", "race:", "assert", "exit:", "fd:")
ACCEPT(N02, "mem:", "leak", "hang:", "assert", "exit:", "fd:")
ACCEPT(N04, "mem:", "leak", "hang:", "assert", "exit:", "fd:")
ACCEPT(N07, "mem:", "leak", "hang:", "assert", "exit:", "fd:")

// ------------------------------------------------------------------ N01
namespace {
struct Stream { // one direction of one connection
	uint64_t key = 0;
	size_t total = 0; // planned
	size_t sent = 0;  // reported as sent
	size_t got = 0;
	bool failed = false; // the sender gave up
	bool closed = false; // the sender closed (possibly early)
};
struct Conn {
	int id;
	int family;
	bool blocking;
	bool early = false; // someone closes before the plan is through
	bool broken = false;
	Stream dir[2]; // 0: client to server
	std::vector<std::pair<int, size_t>> turns;
};
} // namespace

static unsigned char pat(uint64_t key, size_t i)
{
	uint64_t x = key * 0x9e3779b97f4a7c15ull + i * 0xbf58476d1ce4e5b9ull;
	x ^= x >> 29;
	x *= 0x94d049bb133111ebull;
	return (unsigned char) (x >> 40);
}
// a reset somebody caused: an injected one, or by closing early
static void note_reset(sc_sock *s, Conn &c)
{
	if (net_was_reset(s->fdt.fd) && (faults_fired(F_NET_RESET) || c.early))
		c.broken = true;
}
static size_t piece()
{
	switch (choose(6)) {
	case 0:
		return 1;
	case 1:
		return range(1, 8);
	case 2:
	case 3:
		return range(1, 200);
	case 4:
		return range(1, 3000);
	default:
		return choose(8) ? range(1, 20000) : range(60000, 140000);
	}
}

// Large buffers are kept per thread; the data sits at the end of one, where a
// transfer of too many bytes is seen.
static const size_t BIG = 160000;
static char *xfer_buf(size_t n)
{
	static char key;
	if (n < 8192)
		return (char *) harness_alloc(n);
	void *&p = self()->tls[&key];
	if (!p)
		p = harness_alloc(BIG);
	return (char *) p + (BIG - n);
}
static void xfer_done(char *b, size_t n)
{
	if (n < 8192)
		harness_free(b);
}

// One send of at most max bytes. Returns false if the connection is unusable.
static bool do_send(sc_sock *s, Conn &c, int d, size_t max, bool *again)
{
	Stream &o = c.dir[d];
	size_t n = piece();
	*again = false;
	if (n > max)
		n = max;
	char *b = xfer_buf(n);
	for (size_t i = 0; i < n; i++)
		b[i] = (char) pat(o.key, o.sent + i);
	bool writable = (fd_ready(s->fdt.fd) & 4) != 0; // EPOLLOUT
	bool peer_closed = c.dir[!d].closed;
	uint64_t w0 = my_faults(F_WRITE_ERR);
	errors_mark();
	errno = 0;
	int rc = sc_sock_send(s, b, (int) n, 0);
	int e = errno;
	trace("conn %d.%d send(%zu) = %d errno %d", c.id, d, n, rc, rc < 0 ? e : 0);
	xfer_done(b, n);
	note_reset(s, c);
	if (rc > 0) {
		CHECK("N01:count", (size_t) rc <= n, "send of %zu bytes returned %d", n, rc);
		o.sent += (size_t) rc;
		return true;
	}
	CHECK("N01:zero", rc != 0, "send of %zu bytes returned 0", n);
	CHECK("N01:eintr", e != EINTR, "an interruption surfaced from send");
	if (e == EAGAIN) {
		CHECK("N01:again", !c.blocking, "send on a blocking socket reports EAGAIN");
		CHECK("N01:again", !writable || c.broken, "send reports EAGAIN though there is room");
		*again = true;
		return true;
	}
	CHECK("N01:errno", e != 0 && e != EOF, "a failed send leaves errno %d", e);
	CHECK("N01:text", *sc_sock_error(s) && errors_named(sc_sock_error(s)), "a failed send left the error text \"%s\"",
	      sc_sock_error(s));
	bool refused = my_faults(F_WRITE_ERR) != w0;
	CHECK("N01:error", refused || c.broken || peer_closed || c.dir[!d].closed, "send failed with errno %d for no reason", e);
	if (refused && !c.broken) {
		*again = !c.blocking;
		return true; // nothing was sent, try again
	}
	o.failed = true;
	return false;
}

// One receive of at most max bytes. -1 end or failure, 0 nothing now, 1 data
static int do_recv(sc_sock *s, Conn &c, int d, size_t max, bool *eof)
{
	Stream &i = c.dir[d];
	size_t n = piece();
	*eof = false;
	// an application's buffer may be larger than what is still to come
	if (choose(40) == 0)
		n = range(60000, 150000);
	else if (n > max && choose(4))
		n = max;
	char *b = xfer_buf(n);
	size_t waiting = stream_unread(s->fdt.fd);
	memset(b, 0x5a, n);
	uint64_t f0 = my_faults(F_READ_ERR);
	errors_mark();
	errno = 0;
	int rc = sc_sock_recv(s, b, (int) n, 0);
	int e = errno;
	trace("conn %d.%d recv(%zu) = %d errno %d", c.id, d, n, rc, rc < 0 ? e : 0);
	note_reset(s, c);
	if (rc > 0) {
		CHECK("N01:count", (size_t) rc <= n, "recv of %zu bytes returned %d", n, rc);
		for (int j = 0; j < rc; j++)
			CHECK("N01:bytes", (unsigned char) b[j] == pat(i.key, i.got + (size_t) j),
			      "byte %zu of the stream is not what was sent there", i.got + (size_t) j);
		for (size_t j = (size_t) rc; j < n && j < (size_t) rc + 64; j++)
			CHECK("N01:bytes", b[j] == 0x5a, "recv wrote beyond the bytes it reports");
		i.got += (size_t) rc;
		CHECK("N01:bytes", i.got <= i.total, "more bytes arrived than were ever passed to send");
		xfer_done(b, n);
		return 1;
	}
	xfer_done(b, n);
	CHECK("N01:zero", rc != 0, "recv of %zu bytes returned 0", n);
	CHECK("N01:eintr", e != EINTR, "an interruption surfaced from recv");
	if (e == EAGAIN) {
		CHECK("N01:again", !c.blocking, "recv on a blocking socket reports EAGAIN");
		CHECK("N01:again", !waiting || c.broken, "recv reports EAGAIN though %zu bytes wait", waiting);
		return 0;
	}
	if (my_faults(F_READ_ERR) != f0) {
		CHECK("N01:errno", e != 0 && e != EOF, "a failed recv leaves errno %d", e);
		CHECK("N01:text", *sc_sock_error(s) && errors_named(sc_sock_error(s)), "a failed recv left the error text \"%s\"",
		      sc_sock_error(s));
		return c.broken ? -1 : 0;
	}
	if (e == EOF) {
		*eof = true;
		CHECK("N01:eof", c.broken || i.closed, "end of stream reported, the peer has not closed");
		CHECK("N01:eof", waiting == 0, "end of stream reported with %zu bytes waiting", waiting);
		return -1;
	}
	CHECK("N01:errno", e != 0, "a failed recv leaves errno 0");
	CHECK("N01:text", *sc_sock_error(s) && errors_named(sc_sock_error(s)), "a failed recv left the error text \"%s\"",
	      sc_sock_error(s));
	CHECK("N01:error", c.broken || i.closed, "recv failed with errno %d for no reason", e);
	return -1;
}

static void empty_calls(sc_sock *s)
{
	char b[4] = {0};
	int n = -(int) choose(3);
	int rc = choose(2) ? sc_sock_send(s, b, n, 0) : sc_sock_recv(s, b, n, 0);
	CHECK("N01:empty", rc == n, "a transfer of %d bytes returned %d", n, rc);
}

// waits for readiness the way an application would
static void wait_ready(sc_sock *s, sc_sock_poll *p, bool want_w)
{
	if (!p) {
		advance((int64_t) range(1, 20) * 100000);
		return;
	}
	int want = SC_SOCK_READ | (want_w ? SC_SOCK_WRITE : 0);
	int have = (int) s->fdt.op;
	if (want & ~have)
		if (sc_sock_poll_add(p, &s->fdt, (enum sc_sock_ev) (want & ~have), s) != 0)
			fail("N01:poll", "registration failed");
	if (have & ~want)
		if (sc_sock_poll_del(p, &s->fdt, (enum sc_sock_ev) (have & ~want), s) != 0)
			fail("N01:poll", "deregistration failed");
	int n = sc_sock_poll_wait(p, -1);
	for (int i = 0; i < n; i++)
		CHECK("N01:poll", sc_sock_poll_data(p, i) == s, "the poller reports somebody else");
}

// Both sides talk at once over non-blocking sockets.
static void duplex(sc_sock *s, Conn &c, int me, sc_sock_poll *p)
{
	Stream &o = c.dir[me], &i = c.dir[!me];
	bool again, eof, dead = false;
	size_t quit = c.early && choose(2) ? choose((uint32_t) o.total + 1) : ~(size_t) 0;
	while (!dead && (o.sent < o.total || i.got < i.total)) {
		bool idle = true;
		if (choose(20) == 0)
			empty_calls(s);
		if (o.sent >= quit)
			return;
		if (o.sent < o.total) {
			if (!do_send(s, c, me, o.total - o.sent, &again))
				break;
			idle = again;
		}
		if (i.got < i.total && (choose(3) || idle)) {
			int r = do_recv(s, c, !me, i.total - i.got, &eof);
			if (r < 0) {
				dead = true;
				break;
			}
			idle = idle && r == 0;
		}
		if (idle)
			wait_ready(s, p, o.sent < o.total);
	}
}

// Turns on a blocking (or polled non-blocking) socket.
static bool turns(sc_sock *s, Conn &c, int me, sc_sock_poll *p, bool quits)
{
	bool again, eof;
	size_t sent = 0, got = 0; // targets
	for (size_t t = 0; t < c.turns.size(); t++) {
		if (quits && choose((uint32_t) c.turns.size()) == 0)
			return false;
		if (c.turns[t].first == me) {
			sent += c.turns[t].second;
			if (c.blocking)
				advance(lull());
			while (c.dir[me].sent < sent) {
				if (!do_send(s, c, me, sent - c.dir[me].sent, &again))
					return false;
				if (again)
					wait_ready(s, p, true);
			}
		} else {
			got += c.turns[t].second;
			while (c.dir[!me].got < got) {
				int r = do_recv(s, c, !me, got - c.dir[!me].got, &eof);
				if (r < 0)
					return false;
				if (r == 0 && !c.blocking)
					wait_ready(s, p, false);
			}
		}
	}
	return true;
}

static void endpoint(sc_sock *s, Conn &c, int me, bool full, bool closer)
{
	sc_sock_poll poll;
	sc_sock_poll *p = nullptr;
	if (!c.blocking && choose(3)) {
		NoFaults nf;
		if (sc_sock_poll_init(&poll) != 0)
			fail("N01:poll", "no poller");
		p = &poll;
	}
	if (full)
		duplex(s, c, me, p);
	else
		(void) turns(s, c, me, p, c.early && choose(2));
	Stream &i = c.dir[!me];
	if (!closer && !c.early) {
		// until the peer's end of stream
		bool eof = false;
		int guard = 0;
		for (;;) {
			int r = do_recv(s, c, !me, 100000, &eof);
			if (r < 0)
				break;
			if (!c.blocking && r == 0)
				wait_ready(s, p, false);
			if (++guard > 100000)
				fail("hang:loop", "no end of stream");
		}
		if (!c.broken) {
			CHECK("N01:eof", eof, "an orderly close was not reported as end of stream");
			CHECK("N01:all", i.got == i.total, "the sender closed after %zu bytes, %zu arrived", i.total, i.got);
		}
		if (eof && choose(2) && do_recv(s, c, !me, 10, &eof) > 0)
			fail("N01:eof", "data after the end of the stream");
	}
	if (p) {
		if (s->fdt.op != SC_SOCK_NONE)
			(void) sc_sock_poll_del(p, &s->fdt, (enum sc_sock_ev) 7, s);
		NoFaults nf;
		CHECK("N01:poll", sc_sock_poll_term(p) == 0, "closing the poller failed");
	}
	note_reset(s, c);
	c.dir[me].closed = true;
	NoFaults nf;
	CHECK("N01:close", sc_sock_term(s) == 0, "closing the socket failed");
}

SCENARIO(N01, streams, 6)
{
	swarm({F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_READ_ERR, F_WRITE_ERR, F_NET_DELAY, F_NET_SEGMENT, F_STALL}, 15);
	if (choose(4) == 0)
		fault_set(F_NET_RESET, range(20, 300));
	step_budget(20000000);
	ignore_sigpipe();
	Place pl = any_place();
	// what one exchange may carry, for the steps a run has
	uint32_t most = 200000;
	if (choose(2)) {
		size_t sz = range(1, 6) == 1 ? range(1, 16) : range(100, 9000);
		net_bufsize(sz);
		most = sz <= 16 ? 2000 : sz < 1000 ? 20000 : 80000;
	}
	net_latency((int64_t) choose(20) * 100000);
	int n = (int) range(1, 3);
	std::deque<Conn> conns;
	for (int i = 0; i < n; i++) {
		conns.emplace_back();
		Conn &c = conns.back();
		c.id = i;
		c.family = pl.family;
		c.blocking = choose(2) == 0;
		c.dir[0].key = choose64();
		c.dir[1].key = choose64();
	}
	bool lblock = choose(2) == 0; // the accepted side takes this mode
	for (auto &c : conns)
		c.blocking = lblock;
	sc_sock *l = new_sock(lblock, pl.family);
	{
		NoFaults nf;
		if (sc_sock_listen(l, pl.host.c_str(), pl.port.c_str()) != 0)
			fail("N01:setup", "listen: %s", sc_sock_error(l));
	}
	std::vector<Fiber *> fs;
	for (auto &c : conns) {
		bool full = !c.blocking && choose(2);
		c.early = choose(5) == 0;
		int nt = (int) range(1, 5);
		if (full)
			nt = 2;
		for (int t = 0; t < nt; t++) {
			size_t len = choose(3) ? piece() : choose(choose(6) ? 30000 : 200000);
			len = std::min<size_t>(len, most);
			int who = full ? t : (int) choose(2);
			c.turns.push_back({who, len});
			c.dir[who].total += len;
		}
		int closer = c.turns.back().first; // the last sender closes
		if (full)
			closer = 0;
		sc_sock *cs = new_sock(lblock, pl.family), *ss = new_sock(lblock, pl.family);
		{
			NoFaults nf;
			connect_pair(l, cs, ss, pl);
		}
		fs.push_back(spawn("client", [&c, cs, full, closer]() { endpoint(cs, c, 0, full, closer == 0); }));
		fs.push_back(spawn("server", [&c, ss, full, closer]() { endpoint(ss, c, 1, full, closer == 1); }));
	}
	for (auto f : fs)
		join_fiber(f);
	for (auto &c : conns)
		for (int d = 0; d < 2; d++) {
			CHECK("N01:prefix", c.dir[d].got <= c.dir[d].sent, "%zu bytes arrived, %zu were reported as sent",
			      c.dir[d].got, c.dir[d].sent);
			if (!c.early && !c.broken && !(c.dir[d].failed))
				CHECK("N01:all", c.dir[d].got == c.dir[d].total, "%zu of %zu bytes arrived", c.dir[d].got,
				      c.dir[d].total);
			state_hash(c.dir[d].got * 31 + c.dir[d].sent);
		}
	NoFaults nf;
	CHECK("N01:close", sc_sock_term(l) == 0, "closing the listener failed");
	check_leaks();
}

// A reset at an arbitrary moment is seen by both ends as an error or an end,
// never as data or as waiting for ever.
SCENARIO(N01, broken, 2)
{
	swarm({F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_NET_DELAY, F_NET_SEGMENT}, 30);
	ignore_sigpipe();
	Place pl = any_place();
	bool blocking = choose(2) == 0;
	net_bufsize(range(1, 3000));
	net_latency((int64_t) choose(20) * 100000);
	sc_sock *l = new_sock(blocking, pl.family), *a = new_sock(blocking, pl.family), *b = new_sock(blocking, pl.family);
	{
		NoFaults nf;
		if (sc_sock_listen(l, pl.host.c_str(), pl.port.c_str()) != 0)
			fail("N01:setup", "listen: %s", sc_sock_error(l));
		connect_pair(l, a, b, pl);
	}
	uint64_t key = choose64();
	size_t sent = 0, got = 0;
	int64_t when = (int64_t) choose(200) * 100000;
	int fd = choose(2) ? a->fdt.fd : b->fdt.fd;
	bool reset = false, tx_end = false, rx_end = false, rx_eof = false;
	at(now() + when, [&]() {
		reset = true;
		net_reset_fd(fd);
	});
	Fiber *tx = spawn("sender", [&]() {
		char buf[700];
		for (int guard = 0; guard < 100000; guard++) {
			size_t n = range(1, sizeof(buf));
			for (size_t i = 0; i < n; i++)
				buf[i] = (char) pat(key, sent + i);
			errno = 0;
			int rc = sc_sock_send(a, buf, (int) n, 0);
			int e = errno;
			if (rc > 0) {
				sent += (size_t) rc;
				if (choose(2))
					advance((int64_t) choose(10) * 100000);
				continue;
			}
			CHECK("N01:zero", rc < 0, "send returned 0");
			if (e == EAGAIN) {
				CHECK("N01:again", !blocking, "send on a blocking socket reports EAGAIN");
				advance(100000);
				continue;
			}
			CHECK("N01:error", reset, "send failed with errno %d before the reset", e);
			CHECK("N01:error", e != EINTR && e != EOF && e != 0, "send on a broken connection left errno %d", e);
			CHECK("N01:text", *sc_sock_error(a), "a failed send left no error text");
			tx_end = true;
			return;
		}
	});
	Fiber *rx = spawn("receiver", [&]() {
		char buf[900];
		for (int guard = 0; guard < 100000; guard++) {
			errno = 0;
			int n = (int) range(1, sizeof(buf));
			int rc = sc_sock_recv(b, buf, n, 0);
			int e = errno;
			if (rc > 0) {
				for (int i = 0; i < rc; i++)
					CHECK("N01:bytes", (unsigned char) buf[i] == pat(key, got + (size_t) i),
					      "byte %zu is wrong", got + (size_t) i);
				got += (size_t) rc;
				continue;
			}
			CHECK("N01:zero", rc < 0, "recv returned 0");
			if (e == EAGAIN) {
				CHECK("N01:again", !blocking, "recv on a blocking socket reports EAGAIN");
				advance(100000);
				continue;
			}
			CHECK("N01:error", reset, "recv failed with errno %d before the reset", e);
			CHECK("N01:error", e != EINTR && e != 0, "recv on a broken connection left errno %d", e);
			if (e == EOF)
				rx_eof = true;
			else
				CHECK("N01:text", *sc_sock_error(b), "a failed recv left no error text");
			rx_end = true;
			return;
		}
	});
	join_fiber(tx);
	join_fiber(rx);
	CHECK("N01:notice", tx_end && rx_end, "the broken connection was not noticed by the %s", tx_end ? "receiver" : "sender");
	CHECK("N01:reset", !rx_eof, "a reset connection was reported as an orderly end of stream");
	CHECK("N01:prefix", got <= sent, "%zu bytes arrived, %zu were sent", got, sent);
	NoFaults nf;
	sc_sock_term(a);
	sc_sock_term(b);
	sc_sock_term(l);
	check_leaks();
}

// ------------------------------------------------------------------ N02
namespace {
struct Res {
	size_t fds, lists;
	Res() : fds(open_fds()), lists(live_addrlists()) { errors_mark(); }
	void same(const char *what, long extra) const
	{
		CHECK("N02:fds", open_fds() == fds + (size_t) extra, "%s: %zu descriptors open instead of %zu (%s)", what, open_fds(),
		      fds + (size_t) extra, fd_list().c_str());
		CHECK("N02:lists", live_addrlists() == lists, "%s: an address list stays", what);
	}
};
} // namespace
static uint64_t sys_faults()
{
	return my_faults(F_SYSCALL_ERR) + my_faults(F_GAI_ERR) + my_faults(F_NET_REFUSE) + my_faults(F_EINTR) + my_faults(F_CLOSE_ERR);
}
static void failed_ok(sc_sock *s, const char *what, const Res &r, long extra = 0)
{
	CHECK("N02:text", *sc_sock_error(s), "%s failed and left no error text", what);
	CHECK("N02:text", errors_named(sc_sock_error(s)), "%s failed with the text \"%s\", no call failed that way", what,
	      sc_sock_error(s));
	r.same(what, extra);
	CHECK("N02:dead", s->fdt.fd == -1, "%s failed and the object still names descriptor %d", what, s->fdt.fd);
}
static std::string addr_of(sc_sock *s, bool local)
{
	size_t len = choose(4) ? 128 : range(1, 40);
	char *b = (char *) harness_alloc(len);
	memset(b, 0x41, len);
	NoFaults nf;
	const char *r = local ? sc_sock_local_str(s, b, len) : sc_sock_remote_str(s, b, len);
	CHECK("N02:addr", r != nullptr, "no %s address of a connected socket: %s", local ? "local" : "remote", sc_sock_error(s));
	CHECK("N02:addr", r == b && memchr(b, 0, len), "the address string is not the caller's buffer, terminated");
	std::string v = b;
	if (v.size() + 1 == len && len < 128) { // cut short: ask again
		harness_free(b);
		b = (char *) harness_alloc(128);
		r = local ? sc_sock_local_str(s, b, 128) : sc_sock_remote_str(s, b, 128);
		CHECK("N02:addr", r && std::string(r).compare(0, v.size(), v) == 0, "a short buffer gets other text");
		v = r;
	}
	harness_free(b);
	return v;
}
// the address of a socket when the call for it may fail
static void addr_faulty(sc_sock *s, bool listener)
{
	bool local = listener || choose(2);
	char *b = (char *) harness_alloc(128);
	memset(b, 0x41, 128);
	uint64_t f0 = my_faults(F_SYSCALL_ERR);
	errors_mark();
	const char *r = local ? sc_sock_local_str(s, b, 128) : sc_sock_remote_str(s, b, 128);
	bool hit = my_faults(F_SYSCALL_ERR) != f0;
	CHECK("N02:addr", (r == nullptr) == hit, "the %s address is %s, %s", local ? "local" : "remote", r ? r : "missing",
	      hit ? "a call failed" : "nothing failed");
	if (!r) {
		CHECK("N02:text", *sc_sock_error(s) && errors_named(sc_sock_error(s)), "a missing address left the error text \"%s\"",
		      sc_sock_error(s));
		CHECK("N02:addr", !*b, "a missing address leaves the text %.40s", b);
	}
	harness_free(b);
}
static void ends_match(sc_sock *c, sc_sock *s, const std::string &target)
{
	if (choose(3) == 0)
		addr_faulty(choose(2) ? c : s, false);
	std::string cl = addr_of(c, true), cr = addr_of(c, false), sl = addr_of(s, true), sr = addr_of(s, false);
	CHECK("N02:ends", cl == sr && cr == sl, "client %s -> %s, server %s -> %s", cl.c_str(), cr.c_str(), sl.c_str(), sr.c_str());
	CHECK("N02:ends", target.empty() || cr == target, "connected to %s instead of %s", cr.c_str(), target.c_str());
	char out[300];
	NoFaults nf;
	sc_sock_print(c, out, sizeof(out));
	std::string want = "Local(" + cl + "), Remote(" + cr + ") ";
	CHECK("N02:print", want == out, "printed '%s' instead of '%s'", out, want.c_str());
}

// listen, over and over, with anything failing
SCENARIO(N02, listen, 3)
{
	swarm({F_SYSCALL_ERR, F_GAI_ERR, F_CLOSE_ERR, F_STALL}, 25);
	ignore_sigpipe();
	net_host("multi.test", {"10.0.0.1", "fd00::1", "10.0.0.2"});
	net_host("far.test", {"192.0.2.1"});
	net_route("192.0.2.1", RT_UNREACH); // not an address of this host
	int family = AF_UNIX;
	switch (choose(3)) {
	case 0:
		family = AF_INET;
		break;
	case 1:
		family = AF_INET6;
		break;
	}
	bool blocking = choose(2) == 0;
	sc_sock *s = new_sock(blocking, family);
	int rounds = (int) range(2, 7);
	for (int i = 0; i < rounds; i++) {
		std::string host, port = "0", show;
		bool good = true;
		if (family == AF_UNIX) {
			size_t len = choose(4) ? range(2, 60) : range(100, 140);
			host = "/run/" + std::string(len > 5 ? len - 5 : 1, 's');
			good = host.size() < 108;
			show = host;
		} else {
			static const char *h4[] = {"127.0.0.1", "192.168.100.200", "multi.test", "localhost", "0.0.0.0", "far.test", "nowhere.test", "::1"};
			static const char *h6[] = {"::1", "fd12:3456:789a:bcde:1234:5678:9abc:def0", "multi.test", "localhost", "::", "far.test", "nowhere.test", "127.0.0.1"};
			static const char *n4[] = {"127.0.0.1", "192.168.100.200", "10.0.0.1", "127.0.0.1", "0.0.0.0"};
			static const char *n6[] = {"::1", "fd12:3456:789a:bcde:1234:5678:9abc:def0", "fd00::1", "::1", "::"};
			uint32_t x = choose(8);
			host = family == AF_INET ? h4[x] : h6[x];
			good = x < 5;
			if (good)
				show = family == AF_INET ? n4[x] : n6[x];
			static const char *ports[] = {"8080", "1", "65535", "9000", "notaport", "65536"};
			x = choose(6);
			port = ports[x];
			good = good && x < 4;
			show += ":" + port;
		}
		// something in the way that is not ours
		std::string victim;
		if (family == AF_UNIX && host.size() >= 108) {
			victim = host.substr(0, 107);
			file_put(victim, "precious");
		}
		Res r;
		uint64_t f0 = sys_faults();
		errno = 0;
		int rc = sc_sock_listen(s, host.c_str(), port.c_str());
		bool hit = sys_faults() != f0;
		trace("listen(%s,%s) = %d%s", host.c_str(), port.c_str(), rc, hit ? " (fault)" : "");
		if (!victim.empty()) {
			CHECK("N02:victim", file_exists(victim), "listening on an overlong name removed the file %s", victim.c_str());
			file_remove(victim);
		}
		if (rc != 0) {
			CHECK("N02:rc", rc < 0, "listen returned %d", rc);
			CHECK("N02:why", hit || !good, "listen on %s failed for no reason: %s", host.c_str(), sc_sock_error(s));
			failed_ok(s, "listen", r);
			probe("listen failed");
		} else {
			CHECK("N02:rc", good, "listen on %s port %s succeeded", host.c_str(), port.c_str());
			CHECK("N02:rc", !hit || host == "multi.test" || host == "localhost", "listen on %s succeeded though a call failed", host.c_str());
			r.same("listen", 1);
			if (choose(3) == 0)
				addr_faulty(s, true);
			CHECK("N02:mode", fd_nonblock(s->fdt.fd) == !blocking, "the listener has the wrong blocking mode");
			std::string a = addr_of(s, true);
			bool other = hit && host == "multi.test" && a == "10.0.0.2:" + port; // socket() failed for the first
			CHECK("N02:addr", a == show || other, "listening on %s, the address is %s", show.c_str(), a.c_str());
			// it does take connections
			{
				NoFaults nf;
				sc_sock *c = new_sock(false, family), *in = new_sock(false, family);
				Place pl{family, host, port};
				if (family != AF_UNIX)
					pl.host = a.substr(0, a.rfind(':'));
				if (pl.host == "0.0.0.0")
					pl.host = "127.0.0.1";
				if (pl.host == "::")
					pl.host = "::1";
				connect_pair(s, c, in, pl);
				ends_match(c, in, "");
				sc_sock_term(c);
				sc_sock_term(in);
			}
		}
		uint64_t c0 = my_faults(F_CLOSE_ERR);
		if (rc == 0 || choose(2)) {
			errors_mark();
			int t = sc_sock_term(s);
			CHECK("N02:term", (t != 0) == (my_faults(F_CLOSE_ERR) != c0), "term returned %d", t);
			if (t)
				CHECK("N02:text", *sc_sock_error(s) && errors_named(sc_sock_error(s), true),
				      "a failed close left the error text \"%s\"", sc_sock_error(s));
			CHECK("N02:term", s->fdt.fd == -1, "a descriptor is left after term");
			r.same("term", 0);
			if (choose(2))
				CHECK("N02:term", sc_sock_term(s) == 0, "a second term fails");
		}
	}
	check_leaks();
}

namespace {
struct Dst {
	std::string ip;
	int kind; // 0 listening, 1 refused, 2 unreachable, 3 silent
};
} // namespace

SCENARIO(N02, connect, 6)
{
	swarm({F_SYSCALL_ERR, F_GAI_ERR, F_CLOSE_ERR, F_NET_REFUSE, F_NET_DELAY, F_EINTR}, 35);
	ignore_sigpipe();
	net_latency((int64_t) choose(20) * 100000);
	// a host without one of the families
	int lacks = choose(6) ? 0 : choose(2) ? AF_INET6 : AF_INET;
	net_lacks(lacks);
	static const char *pool4[] = {"10.1.0.1", "10.1.0.2", "172.168.123.254"};
	static const char *pool6[] = {"fd00::a", "fd00::b", "fd12:3456:789a:bcde:1234:5678:9abc:def0"};
	std::vector<Dst> dst;
	std::vector<std::string> ips;
	int n = (int) range(1, 4);
	for (int i = 0; i < n; i++) {
		Dst d;
		d.ip = choose(2) ? pool4[choose(3)] : pool6[choose(3)];
		bool dup = false;
		for (auto &o : dst)
			dup |= o.ip == d.ip;
		if (dup)
			continue;
		d.kind = (int) weighted({4, 3, 3, 1});
		if (v6(d.ip) ? lacks == AF_INET6 : lacks == AF_INET)
			d.kind = 2;
		if (d.kind == 2)
			net_route(d.ip.c_str(), RT_UNREACH);
		if (d.kind == 3)
			net_route(d.ip.c_str(), RT_BLACKHOLE);
		dst.push_back(d);
		ips.push_back(d.ip);
	}
	net_host("svc.test", ips);
	bool blocking = choose(2) == 0;
	std::vector<sc_sock *> ls;
	{
		NoFaults nf;
		for (auto &d : dst) {
			if (d.kind != 0) {
				ls.push_back(nullptr);
				continue;
			}
			sc_sock *l = new_sock(false, v6(d.ip) ? AF_INET6 : AF_INET);
			if (sc_sock_listen(l, d.ip.c_str(), "7000") != 0)
				fail("N02:setup", "listen on %s: %s", d.ip.c_str(), sc_sock_error(l));
			ls.push_back(l);
		}
	}
	int family = choose(2) ? AF_INET : AF_INET6;
	sc_sock *s = new_sock(blocking, family);
	int rounds = (int) range(1, 4);
	for (int i = 0; i < rounds; i++) {
		const char *src_a = nullptr, *src_p = nullptr;
		if (choose(3) == 0) {
			src_a = choose(2) ? (family == AF_INET ? "127.0.0.1" : "::1") : nullptr;
			static char pb[4][8];
			snprintf(pb[i], 8, "%d", 2000 + i);
			src_p = !src_a || choose(2) ? pb[i] : nullptr;
		}
		// the order in which the addresses are to be tried; with a source address of one family the other cannot
		// be reached
		std::vector<size_t> order;
		for (int pass = 0; pass < 2; pass++)
			for (size_t j = 0; j < dst.size(); j++)
				if ((v6(dst[j].ip) == (family == AF_INET6)) == (pass == 0) && (pass == 0 || !src_a))
					order.push_back(j);
		size_t first = order.size(); // first that accepts
		size_t pend = order.size();  // first that does not fail at once
		for (size_t j = order.size(); j-- > 0;) {
			if (dst[order[j]].kind == 0)
				first = j;
			if (dst[order[j]].kind != 2)
				pend = j;
		}
		bool unknown = choose(12) == 0;
		const char *name = unknown ? "unknown.test" : "svc.test";
		Res r;
		uint64_t f0 = sys_faults();
		uint64_t d0 = my_faults(F_NET_DELAY);
		uint64_t t0 = self()->blocks;
		errno = 0;
		int rc = sc_sock_connect(s, name, "7000", src_a, src_p);
		int e = errno;
		bool hit = sys_faults() != f0;
		(void) d0;
		trace("connect = %d errno %d%s", rc, rc ? e : 0, hit ? " (fault)" : "");
		if (!blocking)
			CHECK("N02:blocked", self()->blocks == t0, "a non-blocking connect waited");
		bool pending = false;
		if (rc == 0) {
			CHECK("N02:rc", !unknown, "connected to an unknown host");
		} else {
			CHECK("N02:rc", rc < 0, "connect returned %d", rc);
			if (!blocking && e == EAGAIN && s->fdt.fd != -1) {
				pending = true;
			} else {
				failed_ok(s, "connect", r);
				probe("connect failed");
				if (!hit && !unknown) {
					if (blocking)
						CHECK("N02:accepts", first == order.size(),
						      "%s accepts connections, connect failed: %s", dst[order[first]].ip.c_str(),
						      sc_sock_error(s));
					else
						CHECK("N02:accepts", pend == order.size(), "nothing failed at once at %s, connect failed: %s",
						      dst[order[pend]].ip.c_str(), sc_sock_error(s));
				}
				// used again, it starts from the requested family
				CHECK("N02:family", s->family == family, "after a failed connect the socket has family %d instead of %d",
				      s->family, family);
			}
		}
		std::string target;
		bool expect_ok = rc == 0;
		if (pending) {
			r.same("pending connect", 1);
			CHECK("N02:mode", fd_nonblock(s->fdt.fd), "a non-blocking socket became blocking");
			// wait for the outcome
			for (int g = 0; g < 4000 && fd_ready(s->fdt.fd) == 0; g++)
				advance(100000000);
			uint64_t g0 = my_faults(F_SYSCALL_ERR);
			bool up = (fd_ready(s->fdt.fd) & (8 | 16)) == 0; // no ERR, HUP
			errors_mark();
			int fc = sc_sock_finish_connect(s);
			bool ghit = my_faults(F_SYSCALL_ERR) != g0;
			trace("finish_connect = %d", fc);
			if (!ghit)
				CHECK("N02:finish", (fc == 0) == up, "the connection %s, finishing it returned %d", up ? "is up" : "failed",
				      fc);
			if (fc != 0)
				CHECK("N02:text", *sc_sock_error(s) && errors_named(sc_sock_error(s)),
				      "a failed finish left the error text \"%s\"", sc_sock_error(s));
			if (!hit) {
				CHECK("N02:order", pend < order.size(), "pending at an unreachable address");
				CHECK("N02:finish", up == (dst[order[pend]].kind == 0), "%s %s connections, the attempt %s",
				      dst[order[pend]].ip.c_str(), dst[order[pend]].kind == 0 ? "accepts" : "does not accept",
				      up ? "succeeded" : "failed");
				target = dst[order[pend]].ip;
			}
			expect_ok = up;
		} else if (rc == 0) {
			r.same("connect", 1);
			CHECK("N02:mode", fd_nonblock(s->fdt.fd) == !blocking, "the connected socket has the wrong blocking mode");
			if (!hit) {
				CHECK("N02:order", first < order.size(), "connected though nobody accepts");
				target = dst[order[first]].ip;
			}
		}
		if (expect_ok) {
			// some listener has it; both ends agree
			sc_sock *in = new_sock(false, AF_INET);
			bool found = false;
			NoFaults nf;
			for (size_t j = 0; j < ls.size() && !found; j++) {
				if (!ls[j])
					continue;
				while (sc_sock_accept(ls[j], in) == 0) {
					std::string ca = addr_of(s, true);
					if (addr_of(in, false) != ca || addr_of(in, true) != addr_of(s, false)) {
						sc_sock_term(in); // an attempt given up
						continue;
					}
					found = true;
					std::string a = dst[j].ip + ":7000";
					if (!target.empty())
						CHECK("N02:order", dst[j].ip == target, "connected to %s before trying %s", dst[j].ip.c_str(),
						      target.c_str());
					ends_match(s, in, a);
					if (src_a)
						CHECK("N02:source", ca.compare(0, strlen(src_a), src_a) == 0,
						      "the source address is %s instead of %s", ca.c_str(), src_a);
					if (src_p)
						CHECK("N02:source", ca.substr(ca.rfind(':') + 1) == src_p, "the source is %s instead of port %s",
						      ca.c_str(), src_p);
					sc_sock_term(in);
					break;
				}
			}
			CHECK("N02:ends", found, "no listener saw the connection");
		}
		state_hash((uint64_t) (rc + 2) * 64 + dst.size() * 8 + first + (uint64_t) pending * 1024);
		if (s->fdt.fd != -1 || choose(2)) {
			NoFaults nf;
			CHECK("N02:term", sc_sock_term(s) == 0, "closing failed");
			r.same("term", 0);
			s = new_sock(blocking, family);
		}
	}
	NoFaults nf;
	for (auto l : ls)
		if (l)
			sc_sock_term(l);
	sc_sock_term(s);
	check_leaks();
}

SCENARIO(N02, accept, 3)
{
	swarm({F_SYSCALL_ERR, F_CLOSE_ERR, F_EINTR, F_STALL}, 25);
	ignore_sigpipe();
	Place pl = any_place();
	bool lb = choose(2) == 0;
	sc_sock *l = new_sock(lb, pl.family);
	{
		NoFaults nf;
		if (sc_sock_listen(l, pl.host.c_str(), pl.port.c_str()) != 0)
			fail("N02:setup", "listen: %s", sc_sock_error(l));
	}
	int n = (int) range(1, 5);
	std::vector<sc_sock *> cs;
	{
		NoFaults nf;
		for (int i = 0; i < n; i++) {
			sc_sock *c = new_sock(true, pl.family);
			if (sc_sock_connect(c, pl.host.c_str(), pl.port.c_str(), nullptr, nullptr) != 0)
				fail("N02:setup", "connect: %s", sc_sock_error(c));
			cs.push_back(c);
		}
	}
	size_t open = 0;
	int waiting = n, tries = 0;
	std::vector<sc_sock *> in;
	std::vector<bool> taken(cs.size(), false);
	while (waiting > 0 && tries++ < 60) {
		sc_sock *a = new_sock(choose(2) == 0, choose(2) ? AF_INET : AF_UNIX);
		if (choose(3) == 0) { // nothing says that it is to be initialised
			memset((void *) a, choose(2) ? 0xff : 1, sizeof(*a));
			a->fdt.fd = -1;
		}
		Res r;
		uint64_t f0 = sys_faults();
		l->err[0] = 0;
		errno = 0;
		int rc = sc_sock_accept(l, a);
		int e = errno;
		bool hit = sys_faults() != f0;
		trace("accept = %d errno %d%s", rc, rc ? e : 0, hit ? " (fault)" : "");
		if (rc != 0) {
			CHECK("N02:rc", rc < 0 && hit, "accept failed with a connection waiting: %d errno %d", rc, e);
			// a connection waits: that there is none is no reason
			CHECK("N02:text", *sc_sock_error(l) && e != EAGAIN, "a failed accept left errno %d and the error text \"%s\"", e,
			      sc_sock_error(l));
			CHECK("N02:text", errors_named(sc_sock_error(l)), "a failed accept left the error text \"%s\"",
			      sc_sock_error(l));
			r.same("accept", 0);
			CHECK("N02:dead", a->fdt.fd == -1, "a failed accept left descriptor %d in the object", a->fdt.fd);
			NoFaults nf;
			CHECK("N02:term", sc_sock_term(a) == 0, "terminating after a failed accept fails");
			// a connection whose set-up failed is gone
			bool gone = false;
			for (size_t i = 0; i < cs.size(); i++)
				if (!taken[i] && (fd_ready(cs[i]->fdt.fd) & (8 | 16 | 0x2000))) {
					taken[i] = true;
					gone = true;
				}
			advance(100000000);
			for (size_t i = 0; i < cs.size(); i++)
				if (!taken[i] && (fd_ready(cs[i]->fdt.fd) & (8 | 16 | 0x2000))) {
					taken[i] = true;
					gone = true;
				}
			if (gone)
				waiting--;
			probe("accept failed");
			continue;
		}
		r.same("accept", 1);
		open++;
		waiting--;
		CHECK("N02:mode", fd_nonblock(a->fdt.fd) == !lb, "the accepted socket has not the listener's blocking mode");
		CHECK("N02:op", a->fdt.op == SC_SOCK_NONE, "an accepted socket claims to be registered");
		// whose is it
		bool found = pl.family == AF_UNIX;
		for (size_t i = 0; i < cs.size() && pl.family != AF_UNIX; i++)
			if (!taken[i] && addr_of(cs[i], true) == addr_of(a, false)) {
				taken[i] = true;
				found = true;
				ends_match(cs[i], a, pl.text());
				break;
			}
		if (pl.family == AF_UNIX) {
			CHECK("N02:ends", addr_of(a, true) == pl.host, "the accepted socket's address is not %s", pl.host.c_str());
			(void) addr_of(a, false);
		}
		CHECK("N02:ends", found, "the accepted connection is nobody's");
		in.push_back(a);
	}
	CHECK("N02:all", waiting <= 0 || tries >= 60, "%d connections were never accepted", waiting);
	NoFaults nf;
	if (!lb) {
		sc_sock *a = new_sock(true, pl.family);
		errno = 0;
		int rc = sc_sock_accept(l, a);
		if (rc == 0)
			sc_sock_term(a);
		else
			CHECK("N02:again", errno == EAGAIN, "accept on an idle non-blocking listener left errno %d", errno);
	}
	for (auto a : in)
		sc_sock_term(a);
	for (auto c : cs)
		sc_sock_term(c);
	sc_sock_term(l);
	check_leaks();
}

// A server comes back on its address while connections of its last life are open or just closed; both families share
// the port.
SCENARIO(N02, restart, 2)
{
	ignore_sigpipe();
	net_latency((int64_t) choose(3) * 100000);
	std::vector<Place> ps;
	static const char *hosts[][2] = {{"127.0.0.1", "::1"}, {"0.0.0.0", "::"}, {"0.0.0.0", "::1"}, {"127.0.0.1", "::"}};
	uint32_t h = choose(4), which = range(1, 3);
	if (which & 1)
		ps.push_back({AF_INET, hosts[h][0], "4000"});
	if (which & 2)
		ps.push_back({AF_INET6, hosts[h][1], "4000"});
	if (choose(2))
		std::reverse(ps.begin(), ps.end());
	std::vector<sc_sock *> ls;
	for (auto &p : ps)
		ls.push_back(new_sock(true, p.family));
	std::vector<sc_sock *> open;
	for (int r = 0, rounds = (int) range(2, 4); r < rounds; r++) {
		for (size_t i = 0; i < ps.size(); i++) {
			Res res;
			int rc = sc_sock_listen(ls[i], ps[i].host.c_str(), ps[i].port.c_str());
			CHECK("N02:restart", rc == 0, "round %d: listening on %s fails: %s", r, ps[i].text().c_str(), sc_sock_error(ls[i]));
			res.same("listen", 1);
		}
		for (int n = (int) choose(4); n; n--) {
			size_t i = choose((uint32_t) ps.size());
			sc_sock *c = new_sock(true, ps[i].family), *s = new_sock(true, ps[i].family);
			Place to = ps[i];
			if (to.host == "0.0.0.0")
				to.host = "127.0.0.1";
			if (to.host == "::")
				to.host = "::1";
			if (choose(3) == 0) { // from a port that was or is in use by us
				int rc = sc_sock_connect(c, to.host.c_str(), to.port.c_str(), to.host.c_str(), "5000");
				CHECK("N02:restart", rc == 0, "connecting from port 5000 again fails: %s", sc_sock_error(c));
				rc = sc_sock_accept(ls[i], s);
				CHECK("N02:restart", rc == 0, "accepting fails: %s", sc_sock_error(ls[i]));
			} else {
				connect_pair(ls[i], c, s, to);
			}
			char b[4] = "abc";
			CHECK("N02:restart", sc_sock_send(c, b, 3, 0) == 3 && sc_sock_recv(s, b, 3, 0) > 0, "no data over %s", to.text().c_str());
			bool first = choose(2);
			open.push_back(first ? s : c);
			open.push_back(first ? c : s);
		}
		while (!open.empty() && choose(4)) {
			CHECK("N02:restart", sc_sock_term(open.front()) == 0, "closing fails");
			open.erase(open.begin());
			if (choose(3) == 0)
				advance((int64_t) range(1, 1000) * 1000000);
		}
		for (auto l : ls)
			CHECK("N02:restart", sc_sock_term(l) == 0, "closing a listener fails");
		if (choose(3) == 0)
			advance((int64_t) choose(90) * 1000000000);
		for (size_t i = 0; i < ps.size(); i++)
			sc_sock_init(ls[i], 1, true, ps[i].family);
		state_hash((uint64_t) r * 100 + open.size() * 4 + which);
	}
	for (auto s : open)
		sc_sock_term(s);
	check_leaks();
}

// unix names: too long, nobody there, reused
SCENARIO(N02, unix_names, 2)
{
	swarm({F_SYSCALL_ERR, F_CLOSE_ERR}, 50);
	ignore_sigpipe();
	int rounds = (int) range(2, 6);
	sc_sock *s = new_sock(true, AF_UNIX);
	for (int i = 0; i < rounds; i++) {
		size_t len = choose(2) ? range(104, 112) : range(1, 200);
		std::string path = "/" + std::string(len - 1, 'u');
		sc_sock *l = new_sock(true, AF_UNIX);
		bool up = false;
		if (choose(3)) {
			NoFaults nf;
			up = sc_sock_listen(l, path.c_str(), nullptr) == 0;
			CHECK("N02:long", up == (path.size() < 108), "listen on a name of %zu bytes %s", path.size(),
			      up ? "succeeded" : "failed");
		}
		// the truncated name belongs to somebody else
		sc_sock *t = nullptr;
		if (path.size() >= 108) {
			NoFaults nf;
			t = new_sock(true, AF_UNIX);
			if (sc_sock_listen(t, path.substr(0, 107).c_str(), nullptr) != 0)
				fail("N02:setup", "listen: %s", sc_sock_error(t));
		}
		Res r;
		uint64_t f0 = sys_faults();
		errno = 0;
		int rc = sc_sock_connect(s, path.c_str(), nullptr, nullptr, nullptr);
		bool hit = sys_faults() != f0;
		if (rc == 0) {
			CHECK("N02:rc", up, "connected to a name nobody listens on (%zu bytes)", path.size());
			NoFaults nf;
			sc_sock *in = new_sock(true, AF_UNIX);
			CHECK("N02:ends", sc_sock_accept(l, in) == 0, "accept failed");
			CHECK("N02:ends", addr_of(s, false) == path && addr_of(in, true) == path, "the ends do not name %s", path.c_str());
			CHECK("N02:ends", addr_of(s, true) == "" && addr_of(in, false) == "", "an unnamed end has a name");
			sc_sock_term(in);
			sc_sock_term(s);
		} else {
			CHECK("N02:why", hit || !up, "connect failed for no reason: %s", sc_sock_error(s));
			failed_ok(s, "connect", r);
			if (!hit && path.size() >= 108)
				CHECK("N02:why", errno == EINVAL || errno == ENAMETOOLONG, "an overlong name fails with errno %d", errno);
		}
		NoFaults nf;
		sc_sock_term(l);
		if (t)
			sc_sock_term(t);
	}
	check_leaks();
}

// ------------------------------------------------------------------ N04
SCENARIO(N04, paths, 4)
{
	swarm({F_SYSCALL_ERR, F_GAI_ERR, F_NET_DELAY, F_EINTR, F_CLOSE_ERR}, 40);
	ignore_sigpipe();
	Place pl = any_place();
	net_latency((int64_t) choose(30) * 100000);
	bool lb = choose(2) == 0, cb = choose(2) == 0;
	sc_sock *l = new_sock(lb, pl.family), *c = nullptr;
	// the family asked for is a preference: the other one is tried after it
	if (pl.family != AF_UNIX && choose(3) == 0)
		c = new_sock(cb, pl.family == AF_INET ? AF_INET6 : AF_INET);
	else
		c = new_sock(cb, pl.family);
	int rc = -1;
	for (int i = 0; i < 30 && rc != 0; i++)
		rc = sc_sock_listen(l, pl.host.c_str(), pl.port.c_str());
	if (rc != 0) {
		faults_off();
		rc = sc_sock_listen(l, pl.host.c_str(), pl.port.c_str());
		CHECK("N04:setup", rc == 0, "listen: %s", sc_sock_error(l));
	}
	CHECK("N04:listen", fd_nonblock(l->fdt.fd) == !lb, "the listener was initialised as %s and is not", lb ? "blocking" : "non-blocking");
	// nothing there: a non-blocking accept returns at once
	sc_sock *a = new_sock(choose(2) == 0, pl.family);
	bool accepted = false;
	if (!lb) {
		uint64_t t0 = self()->blocks;
		errno = 0;
		rc = sc_sock_accept(l, a);
		CHECK("N04:accept", rc < 0 && self()->blocks == t0, "accept with nobody there returned %d and waited %d times", rc, (int) (self()->blocks - t0));
	}
	Fiber *srv = nullptr;
	if (lb)
		srv = spawn("server", [&]() {
			for (int i = 0; i < 200; i++) {
				uint64_t f0 = my_faults();
				errno = 0;
				if (sc_sock_accept(l, a) == 0) {
					accepted = true;
					return;
				}
				CHECK("N04:again", errno != EAGAIN, "a blocking accept reports EAGAIN");
				CHECK("N04:again", my_faults() != f0, "a blocking accept failed for no reason: %s", sc_sock_error(l));
				if (fd_ready(l->fdt.fd) == 0 && live_fibers() < 2)
					return;
			}
		});
	bool up = false, lost = false;
	for (int i = 0; i < 40 && !up; i++) {
		lost = i > 0; // the accepted one may be an attempt given up
		uint64_t t0 = self()->blocks;
		uint64_t f0 = my_faults();
		if (i > 30)
			faults_off();
		errno = 0;
		rc = sc_sock_connect(c, pl.host.c_str(), pl.port.c_str(), nullptr, nullptr);
		int e = errno;
		trace("connect = %d errno %d", rc, rc ? e : 0);
		if (!cb)
			CHECK("N04:connect", self()->blocks == t0, "a non-blocking connect waited %d times", (int) (self()->blocks - t0));
		if (rc == 0 || (!cb && e == EAGAIN && c->fdt.fd != -1)) {
			CHECK("N04:connect", fd_nonblock(c->fdt.fd) == !cb, "the connecting socket was initialised as %s and is not",
			      cb ? "blocking" : "non-blocking");
			up = true;
			if (rc != 0) {
				for (int g = 0; g < 10000 && fd_ready(c->fdt.fd) == 0; g++)
					advance(10000000);
				if (fd_ready(c->fdt.fd) & (8 | 16)) {
					sc_sock_term(c);
					up = false;
				}
			}
			continue;
		}
		CHECK("N04:again", e != EAGAIN || !cb, "a blocking connect reports EAGAIN");
		CHECK("N04:connect", my_faults() != f0, "connect failed for no reason: %s", sc_sock_error(c));
	}
	CHECK("N04:setup", up, "no connection");
	// an accept that failed half way drops the connection
	if (srv) {
		settle(20000000000);
		lost |= !accepted;
		while (!accepted) {
			NoFaults nf;
			sc_sock *x = new_sock(true, pl.family);
			if (sc_sock_connect(x, pl.host.c_str(), pl.port.c_str(), nullptr, nullptr) != 0)
				fail("N04:setup", "connect: %s", sc_sock_error(x));
			settle(20000000000);
			sc_sock_term(x);
			if (srv->state == FS_DONE)
				break;
		}
		join_fiber(srv);
		CHECK("N04:setup", accepted, "nothing was accepted");
	} else {
		bool gone = false;
		for (int i = 0; !accepted && !gone; i++) {
			uint64_t t0 = self()->blocks;
			if (i > 40)
				faults_off();
			errno = 0;
			rc = sc_sock_accept(l, a);
			CHECK("N04:accept", self()->blocks == t0, "a non-blocking accept waited");
			accepted = rc == 0;
			gone = !accepted && fd_ready(l->fdt.fd) == 0;
			lost |= gone;
		}
	}
	if (accepted)
		CHECK("N04:accept", fd_nonblock(a->fdt.fd) == !lb, "the listener is %s, the accepted socket is not",
		      lb ? "blocking" : "non-blocking");
	if (lost) {
		NoFaults nf;
		sc_sock_term(a);
		sc_sock_term(c);
		sc_sock_term(l);
		check_leaks();
		return;
	}
	bool ab = lb; // the mode the accepted socket has to have
	struct sc_sock_poll poll;
	bool reg = choose(3) == 0; // a registered socket changes modes as well
	if (reg) {
		NoFaults nf;
		if (sc_sock_poll_init(&poll) != 0 || sc_sock_poll_add(&poll, &a->fdt, SC_SOCK_READ, a) != 0 ||
		    sc_sock_poll_add(&poll, &c->fdt, SC_SOCK_READ, c) != 0)
			fail("N04:setup", "poll");
	}
	// change modes; a failed change changes nothing
	struct {
		sc_sock *s;
		bool *b;
	} both[2] = {{a, &ab}, {c, &cb}};
	for (int i = 0, n = (int) choose(5); i < n; i++) {
		auto &x = both[choose(2)];
		bool want = choose(2) == 0;
		uint64_t f0 = my_faults(F_SYSCALL_ERR);
		rc = sc_sock_set_blocking(x.s, want);
		bool hit = my_faults(F_SYSCALL_ERR) != f0;
		CHECK("N04:set", (rc != 0) == hit && rc <= 0, "set_blocking returned %d", rc);
		if (rc == 0)
			*x.b = want;
		CHECK("N04:set", fd_nonblock(x.s->fdt.fd) == !*x.b, "the mode after set_blocking(%d) = %d is wrong", (int) want, rc);
	}
	if (reg) {
		NoFaults nf;
		sc_sock_poll_del(&poll, &a->fdt, SC_SOCK_READ, a);
		sc_sock_poll_del(&poll, &c->fdt, SC_SOCK_READ, c);
		sc_sock_poll_term(&poll);
	}
	// and the calls behave like it
	for (int i = 0; i < 2; i++) {
		sc_sock *r = both[i].s, *w = both[!i].s;
		bool rb = *both[i].b, wb = *both[!i].b;
		char b = 0;
		errno = 0;
		if (!rb) {
			uint64_t t0 = self()->blocks;
			rc = sc_sock_recv(r, &b, 1, 0);
			CHECK("N04:recv", rc == -1 && errno == EAGAIN && self()->blocks == t0, "recv with nothing there returned %d errno %d and waited %d times",
			      rc, errno, (int) (self()->blocks - t0));
		} else {
			int64_t wait = (int64_t) range(1, 500) * 1000000 + lull(), t0 = now();
			bool done = false;
			Fiber *rx = spawn("reader", [&]() {
				errno = 0;
				int n = sc_sock_recv(r, &b, 1, 0);
				CHECK("N04:recv", n == 1, "recv on a blocking socket returned %d errno %d", n, errno);
				CHECK("N04:recv", now() - t0 >= wait, "data before it was sent");
				done = true;
			});
			advance(wait);
			char z = 'z';
			int n = sc_sock_send(w, &z, 1, 0);
			CHECK("N04:send", n == 1, "send returned %d errno %d", n, errno);
			join_fiber(rx);
			CHECK("N04:recv", done && b == 'z', "the byte did not arrive");
		}
		(void) wb;
	}
	// fill the connection
	{
		sc_sock *w = both[choose(2)].s;
		sc_sock *r = w == a ? c : a;
		bool wb = w == a ? ab : cb;
		std::vector<char> big(30000, 'f');
		if (!wb) {
			uint64_t t0 = self()->blocks;
			int n, g = 0;
			while ((n = sc_sock_send(w, big.data(), (int) big.size(), 0)) > 0 && g++ < 100000)
				CHECK("N04:send", self()->blocks == t0, "a non-blocking send waited");
			CHECK("N04:send", n == -1 && errno == EAGAIN && self()->blocks == t0, "send to a full connection returned %d errno %d", n, errno);
		} else {
			size_t sent = 0, total = 150000, got = 0;
			Fiber *tx = spawn("writer", [&]() {
				while (sent < total) {
					size_t m = total - sent < big.size() ? total - sent : big.size();
					errno = 0;
					int n = sc_sock_send(w, big.data(), (int) m, 0);
					CHECK("N04:send", n > 0, "send on a blocking socket returned %d errno %d", n, errno);
					sent += (size_t) n;
				}
			});
			advance((int64_t) range(1, 200) * 1000000 + lull());
			CHECK("N04:send", sent < total, "more was sent than fits");
			std::vector<char> buf(40000);
			while (got < total) {
				int n = sc_sock_recv(r, buf.data(), (int) buf.size(), 0);
				if (n > 0)
					got += (size_t) n;
				else if (errno == EAGAIN && fd_nonblock(r->fdt.fd))
					advance(1000000);
				else
					fail("N04:recv", "recv returned %d errno %d", n, errno);
			}
			join_fiber(tx);
		}
	}
	state_hash((uint64_t) (lb * 8 + cb * 4 + ab * 2) + (uint64_t) pl.family * 16);
	NoFaults nf;
	sc_sock_term(a);
	sc_sock_term(c);
	sc_sock_term(l);
	check_leaks();
}

// ------------------------------------------------------------------ N07
static int any_ms()
{
	switch (choose(7)) {
	case 0:
		return 1;
	case 1:
		return (int) range(1, 20);
	case 2:
		return (int) range(1, 999);
	case 3:
		return (int) range(990, 1010);
	case 4:
		return 1000 * (int) range(1, 5);
	case 5:
		return (int) range(1000, 100000);
	default:
		return (int) range(1, 3000000);
	}
}
SCENARIO(N07, timeouts, 3)
{
	swarm({F_EINTR, F_NET_SEGMENT, F_SYSCALL_ERR, F_SHORT_READ, F_SHORT_WRITE}, 40);
	ignore_sigpipe();
	Place pl = any_place();
	const int64_t MS = 1000000;
	bool exact = choose(2) == 0; // nobody is slow
	exact_time(exact);
	net_latency(0);
	net_bufsize(range(1, 4000));
	sc_sock *l = new_sock(true, pl.family), *a = new_sock(true, pl.family), *b = new_sock(true, pl.family);
	{
		NoFaults nf;
		if (sc_sock_listen(l, pl.host.c_str(), pl.port.c_str()) != 0)
			fail("N07:setup", "listen: %s", sc_sock_error(l));
		connect_pair(l, a, b, pl);
	}
	int rto = 0, sto = 0; // 0: for ever
	int rounds = (int) range(2, 7);
	bool full = false;
	for (int i = 0; i < rounds; i++) {
		int which = (int) choose(2);
		if (choose(4)) {
			int ms = choose(8) ? any_ms() : 0;
			uint64_t f0 = my_faults(F_SYSCALL_ERR);
			int rc = which ? sc_sock_set_sndtimeo(a, ms) : sc_sock_set_rcvtimeo(a, ms);
			bool hit = my_faults(F_SYSCALL_ERR) != f0;
			CHECK("N07:set", (rc != 0) == hit && rc <= 0, "setting a timeout of %d ms returned %d", ms, rc);
			if (rc != 0)
				CHECK("N07:text", *sc_sock_error(a), "a refused timeout left no error text");
			if (rc == 0)
				(which ? sto : rto) = ms;
		}
		int to = which ? sto : rto;
		int64_t arrive; // when data or space comes
		bool never = to != 0 && choose(3) == 0;
		switch (choose(4)) {
		case 0:
			arrive = (int64_t) to * MS + (int64_t) range(1, 2000) * MS / 10;
			break;
		case 1:
			arrive = (int64_t) choose((uint32_t) (to ? to : 1000)) * MS + (int64_t) choose(10) * 100000;
			break;
		case 2:
			arrive = (int64_t) to * MS - 1000;
			break;
		default:
			arrive = (int64_t) to * MS * (int64_t) range(1, 4) / 2;
			break;
		}
		if (arrive < 0)
			arrive = 0;
		char *buf = (char *) harness_alloc(8000);
		memset(buf, 'q', 8000);
		int64_t t0 = now();
		uint64_t e0 = my_faults(F_EINTR);
		if (!which) {
			CHECK("N07:harness", stream_unread(a->fdt.fd) == 0, "harness: unread data");
			bool sent = false;
			int64_t sent_at = 0;
			Fiber *peer = nullptr;
			if (!never)
				peer = spawn("peer", [&]() {
					NoFaults nf;
					advance(arrive);
					if (sc_sock_send(b, buf, 1, 0) != 1)
						fail("N07:setup", "the peer cannot send");
					sent = true;
					sent_at = now();
				});
			errno = 0;
			int rc = sc_sock_recv(a, buf, 10, 0);
			int e = errno;
			int64_t took = now() - t0;
			uint64_t intr = my_faults(F_EINTR) - e0;
			trace("rcvtimeo %d: recv = %d errno %d after %lld us, data at %lld us", to, rc, rc < 0 ? e : 0,
			      (long long) took / 1000, never ? -1ll : (long long) arrive / 1000);
			if (rc == 1) {
				CHECK("N07:data", sent || took >= arrive, "data before it was sent");
				CHECK("N07:late", !exact || to == 0 || took <= (int64_t) to * MS * (int64_t) (intr + 1) + MS,
				      "timeout %d ms: recv returned after %lld us", to, (long long) took / 1000);
				CHECK("N07:late", !exact || took <= arrive + MS, "data came after %lld us, recv returned after %lld us",
				      (long long) arrive / 1000, (long long) took / 1000);
			} else {
				CHECK("N07:errno", rc == -1 && e == EAGAIN, "a timed out recv returned %d errno %d", rc, e);
				CHECK("N07:forever", to != 0, "recv without a timeout gave up");
				CHECK("N07:early", took >= (int64_t) to * MS, "timeout %d ms: recv gave up after %lld us", to,
				      (long long) took / 1000);
				CHECK("N07:late", !exact || took <= (int64_t) to * MS * (int64_t) (intr + 1) + MS,
				      "timeout %d ms: recv gave up after %lld us", to, (long long) took / 1000);
				CHECK("N07:missed", !sent || sent_at >= t0 + (int64_t) to * MS, "data came after %lld us, recv timed out",
				      (long long) arrive / 1000);
			}
			if (peer)
				join_fiber(peer);
			NoFaults nf;
			while (stream_unread(a->fdt.fd))
				if (sc_sock_recv(a, buf, 10, 0) < 0)
					fail("N07:setup", "drain");
		} else {
			if (!full) { // fill it without waiting
				NoFaults nf;
				sc_sock_set_blocking(a, false);
				while (sc_sock_send(a, buf, 8000, 0) > 0)
					;
				sc_sock_set_blocking(a, true);
				full = true;
				advance(10 * MS);
				t0 = now();
			}
			Fiber *peer = nullptr;
			if (!never)
				peer = spawn("peer", [&]() {
					NoFaults nf;
					char in[64];
					advance(arrive);
					if (sc_sock_recv(b, in, 1, 0) != 1)
						fail("N07:setup", "the peer cannot receive");
				});
			errno = 0;
			int rc = sc_sock_send(a, buf, 1, 0);
			int e = errno;
			int64_t took = now() - t0;
			uint64_t intr = my_faults(F_EINTR) - e0;
			trace("sndtimeo %d: send = %d errno %d after %lld us, space at %lld us", to, rc, rc < 0 ? e : 0,
			      (long long) took / 1000, never ? -1ll : (long long) arrive / 1000);
			if (rc == 1) {
				CHECK("N07:data", took >= arrive, "sent before there was space");
				CHECK("N07:late", !exact || took <= arrive + MS, "space came after %lld us, send returned after %lld us",
				      (long long) arrive / 1000, (long long) took / 1000);
				full = true;
			} else {
				CHECK("N07:errno", rc == -1 && e == EAGAIN, "a timed out send returned %d errno %d", rc, e);
				CHECK("N07:forever", to != 0, "send without a timeout gave up");
				CHECK("N07:early", took >= (int64_t) to * MS, "timeout %d ms: send gave up after %lld us", to,
				      (long long) took / 1000);
				CHECK("N07:late", !exact || took <= (int64_t) to * MS * (int64_t) (intr + 1) + MS,
				      "timeout %d ms: send gave up after %lld us", to, (long long) took / 1000);
				CHECK("N07:missed", !exact || never || arrive >= (int64_t) to * MS, "space came after %lld us, send timed out",
				      (long long) arrive / 1000);
				if (!never)
					full = false;
			}
			if (peer)
				join_fiber(peer);
		}
		state_hash((uint64_t) to * 4 + (uint64_t) which * 2 + never);
		harness_free(buf);
	}
	NoFaults nf;
	sc_sock_term(a);
	sc_sock_term(b);
	sc_sock_term(l);
	check_leaks();
}
