// S01-S03: shutdown signals, fatal signals, signal-safe formatting.
#include "../sim/kernel.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <unistd.h>
extern "C" {
#include "sc_signal.h"
#include "sc_buf.h"
#include "sc_str.h"
#include "w_misc.h"
int simc_sigaction(int, const struct sigaction *, struct sigaction *);
void simc_abort(void);
}
using namespace sim;

// Something the signals interrupt. No C++ object lives here: control may not
// come back.
static void work(int n)
{
	for (int i = 0; i < n; i++) {
		char *s = sc_str_create("interrupted");
		sc_str_append(&s, " work");
		sc_str_destroy(&s);
		struct sc_buf b;
		if (sc_buf_init(&b, 8)) {
			sc_buf_put_str(&b, "some text to put");
			sc_buf_put_64(&b, 12345);
			sc_buf_term(&b);
		}
		int x = 0;
		w_bump(&x);
		if (x != 1)
			fail("S01:continue", "the interrupted code lost an update");
	}
}

static uint64_t gap()
{
	static const uint32_t m[] = {3, 40, 400, 3000};
	return choose(m[choose(4)]);
}

// where log text goes
struct LogTo {
	int fd = -1;
	bool set = false, bad = false;
};
static LogTo pick_log()
{
	LogTo l;
	switch (choose(5)) {
	case 0:
	case 1:
		break;
	case 2:
	case 3:
		l.fd = sink_open();
		l.set = true;
		if (choose(3) == 0) {
			sink_fail(l.fd, (int) range(1, 3));
			l.bad = true;
		}
		break;
	default:
		l.fd = 77; // not open
		l.set = l.bad = true;
	}
	return l;
}

// ------------------------------------------------------------------- S01
enum Shut { SH_NONE, SH_OK, SH_FAIL, SH_PIPE, SH_PIPE_BROKEN, SH_PIPE_FULL, SH_CLOSED };

static void start_signals()
{
	sc_signal_will_shutdown = 0;
	CHECK("S01:init", sc_signal_init() == 0, "init failed with nothing wrong");
	CHECK("S01:ignore", signal_ignored(SIGPIPE) && signal_ignored(SIGHUP), "SIGPIPE or SIGHUP is not ignored");
	CHECK("S01:init", sc_signal_shutdown_fd == -1 && sc_signal_log_fd == -1, "init leaves descriptors set");
}

SCENARIO(S01, shutdown, 6)
{
	swarm_malloc();
	start_signals();
	int pfd[2] = {-1, -1}, sfd = -1;
	Shut sh = (Shut) choose(7);
	if (choose(2))
		sh = SH_OK;
	uint32_t policy = choose(4) == 0 ? (sh == SH_OK || sh == SH_FAIL || sh == SH_NONE || sh == SH_CLOSED ? 2 : 1) : 0;
	if (policy)
		fd_policy((int) policy); // descriptor 0
	switch (sh) {
	case SH_NONE:
		break;
	case SH_OK:
	case SH_FAIL:
		sfd = sink_open();
		if (sh == SH_FAIL)
			sink_fail(sfd, (int) range(1, 3));
		break;
	case SH_CLOSED:
		sfd = 99;
		break;
	default:
		CHECK("S01:setup", simc_pipe(pfd) == 0, "no pipe");
		sfd = pfd[1];
		if (sh == SH_PIPE_BROKEN)
			simc_close(pfd[0]);
		if (sh == SH_PIPE_FULL) {
			fd_set_nonblock(sfd);
			char z[4096];
			memset(z, 7, sizeof(z));
			while (simc_write(sfd, z, sizeof(z)) > 0)
				;
		}
	}
	LogTo lg = pick_log();
	sc_signal_shutdown_fd = sfd;
	sc_signal_log_fd = lg.fd;
	int n = choose(3) ? (int) range(1, 3) : 1;
	bool noise = choose(3) == 0;
	int last = 0;
	for (int i = 0; i < n; i++) {
		if (noise && choose(2))
			signal_after(choose(2) ? SIGPIPE : SIGHUP, gap());
		last = choose(2) ? SIGINT : SIGTERM;
		signal_after(last, i ? gap() : choose(3) ? gap() : choose(20000));
	}
	bool ok = sh == SH_OK || sh == SH_PIPE;
	volatile bool done = false;
	ExitInfo e = catch_exit([&]() {
		errno = (int) choose(120);
		// with a model of its own where control surely comes back
		if (n == 1 && ok && choose(2)) {
			std::vector<History> &h = histories();
			History &x = h[choose((uint32_t) h.size())];
			trace("running history %s", x.name);
			x.fn();
		}
		while (signals_left())
			work(1);
		done = true;
	});
	signal_cancel();
	faults_off();
	size_t bytes = sh == SH_OK || sh == SH_FAIL ? sink_data(sfd).size() : 0;
	if (sh == SH_PIPE)
		bytes = pipe_unread(pfd[0]);
	state_hash((uint64_t) sh * 1000 + (uint64_t) n * 100 + bytes * 10 + (uint64_t) e.status + (e.exited ? 5000 : 0));
	CHECK("S01:nosig", e.sig == 0, "the process was killed by signal %d", e.sig);
	CHECK("S01:once", bytes <= 1, "%zu bytes were written to the shutdown descriptor", bytes);
	if (sh == SH_NONE) {
		// a second signal during the first may force the exit
		CHECK("S01:exit", e.exited && (e.status == 0 || (n > 1 && e.status == 1)),
		      "no shutdown descriptor: exited=%d status=%d instead of an exit with status 0", e.exited, e.status);
	} else if (!ok) {
		CHECK("S01:exit", e.exited && e.status == 1,
		      "the byte could not be written: exited=%d status=%d instead of an exit with status 1", e.exited,
		      e.status);
		CHECK("S01:once", bytes == 0, "a failed write left %zu bytes", bytes);
	} else if (n == 1) {
		CHECK("S01:exit", !e.exited && done, "the first signal ended the process with status %d", e.status);
		CHECK("S01:once", bytes == 1, "%zu bytes were written to the shutdown descriptor", bytes);
		probe("shutdown requested");
	} else {
		CHECK("S01:twice", e.exited && e.status == 1,
		      "a second signal: exited=%d status=%d instead of an exit with status 1", e.exited, e.status);
		probe("second signal");
	}
	if (!e.exited)
		CHECK("S01:ignore", done, "the interrupted code did not finish");
	if (n == 1 && !lg.bad && (lg.set || policy != 2)) {
		// what came is written to the log descriptor, or to a standard one
		std::string r = lg.set ? sink_data(lg.fd) : std_capture(1) + std_capture(2), num = std::to_string(last);
		const char *name = last == SIGINT ? "SIGINT" : "SIGTERM", *not_it = last == SIGINT ? "SIGTERM" : "SIGINT";
		CHECK("S01:log", r.find(name) != std::string::npos && r.find(num) != std::string::npos && r.find(not_it) == std::string::npos,
		      "the log of %s (%d) is '%.200s'", name, last, r.c_str());
	}
}

// a process with several threads: a signal is handled on any of them, also while
// another one handles the one before
SCENARIO(S01, threads, 3)
{
	start_signals();
	int sfd = sink_open();
	sc_signal_shutdown_fd = sfd;
	int n = (int) range(2, 3);
	bool gone = false;
	int status = 0, sig = 0, handled = 0;
	size_t bytes = 0;
	std::vector<Fiber *> f;
	for (int i = 0; i < n; i++)
		f.push_back(spawn("thread", [&]() {
			work((int) choose(2));
			int s = choose(2) ? SIGINT : SIGTERM;
			ExitInfo e = catch_exit([&]() { signal_raise(s); });
			if (gone)
				return; // there is no process any more
			handled++;
			if (e.exited) {
				gone = true;
				status = e.status, sig = e.sig;
				bytes = sink_data(sfd).size();
			} else {
				CHECK("S01:twice", handled == 1, "%d signals were handled on different threads and the process goes on", handled);
				CHECK("S01:once", sink_data(sfd).size() == 1, "a handled signal left %zu bytes", sink_data(sfd).size());
			}
		}));
	for (auto x : f)
		join_fiber(x);
	CHECK("S01:twice", gone && status == 1 && sig == 0, "%d signals on different threads: exited=%d status=%d", n, gone, status);
	CHECK("S01:once", bytes <= 1, "%zu bytes were written to the shutdown descriptor", bytes);
	state_hash(bytes * 10 + (uint64_t) handled);
	probe(bytes ? "second signal on another thread" : "second signal before the byte");
}

// ignored signals alone change nothing
SCENARIO(S01, ignored, 1)
{
	start_signals();
	int sfd = sink_open();
	sc_signal_shutdown_fd = sfd;
	int n = (int) range(1, 4);
	for (int i = 0; i < n; i++)
		signal_after(choose(2) ? SIGPIPE : SIGHUP, gap());
	ExitInfo e = catch_exit([&]() {
		while (signals_left())
			work(1);
	});
	CHECK("S01:ignore", !e.exited, "an ignored signal ended the process");
	CHECK("S01:ignore", sink_data(sfd).empty(), "an ignored signal requested shutdown");
	check_leaks();
}

SCENARIO(S01, registration, 1)
{
	swarm({F_SIGACTION_ERR}, 10);
	uint64_t f0 = my_faults();
	int rc = sc_signal_init();
	bool hit = my_faults() != f0;
	CHECK("S01:refused", rc == (hit ? -1 : 0), "init returned %d, %s", rc,
	      hit ? "a registration was refused" : "nothing failed");
	if (hit) {
		probe("registration refused");
		faults_off();
		CHECK("S01:refused", sc_signal_init() == 0, "init failed after the faults stopped");
	}
	CHECK("S01:ignore", signal_ignored(SIGPIPE) && signal_ignored(SIGHUP), "SIGPIPE or SIGHUP is not ignored");
	static const int all[] = {SIGINT, SIGTERM, SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL};
	for (int s : all)
		CHECK("S01:refused", !signal_default(s) && !signal_ignored(s), "signal %d is not handled", s);
	state_hash((uint64_t) hit);
}

// ------------------------------------------------------------------- S02
static const char *fatal_name[] = {"SIGSEGV", "SIGABRT", "SIGBUS", "SIGFPE", "SIGILL"};
static const int fatal_sig[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL};

SCENARIO(S02, fatal, 5)
{
	swarm({F_WRITE_ERR, F_SHORT_WRITE, F_EINTR, F_STALL, F_CLOSE_ERR}, 30);
	fault_set(F_STALL, fault_get(F_STALL) ? range(1, 3) : 0);
	fd_lenient_close(); // the dying process may close any descriptor
	start_signals();
	bool no_std = choose(6) == 0;
	if (no_std)
		fd_policy(2); // the log descriptor may be 0
	LogTo lg = pick_log();
	sc_signal_log_fd = lg.fd;
	int sfd = -1;
	bool shutdown = choose(4) == 0;
	if (shutdown) {
		sfd = sink_open();
		NoFaults nf;
		sc_signal_shutdown_fd = sfd;
	}
	uint32_t k = choose(5);
	int sig = fatal_sig[k], second = 0;
	bool by_abort = sig == SIGABRT && choose(2);
	if (shutdown)
		signal_after(choose(2) ? SIGINT : SIGTERM, gap());
	if (!by_abort)
		signal_after(sig, choose(4) ? gap() : choose(20000));
	if (choose(4) == 0) {
		second = fatal_sig[choose(5)];
		signal_after(second, gap());
	}
	ExitInfo e = catch_exit([&]() {
		errno = (int) choose(120);
		if (by_abort) {
			work((int) choose(3));
			simc_abort();
		}
		while (signals_left())
			work(1);
		work(1);
	});
	signal_cancel();
	uint64_t wf = faults_fired(F_WRITE_ERR) + faults_fired(F_SHORT_WRITE) + faults_fired(F_EINTR);
	bool stalled = faults_fired(F_STALL) != 0;
	faults_off();
	state_hash(k * 1000 + (uint64_t) e.sig * 10 + lg.set + 2 * lg.bad + (wf ? 4 : 0) + (stalled ? 100000 : 0));
	if (shutdown && e.exited && e.sig == 0) {
		// the shutdown byte could not be written
		CHECK("S02:dies", e.status == 1 && wf, "the process exited with status %d before the fatal signal", e.status);
		return;
	}
	CHECK("S02:dies", e.exited, "the process survived signal %d", sig);
	bool nested = stalled || second || (by_abort && second);
	if (!nested)
		CHECK("S02:dies", e.sig == sig, "signal %d: the process ended with status %d, signal %d", sig, e.status, e.sig);
	else
		CHECK("S02:dies", e.sig == sig || (stalled && e.sig == SIGSEGV) || (second && e.sig == second),
		      "signal %d (then %d): the process ended with status %d, signal %d", sig, second, e.status, e.sig);
	if (stalled)
		probe("report code faulted");
	if (lg.bad || wf)
		probe("report writes failed");
	if (lg.bad || wf || nested || (no_std && !lg.set))
		return;
	// it names the signal and its number
	std::string r = lg.set ? sink_data(lg.fd) : std_capture(2);
	CHECK("S02:report", r.find(fatal_name[k]) != std::string::npos, "the report does not name %s: '%.200s'",
	      fatal_name[k], r.c_str());
	std::string num = std::to_string(sig);
	bool found = false;
	for (size_t p = r.find(num); p != std::string::npos; p = r.find(num, p + 1))
		if ((p == 0 || !isxdigit(r[p - 1])) && !isxdigit(r[p + num.size()]))
			found = true;
	CHECK("S02:report", found, "the report does not hold the number %d", sig);
	for (int i = 0; i < 5; i++)
		if (fatal_sig[i] != sig)
			CHECK("S02:report", r.find(fatal_name[i]) == std::string::npos, "the report of %s names %s",
			      fatal_name[k], fatal_name[i]);
	if (lg.set) {
		CHECK("S02:place", no_std || (std_capture(2).empty() && std_capture(1).empty()),
		      "the log descriptor is set but the report went to stdout or stderr");
	} else {
		CHECK("S02:place", shutdown || std_capture(1).empty(), "the report went to stdout");
	}
	probe("crash report complete");
}

// ------------------------------------------------------------------- S03
struct Fmt {
	std::string fmt, want;
	bool bad = false;
	uint64_t a[8] = {};
	int na = 0;
};
static const char *words[] = {"", "x", "hello", "a longer string with spaces in it", "%d", "tab\tand\nline"};

static void add_conv(Fmt &f)
{
	char t[96];
	uint64_t v = choose64();
	switch (choose(9)) {
	case 0:
		f.fmt += "%d";
		snprintf(t, sizeof(t), "%d", (int) v);
		break;
	case 1:
		f.fmt += "%u";
		snprintf(t, sizeof(t), "%u", (unsigned) v);
		break;
	case 2:
		f.fmt += "%ld";
		snprintf(t, sizeof(t), "%ld", (long) v);
		break;
	case 3:
		f.fmt += "%lu";
		snprintf(t, sizeof(t), "%lu", (unsigned long) v);
		break;
	case 4:
		f.fmt += "%lld";
		snprintf(t, sizeof(t), "%lld", (long long) v);
		break;
	case 5:
		f.fmt += "%llu";
		snprintf(t, sizeof(t), "%llu", (unsigned long long) v);
		break;
	case 6:
		f.fmt += "%p";
		snprintf(t, sizeof(t), "0x%lx", (unsigned long) v);
		break;
	case 7: {
		f.fmt += "%s";
		uint32_t k = choose(7);
		const char *s = k == 6 ? nullptr : words[k];
		f.want += s ? s : "(null)";
		f.a[f.na++] = (uint64_t) s;
		return;
	}
	default:
		f.fmt += "%%";
		f.want += "%";
		return;
	}
	f.want += t;
	f.a[f.na++] = v;
}

static Fmt make_fmt()
{
	Fmt f;
	static const char *lit[] = {" ", "abc", ", value = ", "ls", "d", "[", "]\n", "l", "0x", "\xc3\xa9", "-"};
	int n = (int) choose(7);
	for (int i = 0; i < n; i++) {
		if (choose(2)) {
			const char *s = lit[choose(11)];
			f.fmt += s;
			f.want += s;
		}
		if (choose(4))
			add_conv(f);
	}
	if (choose(12) == 0) {
		static const char *bad[] = {"%x", "%c", "%5d", "%", "%l", "%ll", "%lx", "%f", "%-3s", "%lls", "%llld", "%z", "%hd", "%lp", "%.3s"};
		f.fmt += bad[choose(15)];
		f.bad = true;
		if (choose(2))
			f.fmt += " tail";
	}
	return f;
}

static size_t pick_size(const Fmt &f)
{
	switch (choose(5)) {
	case 0:
		return choose((uint32_t) f.want.size() + 3);
	case 1:
		return f.want.size();
	case 2:
		return f.want.size() + 1;
	case 3:
		return choose(4);
	default:
		return f.want.size() + 1 + choose(200);
	}
}

static void format_once(bool log)
{
	Fmt f = make_fmt();
	size_t sz = pick_size(f);
	char *b = (char *) harness_alloc(sz ? sz : 1);
	memset(b, '#', sz ? sz : 1);
	char *lim = b;
	if (sz == 0) {
		harness_free(b);
		b = (char *) harness_alloc(0);
		lim = b;
	}
	std::string want = f.want.substr(0, sz ? sz - 1 : 0);
	if (log) {
		int fd = sink_open();
		uint64_t f0 = my_faults();
		sc_signal_log(fd, lim, sz, (char *) f.fmt.c_str(), f.a[0], f.a[1], f.a[2], f.a[3], f.a[4], f.a[5], f.a[6],
			      f.a[7]);
		std::string got = sink_data(fd);
		if (f.bad)
			CHECK("S03:log", got.empty(), "an unsupported conversion wrote %zu bytes", got.size());
		else if (my_faults() != f0)
			CHECK("S03:log", want.compare(0, got.size(), got) == 0, "a failing descriptor received other text");
		else
			CHECK("S03:log", got == want, "format '%s', size %zu: '%s' was written instead of '%s'", f.fmt.c_str(),
			      sz, got.c_str(), want.c_str());
		simc_close(fd);
	} else {
		int rc = sc_signal_snprintf(lim, sz, f.fmt.c_str(), f.a[0], f.a[1], f.a[2], f.a[3], f.a[4], f.a[5], f.a[6],
					    f.a[7]);
		if (f.bad) {
			CHECK("S03:unsupported", rc == -1, "format '%s': %d instead of -1", f.fmt.c_str(), rc);
			probe("unsupported conversion");
		} else {
			CHECK("S03:count", rc == (int) want.size(), "format '%s', size %zu: returned %d instead of %zu",
			      f.fmt.c_str(), sz, rc, want.size());
			if (sz) {
				CHECK("S03:text", memcmp(b, want.c_str(), want.size() + 1) == 0,
				      "format '%s', size %zu: '%.*s' instead of '%s'", f.fmt.c_str(), sz, (int) want.size(), b,
				      want.c_str());
			}
			if (want.size() < f.want.size())
				probe("text cut to the buffer");
		}
	}
	harness_free(b);
}

static void fmt_handler(int)
{
	int e = errno;
	format_once(choose(3) == 0);
	errno = e;
}

SCENARIO(S03, format, 3)
{
	swarm({F_WRITE_ERR, F_SHORT_WRITE, F_EINTR}, 50);
	int n = (int) range(1, 6);
	for (int i = 0; i < n; i++)
		format_once(choose(4) == 0);
	state_hash((uint64_t) n);
}

// a handler formats in the middle of another message
SCENARIO(S03, reentrant, 4)
{
	swarm({F_WRITE_ERR, F_SHORT_WRITE}, 70);
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = fmt_handler;
	sa.sa_flags = choose(2) ? SA_NODEFER : 0;
	simc_sigaction(SIGUSR1, &sa, nullptr);
	sa.sa_flags = 0;
	simc_sigaction(SIGALRM, &sa, nullptr);
	int n = (int) range(1, 4);
	for (int i = 0; i < n; i++)
		signal_after(choose(2) ? SIGUSR1 : SIGALRM, choose(choose(2) ? 60 : 400));
	int turns = 0;
	while (signals_left() || turns == 0) {
		format_once(choose(4) == 0);
		turns++;
	}
	signal_cancel();
	state_hash((uint64_t) turns * 10 + (uint64_t) n);
}

HISTORY(S03, sigformat)
{
	int n = (int) range(2, 8);
	for (int i = 0; i < n; i++)
		format_once(false);
}
ACCEPT(S01, "sig:", "exit:", "mem:")
ACCEPT(S02, "sig:", "exit:", "mem:")
ACCEPT(S03, "sig:", "mem:")
