// M04: threads with objects of their own do not affect each other.
#include "w_sock.h"
#include "w_misc.h"
#include <fcntl.h>
#include <sys/mman.h>
extern "C" {
#include "sc.h"
#include "sc_cond.h"
#include "sc_crc32.h"
#include "sc_list.h"
#include "sc_mmap.h"
#include "sc_mutex.h"
#include "sc_option.h"
#include "sc_thread.h"
#include "sc_time.h"
#include "sc_uri.h"
}
using namespace sim;

// Each history below gets a slot: the names it may use are its own.
typedef void (*Own)(int slot);

// ------------------------------------------------------------- pure objects
static std::string word(int lo, int hi)
{
	std::string s;
	for (int i = 0, n = (int) range((uint32_t) lo, (uint32_t) hi); i < n; i++)
		s += (char) ('a' + choose(26));
	return s;
}

static void own_uri(int)
{
	for (int i = 0, n = (int) range(1, 4); i < n; i++) {
		std::string sch = word(1, 6), ui = choose(2) ? word(1, 8) : "", host = word(1, 12);
		std::string port = choose(2) ? std::to_string(range(1, 65535)) : "", path = choose(2) ? "/" + word(1, 12) : "";
		std::string q = choose(2) ? word(1, 9) : "", fr = choose(2) ? word(1, 9) : "";
		std::string s = sch + "://" + (ui.empty() ? "" : ui + "@") + host + (port.empty() ? "" : ":" + port) + path +
				(q.empty() ? "" : "?" + q) + (fr.empty() ? "" : "#" + fr);
		uint64_t r0 = mallocs_refused();
		struct sc_uri *u = sc_uri_create(s.c_str());
		CHECK("M04:uri", (u == nullptr) == (mallocs_refused() != r0), "%s: %s", s.c_str(), u ? "created" : "refused");
		if (!u)
			continue;
		CHECK("M04:uri", s == u->str && sch == u->scheme && ui == u->userinfo && host == u->host && port == u->port &&
					 path == u->path && q == u->query && fr == u->fragment,
		      "%s is split into other parts", s.c_str());
		sc_uri_destroy(u);
	}
}

static uint32_t crc_ref(uint32_t crc, const unsigned char *b, size_t n)
{
	crc = ~crc;
	while (n--) {
		crc ^= *b++;
		for (int k = 0; k < 8; k++)
			crc = crc & 1 ? crc >> 1 ^ 0x82f63b78 : crc >> 1;
	}
	return ~crc;
}
static void own_crc(int)
{
	for (int i = 0, m = (int) range(1, 3); i < m; i++) {
		size_t n = range(0, 200), off = choose(9), at = 0;
		unsigned char *b = (unsigned char *) harness_alloc(n + off + 1);
		for (size_t j = 0; j < n; j++)
			b[off + j] = (unsigned char) choose(256);
		uint32_t c = 0;
		while (at < n) {
			size_t k = range(1, 64);
			if (k > n - at)
				k = n - at;
			c = sc_crc32(c, b + off + at, k);
			at += k;
		}
		CHECK("M04:crc", c == crc_ref(0, b + off, n), "checksum of %zu bytes is %#x", n, c);
		harness_free(b);
	}
}

static void own_option(int)
{
	struct sc_option_item it[] = {{'a', "alpha"}, {'b', nullptr}, {'c', "gamma"}};
	std::vector<std::string> arg;
	std::vector<std::pair<char, std::string>> want;
	for (int i = 0, n = (int) range(1, 5); i < n; i++) {
		std::string v = choose(2) ? word(1, 5) : "";
		std::string t = v.empty() ? "" : "=" + v;
		switch (choose(4)) {
		case 0:
			arg.push_back("-a" + t);
			want.push_back({'a', v});
			break;
		case 1:
			arg.push_back("-b" + t);
			want.push_back({'b', v});
			break;
		case 2:
			arg.push_back("--gamma" + t);
			want.push_back({'c', v});
			break;
		default:
			arg.push_back("--" + word(1, 4));
			want.push_back({'?', ""});
		}
	}
	std::vector<char *> argv;
	for (auto &a : arg)
		argv.push_back((char *) a.c_str());
	struct sc_option o = {it, 3, argv.data()};
	for (size_t i = 0; i < arg.size(); i++) {
		char *v = nullptr;
		char c = sc_option_at(&o, (int) i, &v);
		CHECK("M04:option", c == want[i].first, "%s is reported as %c", arg[i].c_str(), c);
		if (c != '?')
			CHECK("M04:option", want[i].second == v, "%s has value %s", arg[i].c_str(), v);
	}
}

static void own_list(int)
{
	struct Node {
		int v;
		struct sc_list l;
	};
	std::deque<Node> nodes;
	std::deque<int> model;
	struct sc_list l;
	sc_list_init(&l);
	for (int i = 0, n = (int) range(1, 20); i < n; i++) {
		struct sc_list *e;
		switch (choose(4)) {
		case 0:
		case 1:
			nodes.push_back(Node{i, {}});
			sc_list_init(&nodes.back().l);
			if (choose(2)) {
				sc_list_add_tail(&l, &nodes.back().l);
				model.push_back(i);
			} else {
				sc_list_add_head(&l, &nodes.back().l);
				model.push_front(i);
			}
			break;
		case 2:
			e = sc_list_pop_head(&l);
			CHECK("M04:list", (e == nullptr) == model.empty(), "pop of the head");
			if (e) {
				CHECK("M04:list", sc_list_entry(e, Node, l)->v == model.front(), "wrong head");
				model.pop_front();
			}
			break;
		default:
			e = sc_list_pop_tail(&l);
			CHECK("M04:list", (e == nullptr) == model.empty(), "pop of the tail");
			if (e) {
				CHECK("M04:list", sc_list_entry(e, Node, l)->v == model.back(), "wrong tail");
				model.pop_back();
			}
		}
		CHECK("M04:list", sc_list_count(&l) == model.size(), "wrong count");
	}
}

static void own_rand(int)
{
	// RC4 keyed with the 256 bytes
	unsigned char key[256], st[256], a = 0, b = 0;
	uint32_t base = choose(256);
	for (int i = 0; i < 256; i++)
		key[i] = (unsigned char) (i * 7 + (int) (base * (uint32_t) i));
	struct sc_rand *r = (struct sc_rand *) harness_alloc(sizeof(*r));
	sc_rand_init(r, key);
	memcpy(st, key, 256);
	for (int i = 0; i < 256; i++) {
		b = (unsigned char) (b + st[i] + key[i]);
		std::swap(st[i], st[b]);
	}
	for (int i = 0, n = (int) range(1, 4); i < n; i++) {
		unsigned char out[64];
		int len = (int) range(1, sizeof(out));
		sc_rand_read(r, out, len);
		for (int k = 0; k < len; k++) {
			a++;
			b = (unsigned char) (b + st[a]);
			std::swap(st[a], st[b]);
			CHECK("M04:rand", out[k] == st[(unsigned char) (st[a] + st[b])], "byte %d of the stream differs", k);
		}
	}
	harness_free(r);
}

static void own_size(int)
{
	static const char *unit = "BKMGTPE";
	for (int i = 0, n = (int) range(1, 4); i < n; i++) {
		uint32_t u = choose(7), v = choose(8);
		std::string t = std::to_string(v) + unit[u] + (u && choose(2) ? "B" : "");
		CHECK("M04:size", sc_size_to_bytes(t.c_str()) == (int64_t) v << (10 * u), "%s is something else", t.c_str());
		char b[64], w[64];
		v = range(1, 1023);
		if (u == 6)
			v = v % 15 + 1;
		snprintf(w, sizeof(w), u ? "%u.00 %cB" : "%u B", v, unit[u]);
		char *r = sc_bytes_to_size(b, sizeof(b), (uint64_t) v << (10 * u));
		CHECK("M04:size", r == b && !strcmp(b, w), "%s is shown as %s", w, b);
	}
}

// ------------------------------------------------------------- descriptors
static void own_pipe(int)
{
	struct sc_sock_pipe p;
	if (sc_sock_pipe_init(&p, 3) != 0)
		fail("M04:pipe", "no pipe: %s", sc_sock_pipe_err(&p));
	for (int i = 0, n = (int) range(1, 4); i < n; i++) {
		unsigned char b[256], c[256];
		unsigned len = range(1, sizeof(b)), got = 0;
		for (unsigned j = 0; j < len; j++)
			b[j] = (unsigned char) choose(256);
		int rc = sc_sock_pipe_write(&p, b, len);
		CHECK("M04:pipe", rc == (int) len, "write of %u bytes returned %d", len, rc);
		while (got < len) {
			unsigned want = range(1, len - got);
			rc = sc_sock_pipe_read(&p, c + got, want);
			CHECK("M04:pipe", rc > 0 && (unsigned) rc <= want, "read returned %d", rc);
			got += (unsigned) rc;
		}
		CHECK("M04:pipe", memcmp(b, c, len) == 0, "other bytes come out");
	}
	CHECK("M04:pipe", sc_sock_pipe_term(&p) == 0, "term failed");
}

static void poller(struct sc_sock_poll *p)
{
	NoFaults nf;
	CHECK("M04:sock", sc_sock_poll_init(p) == 0, "no poller");
}
static Place own_place(int slot)
{
	switch (choose(3)) {
	case 0:
		return Place{AF_INET, "127.0.0.1", std::to_string(4100 + slot)};
	case 1:
		return Place{AF_INET6, "::1", std::to_string(4200 + slot)};
	default:
		return Place{AF_UNIX, "/run/own" + std::to_string(slot), ""};
	}
}

static void own_socket(int slot)
{
	Place pl = own_place(slot);
	sc_sock *l = new_sock(false, pl.family), *c = new_sock(false, pl.family), *s = new_sock(false, pl.family);
	CHECK("M04:sock", sc_sock_listen(l, pl.host.c_str(), pl.port.c_str()) == 0, "listen: %s", sc_sock_error(l));
	connect_pair(l, c, s, pl);
	struct sc_sock_poll p;
	poller(&p);
	CHECK("M04:sock", sc_sock_poll_add(&p, &s->fdt, SC_SOCK_READ, s) == 0, "not registered");
	char t[256];
	if (pl.family != AF_UNIX) {
		CHECK("M04:sock", sc_sock_remote_str(c, t, sizeof(t)) && (pl.family == AF_INET6 || pl.text() == t), "remote is %s, not %s",
		      t, pl.text().c_str());
		char u[256];
		CHECK("M04:sock", sc_sock_local_str(c, t, sizeof(t)) && sc_sock_remote_str(s, u, sizeof(u)) && !strcmp(t, u),
		      "the ends name %s and %s", t, u);
	}
	for (int i = 0, n = (int) range(1, 3); i < n; i++) {
		std::string m = std::to_string(slot) + word(1, 60);
		size_t at = 0;
		int rc = sc_sock_send(c, (char *) m.data(), (int) m.size(), 0);
		CHECK("M04:sock", rc == (int) m.size(), "send returned %d", rc);
		std::string got;
		while (got.size() < m.size()) {
			rc = sc_sock_poll_wait(&p, -1);
			CHECK("M04:sock", rc == 1 && sc_sock_poll_data(&p, 0) == s && sc_sock_poll_event(&p, 0) == SC_SOCK_READ,
			      "wait returned %d", rc);
			rc = sc_sock_recv(s, t, (int) range(1, sizeof(t)), 0);
			CHECK("M04:sock", rc > 0, "recv returned %d", rc);
			got.append(t, (size_t) rc);
		}
		CHECK("M04:sock", got == m, "received %s, not %s", got.c_str(), m.c_str());
		(void) at;
	}
	CHECK("M04:sock", sc_sock_poll_del(&p, &s->fdt, SC_SOCK_READ, s) == 0, "not deregistered");
	CHECK("M04:sock", sc_sock_poll_term(&p) == 0, "poller");
	CHECK("M04:sock", sc_sock_term(c) == 0 && sc_sock_term(s) == 0 && sc_sock_term(l) == 0, "close");
}

static void own_mmap(int slot)
{
	std::string name = "/data/own" + std::to_string(slot);
	struct sc_mmap m;
	size_t len = range(1, 6000);
	if (sc_mmap_init(&m, name.c_str(), O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 0, len) != 0)
		fail("M04:mmap", "map: %s", sc_mmap_err(&m));
	CHECK("M04:mmap", m.len == len, "mapped %zu bytes of %zu", m.len, len);
	std::string want(len, 0);
	for (size_t i = 0; i < len; i += 1 + choose(40))
		m.ptr[i] = (unsigned char) (want[i] = (char) choose(256));
	CHECK("M04:mmap", sc_mmap_msync(&m, 0, len) == 0, "sync: %s", sc_mmap_err(&m));
	CHECK("M04:mmap", sc_mmap_term(&m) == 0, "term: %s", sc_mmap_err(&m));
	CHECK("M04:mmap", file_get(name) == want, "the file holds other bytes");
	file_remove(name);
}

static void *own_thread_fn(void *arg)
{
	struct sc_cond *c = (struct sc_cond *) arg;
	sc_cond_signal(c, c);
	return (char *) arg + 1;
}
static void own_thread(int)
{
	struct sc_cond *c = (struct sc_cond *) harness_alloc(sizeof(*c));
	struct sc_mutex *m = (struct sc_mutex *) harness_alloc(sizeof(*m));
	struct sc_thread t;
	CHECK("M04:thread", sc_cond_init(c) == 0 && sc_mutex_init(m) == 0, "init");
	sc_thread_init(&t);
	sc_mutex_lock(m);
	CHECK("M04:thread", sc_thread_start(&t, own_thread_fn, c) == 0, "start: %s", sc_thread_err(&t));
	CHECK("M04:thread", sc_cond_wait(c) == c, "another thread's data");
	sc_mutex_unlock(m);
	void *r = nullptr;
	CHECK("M04:thread", sc_thread_join(&t, &r) == 0 && r == (char *) c + 1, "another thread's result");
	CHECK("M04:thread", sc_cond_term(c) == 0 && sc_mutex_term(m) == 0 && sc_thread_term(&t) == 0, "term");
	harness_free(c);
	harness_free(m);
}

// ------------------------------------------------------------- error text
// Failures of known cause; the text must be this one's until the next failure.
static void own_errors(int slot)
{
	struct sc_sock_poll p;
	sc_sock *s = new_sock(true, AF_INET);
	struct sc_sock_fd bad;
	struct sc_mmap m;
	struct sc_sock_pipe p0;
	CHECK("M04:errors", sc_sock_pipe_init(&p0, 1) == 0, "no pipe");
	memset((void *) &bad, 0, sizeof(bad));
	bad.fd = 900 + slot;
	poller(&p);
	memset(&m, 0, sizeof(m));
	std::string pt = sc_sock_poll_err(&p), st, mt; // of this thread
	for (int i = 0, n = (int) range(2, 6); i < n; i++) {
		uint64_t e0 = my_faults(F_EINTR);
		switch (choose(5)) {
		case 0: // a descriptor that is not open, or not registered
			if (choose(2)) {
				bad.op = SC_SOCK_NONE;
				CHECK("M04:errors", sc_sock_poll_add(&p, &bad, SC_SOCK_READ, nullptr) != 0, "registered a closed descriptor");
				pt = "Bad file descriptor";
			} else {
				struct sc_sock_fd own = p0.fdt;
				own.op = SC_SOCK_READ;
				CHECK("M04:errors", sc_sock_poll_del(&p, &own, SC_SOCK_READ, nullptr) != 0, "deregistered what was not registered");
				pt = "No such file or directory";
			}
			break;
		case 1:
			if (sc_sock_connect(s, "127.0.0.1", std::to_string(4300 + slot).c_str(), nullptr, nullptr) == 0)
				fail("M04:errors", "connected to nobody");
			st = my_faults(F_EINTR) != e0 ? "" : "Connection refused";
			break;
		case 2:
			if (sc_sock_connect(s, "nobody.invalid", "1", nullptr, nullptr) == 0)
				fail("M04:errors", "connected to nobody");
			st = "Name or service not known";
			break;
		case 3:
			if (sc_mmap_init(&m, "/nodir/x", O_RDWR, PROT_READ, MAP_SHARED, 0, 10) == 0)
				fail("M04:errors", "mapped nothing");
			mt = "No such file or directory";
			break;
		default:
			if (sc_mmap_init(&m, "/data/readonly", O_RDONLY, PROT_READ, MAP_SHARED, 5, 10) == 0)
				fail("M04:errors", "mapped at an odd offset");
			mt = "Invalid argument";
			break;
		}
		if (choose(2))
			yield();
		// the poll error is per thread, the others are per object
		if (!pt.empty())
			CHECK("M04:text", strstr(sc_sock_poll_err(&p), pt.c_str()), "the poller says '%s', not '%s'", sc_sock_poll_err(&p),
			      pt.c_str());
		else
			CHECK("M04:text", !*sc_sock_poll_err(&p), "the poller of a thread without errors says '%s'", sc_sock_poll_err(&p));
		if (!st.empty())
			CHECK("M04:text", strstr(sc_sock_error(s), st.c_str()), "the socket says '%s', not '%s'", sc_sock_error(s), st.c_str());
		if (!mt.empty())
			CHECK("M04:text", strstr(sc_mmap_err(&m), mt.c_str()), "the mapping says '%s', not '%s'", sc_mmap_err(&m), mt.c_str());
	}
	CHECK("M04:errors", sc_sock_poll_term(&p) == 0 && sc_sock_term(s) == 0 && sc_sock_pipe_term(&p0) == 0, "term");
}

static void own_time(int)
{
	uint64_t last = 0;
	for (int i = 0, n = (int) range(1, 3); i < n; i++) {
		uint64_t a = sc_time_mono_ms();
		CHECK("M04:time", a >= last, "the monotonic clock went back");
		uint64_t ms = range(1, 50);
		CHECK("M04:time", sc_time_sleep(ms) == 0, "sleep failed");
		last = sc_time_mono_ms();
		CHECK("M04:time", last >= a + ms, "slept %lu ms of %lu", (unsigned long) (last - a), (unsigned long) ms);
	}
}

static const struct {
	const char *name;
	Own fn;
} OWN[] = {
	{"uri", own_uri},	{"checksum", own_crc}, {"option", own_option}, {"list", own_list},     {"pipe", own_pipe}, {"rand", own_rand}, {"size", own_size},
	{"socket", own_socket}, {"mmap", own_mmap},    {"thread", own_thread}, {"errors", own_errors}, {"time", own_time},
};
static const uint32_t NOWN = sizeof(OWN) / sizeof(*OWN);

static uint32_t kinds() { return (uint32_t) histories().size() + NOWN; }
static void history(uint32_t k, int slot)
{
	auto &h = histories();
	trace("thread %d: history %s", slot, k < h.size() ? h[k].name : OWN[k - h.size()].name);
	if (k < h.size()) {
		h[k].fn();
		return;
	}
	// What the kernel chooses (delays, interruptions) depends on the other
	// threads: such a history is judged by its own checks only.
	choose(1000);
	Fiber *f = self();
	uint64_t r0 = f->rng[0], r1 = f->rng[1], d = f->digest, r = f->refused;
	OWN[k - h.size()].fn(slot);
	f->rng[0] = r0;
	f->rng[1] = r1;
	f->digest = d;
	f->refused = r;
	for (const char *t = sc_sock_poll_err(nullptr); *t; t++)
		digest((unsigned char) *t);
}

static void together(bool alike)
{
	swarm_malloc();
	if (choose(2))
		fault_set(F_EINTR, range(2, 30));
	ignore_sigpipe();
	sc_crc32_init();
	file_put("/data/readonly", std::string(100, 'r'));
	uint32_t k = choose(kinds());
	int n = (int) range(2, 4);
	struct Job {
		uint32_t seed;
		int count;
		uint64_t digest, refused;
	};
	std::vector<Job> jobs;
	for (int i = 0; i < n; i++)
		jobs.push_back(Job{choose(1u << 20) << 4 | (uint32_t) i, (int) range(1, 3), 0, 0});
	auto body = [&](int i) {
		for (int c = 0; c < jobs[(size_t) i].count; c++)
			history(alike ? k : choose(kinds()), i);
	};
	auto go = [&](int i) { return spawn_seeded("alone", jobs[(size_t) i].seed, [&body, i]() { body(i); }); };
	// what each does alone
	class_prefix("alone:");
	for (int i = 0; i < n; i++) {
		Fiber *f = go(i);
		join_fiber(f);
		jobs[(size_t) i].digest = f->digest;
		jobs[(size_t) i].refused = f->refused;
	}
	check_leaks();
	// and all together, in a program that starts afresh
	fresh_statics();
	sc_crc32_init();
	class_prefix("M04:");
	race_on(true);
	std::vector<Fiber *> fs;
	for (int i = 0; i < n; i++)
		fs.push_back(go(i));
	for (auto f : fs)
		join_fiber(f);
	for (int i = 0; i < n; i++)
		CHECK("result", fs[(size_t) i]->digest == jobs[(size_t) i].digest && fs[(size_t) i]->refused == jobs[(size_t) i].refused,
		      "thread %d did something else than alone", i);
	check_leaks();
}

SCENARIO(M04, mixed, 3)
{
	together(false);
}
SCENARIO(M04, alike, 3)
{
	together(true);
}
