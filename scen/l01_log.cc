// L01 records and order, L02 rotation, L03 logger faults.
#include "kernel.h"
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <ctime>
extern "C" {
#include "sc_log.h"
struct tm *simc_localtime(const time_t *t);
}
using namespace sim;

ACCEPT(L01, "mem:", "leak", "hang:", "race:", "lock:", "stream:", "assert", "exit:", "fd:")
ACCEPT(L02, "mem:", "leak", "hang:", "race:", "lock:", "stream:", "assert", "exit:", "fd:")
ACCEPT(L03, "mem:", "leak", "hang:", "race:", "lock:", "stream:", "assert", "exit:", "fd:")

namespace {
const char *lname[] = {"DEBUG", "INFO", "WARN", "ERROR", "OFF"};
const char *pcur[] = {"/log/cur0.txt", "/log/cur1.txt"};
const char *pprev[] = {"/log/prev0.txt", "/log/prev1.txt"};
enum Set { S_LEVEL, S_STDOUT, S_FILE, S_CB, S_N };
enum Dest { D_OUT, D_ERR, D_FILE0, D_FILE1, D_CB0, D_CB1, D_N };
const char *dname[] = {"stdout", "stderr", "file 0", "file 1", "callback 0", "callback 1"};

struct Chg {
	int val;
	uint64_t inv, ret;
};
struct Call {
	int id, fiber, level;
	std::string msg, name;
	uint64_t inv, ret;
	int64_t w0, w1;
	int rc;
	uint64_t hits; // faults that hit this call
	bool cb_err = false;
};
struct L {
	long zone = 0;		     // seconds east
	uint64_t clock = 1;
	std::vector<Chg> set[S_N];
	std::deque<Call> calls;
	std::vector<int> order[D_N]; // ids as found
	uint64_t cb_fail_next = 0;   // one in n
	std::map<int, std::string> names; // of threads
};
L *l;
} // namespace

static std::vector<int> possible(int s, uint64_t a, uint64_t b)
{
	std::set<int> v;
	for (auto &c : l->set[s]) {
		if (c.inv > b)
			continue;
		bool over = false;
		for (auto &d : l->set[s])
			over |= d.inv > c.ret && d.ret < a;
		if (!over)
			v.insert(c.val);
	}
	return std::vector<int>(v.begin(), v.end());
}

static int on_cb(int which, void *arg, enum sc_log_level level, const char *fmt, va_list va)
{
	CHECK("L01:callback", arg == (void *) (uintptr_t) (0x700 + which), "callback %d was called with argument %p", which,
	      arg);
	char small[64];
	va_list cp;
	va_copy(cp, va);
	int n = vsnprintf(small, sizeof(small), fmt, cp);
	va_end(cp);
	CHECK("L01:callback", n >= 0, "callback got an unusable format");
	std::string t((size_t) n + 1, 0);
	vsnprintf(&t[0], t.size(), fmt, va);
	t.resize((size_t) n);
	int id = t[0] == 'm' ? atoi(t.c_str() + 1) : -1;
	CHECK("L01:callback", id >= 0 && id < (int) l->calls.size(), "callback got an unknown message '%.40s'", t.c_str());
	Call &c = l->calls[(size_t) id];
	CHECK("L01:callback", c.msg == t && c.level == (int) level,
	      "callback got level %d and '%.60s' (%zu bytes) instead of level %d and '%.60s' (%zu bytes)", (int) level,
	      t.c_str(), t.size(), c.level, c.msg.c_str(), c.msg.size());
	l->order[D_CB0 + which].push_back(id);
	if (choose(6) == 0)
		yield();
	if (l->cb_fail_next && choose((uint32_t) l->cb_fail_next) == 0) {
		fault_fired(F_CALLBACK_ERR);
		c.cb_err = true;
		static const int e[] = {-1, 1, -5, 1024};
		return e[choose(4)];
	}
	return 0;
}
static int cb0(void *a, enum sc_log_level lv, const char *f, va_list va)
{
	return on_cb(0, a, lv, f, va);
}
static int cb1(void *a, enum sc_log_level lv, const char *f, va_list va)
{
	return on_cb(1, a, lv, f, va);
}

static std::string &my_name()
{
	return l->names.emplace(self_id(), "Thread").first->second;
}

static void op_name()
{
	static const size_t len[] = {0, 1, 7, 30, 31, 32, 60};
	size_t n = len[choose(7)];
	std::string s;
	for (size_t i = 0; i < n; i++)
		s += (char) ('a' + choose(26));
	sc_log_set_thread_name(s.c_str());
	my_name() = s.substr(0, 31);
	trace("set_thread_name(%s)", s.c_str());
}

static size_t begin(int s, int val)
{
	l->set[s].push_back(Chg{val, l->clock++, ~0ull});
	return l->set[s].size() - 1;
}
static void end(int s, size_t i) { l->set[s][i].ret = l->clock++; }

static void op_level()
{
	int v = (int) choose(5);
	std::string s = lname[v];
	for (auto &c : s)
		if (choose(2))
			c = (char) tolower(c);
	if (choose(8) == 0) {
		static const char *bad[] = {"", "INF", "INFOO", "ERR", "x", "OF", "DEBUG "};
		const char *b = bad[choose(7)];
		CHECK("L01:level", sc_log_set_level(b) < 0, "level '%s' was accepted", b);
		return;
	}
	trace("set_level(%s)", s.c_str());
	size_t i = begin(S_LEVEL, v);
	int rc = sc_log_set_level(s.c_str());
	end(S_LEVEL, i);
	CHECK("L01:level", rc == 0, "level '%s' was refused", s.c_str());
}
static void op_stdout()
{
	int v = (int) choose(2);
	trace("set_stdout(%d)", v);
	size_t i = begin(S_STDOUT, v);
	sc_log_set_stdout(v);
	end(S_STDOUT, i);
}
static void op_cb()
{
	int v = (int) choose(3) - 1;
	trace("set_callback(%d)", v);
	size_t i = begin(S_CB, v);
	if (v < 0)
		sc_log_set_callback((void *) 0x13, nullptr);
	else
		sc_log_set_callback((void *) (uintptr_t) (0x700 + v), v ? cb1 : cb0);
	end(S_CB, i);
}

// file destination: -1 none, 0, 1; returns the library's result
static int op_file(int v, bool bad)
{
	uint64_t f0 = my_faults();
	std::string longp(300, 'x');
	size_t i = begin(S_FILE, bad ? -1 : v);
	int rc;
	errno = 0;
	if (bad) {
		switch (choose(3)) {
		case 0:
			rc = sc_log_set_file(longp.c_str(), pcur[0]);
			break;
		case 1:
			rc = sc_log_set_file(pprev[0], longp.c_str());
			break;
		default:
			rc = sc_log_set_file(pprev[0], "/nodir/cur.txt");
			break;
		}
		CHECK("L03:file", rc < 0, "an unusable log file was accepted");
	} else if (v < 0) {
		uint32_t k = choose(3);
		rc = sc_log_set_file(k == 1 ? nullptr : k ? pprev[0] : nullptr, k == 1 ? pcur[0] : nullptr);
		CHECK("L03:file", rc == 0 || my_faults() != f0, "disabling the file failed: %d", rc);
	} else {
		rc = sc_log_set_file(pprev[v], pcur[v]);
		bool hit = my_faults() != f0;
		CHECK("L03:file", rc == 0 || rc == -1, "set_file returned %d", rc);
		CHECK("L03:file", rc == 0 || hit, "set_file failed with nothing wrong");
		if (rc != 0)
			l->set[S_FILE][i].val = -1;
	}
	end(S_FILE, i);
	trace("set_file(%d%s) = %d", v, bad ? ", unusable" : "", rc);
	return rc;
}

static std::string payload(size_t n, int id)
{
	std::string s;
	s.reserve(n);
	for (size_t i = 0; i < n; i++)
		s += (char) ('A' + (i * 7 + (size_t) id * 3) % 26);
	return s;
}

static Call &op_log(size_t len)
{
	int id = (int) l->calls.size();
	int level = (int) choose(4);
	std::string p = payload(len, id);
	Call c;
	c.id = id;
	c.fiber = self_id();
	c.level = level;
	c.name = my_name();
	uint32_t form = choose(4);
	char num[64];
	switch (form) {
	case 0:
		c.msg = "m" + std::to_string(id) + ":" + p + "\n";
		break;
	case 1:
		snprintf(num, sizeof(num), "m%d:%d|", id, -id * 7);
		c.msg = num + p + "|100%\n";
		break;
	case 2:
		snprintf(num, sizeof(num), "m%d:%c %lx ", id, 'Z', (unsigned long) id << 33);
		c.msg = num + p + "\n";
		break;
	default:
		c.msg = "m" + std::to_string(id) + ":\n";
		break;
	}
	c.inv = l->clock++;
	c.ret = ~0ull;
	c.w0 = wall() / 1000000000;
	c.hits = 0;
	l->calls.push_back(c);
	uint64_t f0 = my_faults();
	uint64_t stall = my_faults(F_STALL) + my_faults(F_CALLBACK_ERR);
	int rc;
	enum sc_log_level lv = (enum sc_log_level) level;
	switch (form) {
	case 0:
		if (choose(2))
			rc = sc_log_log(lv, "m%d:%s\n", id, p.c_str());
		else if (level == SC_LOG_DEBUG)
			rc = sc_log_debug("m%d:%s\n", id, p.c_str());
		else if (level == SC_LOG_INFO)
			rc = sc_log_info("m%d:%s\n", id, p.c_str());
		else if (level == SC_LOG_WARN)
			rc = sc_log_warn("m%d:%s\n", id, p.c_str());
		else
			rc = sc_log_error("m%d:%s\n", id, p.c_str());
		break;
	case 1:
		rc = sc_log_log(lv, "m%d:%d|%s|100%%\n", id, -id * 7, p.c_str());
		break;
	case 2:
		rc = sc_log_log(lv, "m%d:%c %lx %s\n", id, 'Z', (unsigned long) id << 33, p.c_str());
		break;
	default:
		rc = sc_log_log(lv, "m%d:\n", id);
		break;
	}
	Call &r = l->calls[(size_t) id];
	r.rc = rc;
	r.hits = my_faults() - f0 - (my_faults(F_STALL) + my_faults(F_CALLBACK_ERR) - stall);
	r.w1 = wall() / 1000000000;
	r.ret = l->clock++;
	trace("log #%d (%s, %zu bytes) = %d%s", id, lname[level], c.msg.size(), rc, r.hits ? ", hit by a fault" : "");
	return r;
}

static std::string header(const Call &c, int64_t t)
{
	struct tm tm;
	time_t tt = (time_t) t + l->zone;
	gmtime_r(&tt, &tm);
	char b[128];
	snprintf(b, sizeof(b), "[%d-%02d-%02d %02d:%02d:%02d][%-5s][%s] ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday,
		 tm.tm_hour, tm.tm_min, tm.tm_sec, lname[c.level], c.name.c_str());
	return b;
}

// splits what a destination received into records; returns ids
static void parse(int dest, const std::string &d)
{
	size_t p = 0;
	while (p < d.size()) {
		if (d[p] == '\n' && (dest == D_FILE0 || dest == D_FILE1)) {
			p++;
			continue;
		}
		size_t m = d.find("] m", p);
		int id = -1;
		if (m != std::string::npos && m < p + 120)
			id = atoi(d.c_str() + m + 3);
		CHECK("L01:record", id >= 0 && id < (int) l->calls.size(), "%s holds something that is no record: '%.70s'",
		      dname[dest], d.c_str() + p);
		const Call &c = l->calls[(size_t) id];
		bool ok = false;
		int64_t hi = c.ret == ~0ull ? wall() / 1000000000 : c.w1;
		std::string h;
		for (int64_t t = c.w0; t <= hi && !ok; t++) {
			h = header(c, t);
			ok = d.compare(p, h.size(), h) == 0;
		}
		CHECK("L01:record", ok, "%s: the record of message %d starts '%.80s', expected '%s'", dname[dest], id,
		      d.c_str() + p, h.c_str());
		p += h.size();
		CHECK("L01:record", d.compare(p, c.msg.size(), c.msg) == 0,
		      "%s: message %d is '%.60s', expected '%.60s' (%zu bytes)", dname[dest], id, d.c_str() + p,
		      c.msg.c_str(), c.msg.size());
		p += c.msg.size();
		l->order[dest].push_back(id);
	}
}

static bool has(const std::vector<int> &v, int x)
{
	for (int y : v)
		if (x == y)
			return true;
	return false;
}

static void check_presence(bool strict_file)
{
	for (auto &c : l->calls) {
		auto lev = possible(S_LEVEL, c.inv, c.ret);
		bool some_on = false, some_off = false;
		for (int v : lev)
			(c.level >= v ? some_on : some_off) = true;
		int n[D_N];
		bool any = false;
		for (int d = 0; d < D_N; d++) {
			n[d] = 0;
			for (int x : l->order[d])
				n[d] += x == c.id;
			any |= n[d] > 0;
			CHECK("L01:once", n[d] <= 1, "message %d is %d times in %s", c.id, n[d], dname[d]);
		}
		CHECK("L01:level", some_on || !any, "message %d below the level was written", c.id);
		bool on = any || !some_off; // then every enabled destination has it
		if (!some_off && !some_on)
			continue;
		auto so = possible(S_STDOUT, c.inv, c.ret), fi = possible(S_FILE, c.inv, c.ret),
		     cb = possible(S_CB, c.inv, c.ret);
		int std_dest = c.level == SC_LOG_ERROR ? D_ERR : D_OUT;
		CHECK("L01:dest", n[D_OUT + D_ERR - std_dest] == 0, "message %d of level %s is in %s", c.id, lname[c.level],
		      dname[D_OUT + D_ERR - std_dest]);
		auto one = [&](int d, const std::vector<int> &poss, int val, bool strict) {
			bool may = has(poss, val), must = may && poss.size() == 1;
			CHECK("L01:dest", n[d] == 0 || may, "message %d is in %s, which was not enabled", c.id, dname[d]);
			CHECK("L01:missing", !strict || !must || n[d] == 1 || !on,
			      "message %d (%s) is missing in %s", c.id, lname[c.level], dname[d]);
		};
		if (some_on) {
			one(std_dest, so, 1, true);
			one(D_FILE0, fi, 0, strict_file);
			one(D_FILE1, fi, 1, strict_file);
			one(D_CB0, cb, 0, true);
			one(D_CB1, cb, 1, true);
		}
	}
}

// the orders of all destinations, each thread's order and real time agree
static void check_order()
{
	size_t n = l->calls.size();
	std::vector<std::vector<int>> e(n);
	std::vector<int> deg(n, 0);
	auto edge = [&](int a, int b) {
		e[(size_t) a].push_back(b);
		deg[(size_t) b]++;
	};
	for (int d = 0; d < D_N; d++)
		for (size_t i = 1; i < l->order[d].size(); i++)
			edge(l->order[d][i - 1], l->order[d][i]);
	for (auto &a : l->calls)
		for (auto &b : l->calls)
			if (a.ret < b.inv)
				edge(a.id, b.id);
	std::vector<int> q;
	for (size_t i = 0; i < n; i++)
		if (!deg[i])
			q.push_back((int) i);
	size_t done = 0;
	while (!q.empty()) {
		int x = q.back();
		q.pop_back();
		done++;
		for (int y : e[(size_t) x])
			if (--deg[(size_t) y] == 0)
				q.push_back(y);
	}
	CHECK("L01:order", done == n, "the destinations and the threads disagree about the order of the records");
}

static void start_model()
{
	delete l;
	l = new L();
	static const long zone[] = {0, 0, 3600, 19800, 50400, -18000, -43200, -12600};
	l->zone = zone[choose(8)];
	set_zone(l->zone);
	l->set[S_LEVEL].push_back(Chg{SC_LOG_INFO, 0, 0});
	l->set[S_STDOUT].push_back(Chg{1, 0, 0});
	l->set[S_FILE].push_back(Chg{-1, 0, 0});
	l->set[S_CB].push_back(Chg{-1, 0, 0});
}

static size_t small_len()
{
	static const size_t n[] = {0, 1, 5, 40, 200, 480, 600, 2500};
	return n[choose(8)];
}

SCENARIO(L01, records, 5)
{
	swarm({F_STALL}, 50);
	race_on(true);
	start_model();
	// start somewhere in time, also close to the end of a second or year
	static const int64_t at_[] = {0, 999999000, 31535999000000000, 1234567890123};
	wall_step(at_[choose(4)] + (int64_t) choose(1000) * 1000000);
	CHECK("L01:init", sc_log_init() == 0, "init failed");
	int nt = (int) range(1, 4), per = (int) range(1, 6);
	uint32_t mix_ = choose(3);
	auto worker = [&]() {
		if (choose(2))
			op_name();
		for (int i = 0; i < per; i++) {
			switch (weighted({12, mix_ > 0 ? 2u : 0u, mix_ > 0 ? 2u : 0u, mix_ > 1 ? 2u : 0u, 2, 1, 1})) {
			case 0: {
				Call &c = op_log(small_len());
				CHECK("L01:rc", c.rc == 0, "log returned %d with nothing wrong", c.rc);
				break;
			}
			case 1:
				op_level();
				break;
			case 2:
				op_stdout();
				break;
			case 3:
				CHECK("L01:file", op_file((int) choose(3) - 1, false) == 0, "set_file failed");
				break;
			case 4:
				op_cb();
				break;
			case 5:
				op_name();
				break;
			default:
				advance((int64_t) choose(1200) * 1000000);
				break;
			}
		}
	};
	// the main thread sets things up, then everybody logs
	if (choose(2))
		CHECK("L01:file", op_file((int) choose(2), false) == 0, "set_file failed");
	if (choose(2))
		op_cb();
	if (choose(2))
		op_level();
	std::vector<Fiber *> f;
	for (int i = 0; i < nt; i++)
		f.push_back(spawn("logger", worker));
	if (choose(4) == 0) {
		// the program's own use of the dates of the C library
		f.push_back(spawn("calendar", [&]() {
			for (int i = 0; i < 3; i++) {
				time_t t = (time_t) choose(2000000000);
				(void) simc_localtime(&t);
				lull();
			}
		}));
	}
	for (auto x : f)
		join_fiber(x);
	CHECK("L01:term", sc_log_term() == 0, "term failed");
	std::string cap[2] = {std_capture(1), std_capture(2)};
	parse(D_OUT, cap[0]);
	parse(D_ERR, cap[1]);
	parse(D_FILE0, file_get(pcur[0]));
	parse(D_FILE1, file_get(pcur[1]));
	check_presence(true);
	check_order();
	CHECK("L01:file", !file_exists(pprev[0]) && !file_exists(pprev[1]), "a small log was rotated");
	uint64_t h = 0;
	for (int d = 0; d < D_N; d++)
		for (int x : l->order[d])
			h = h * 31 + (uint64_t) (x + d * 100);
	state_hash(h);
	check_leaks();
}

// one thread, wall clock stepping between the calls, all settings
SCENARIO(L01, alone, 2)
{
	start_model();
	CHECK("L01:init", sc_log_init() == 0, "init failed");
	int n = (int) range(1, 14);
	for (int i = 0; i < n; i++) {
		switch (weighted({10, 2, 2, 2, 2, 2, 2})) {
		case 0: {
			Call &c = op_log(small_len());
			CHECK("L01:rc", c.rc == 0, "log returned %d with nothing wrong", c.rc);
			break;
		}
		case 1:
			op_level();
			break;
		case 2:
			op_stdout();
			break;
		case 3:
			CHECK("L01:file", op_file((int) choose(3) - 1, false) == 0, "set_file failed");
			break;
		case 4:
			op_cb();
			break;
		case 5:
			op_name();
			break;
		default: {
			static const int64_t d[] = {1, -1, 3600, -3600, 86400ll * 365, -86400ll * 200, 59};
			wall_step(d[choose(7)] * 1000000000);
			break;
		}
		}
	}
	CHECK("L01:term", sc_log_term() == 0, "term failed");
	CHECK("L01:term", sc_log_term() != 0, "a second term succeeded");
	parse(D_OUT, std::string(std_capture(1)));
	parse(D_ERR, std::string(std_capture(2)));
	parse(D_FILE0, file_get(pcur[0]));
	parse(D_FILE1, file_get(pcur[1]));
	check_presence(true);
	check_order();
	check_leaks();
}

// ------------------------------------------------------------------- L02
namespace {
struct Rot {
	std::string all;	      // everything meant for the file, in order
	std::vector<size_t> bound;    // offsets where a record starts or ends
	std::string prev0;	      // previous file when the session started
	size_t from_calls = 0;	      // calls already in `all`
	size_t last_rec = 0, next_len = 0;
	bool fresh = true; // no record since the file was opened
};
} // namespace

extern "C" int sim_log_limit __attribute__((weak)); // see log_limit.h
static size_t LIMIT;

static void pick_limit(bool small)
{
	LIMIT = SC_LOG_FILE_SIZE;
	if (&sim_log_limit && small) {
		static const size_t lim[] = {1, 60, 500, 4096, 20000};
		LIMIT = choose(2) ? lim[choose(5)] : range(1, 3000);
		sim_log_limit = (int) LIMIT;
	}
}

// cur and prev are as a correct rotation leaves them
static void check_rotation(Rot &r)
{
	std::string cur = file_get(pcur[0]), prev = file_get(pprev[0]);
	CHECK("L02:suffix",
	      cur.size() <= r.all.size() && r.all.compare(r.all.size() - cur.size(), cur.size(), cur) == 0,
	      "the current file (%zu bytes) is not the end of what was written (%zu bytes)", cur.size(), r.all.size());
	size_t cut = r.all.size() - cur.size();
	if (cut == 0 && prev == r.prev0)
		return; // nothing was rotated
	bool at_bound = false;
	for (size_t b : r.bound)
		at_bound |= b == cut;
	CHECK("L02:split", at_bound, "a record was split by rotation (at byte %zu of %zu)", cut, r.all.size());
	CHECK("L02:suffix", prev.size() <= cut && r.all.compare(cut - prev.size(), prev.size(), prev) == 0,
	      "the previous file (%zu bytes) does not end where the current one (%zu bytes) begins", prev.size(),
	      cur.size());
	size_t a = cut - prev.size();
	at_bound = false;
	for (size_t b : r.bound)
		at_bound |= b == a;
	CHECK("L02:split", at_bound, "the previous file begins inside a record");
	// it was rotated because the limit was exceeded, not before
	size_t next = 0;
	for (size_t b : r.bound)
		if (b > cut) {
			next = b - cut;
			break;
		}
	CHECK("L02:early", prev.size() + next > LIMIT, "a file of %zu bytes was rotated, the limit is %zu", prev.size(),
	      LIMIT);
	probe("log rotated");
}

static void rotation_run(bool threads)
{
	swarm({F_STALL}, 70);
	start_model();
	Rot r;
	step_budget(40000000);
	size_t big = choose(3);
	bool small = choose(40) != 0;
	pick_limit(small);
	// now and then names about as long as the logger can keep: taken, they work
	static std::string lc, lp;
	lc = "/log/cur0.txt", lp = "/log/prev0.txt";
	if (choose(8) == 0) {
		lc.insert(8, range(236, 246), 'c');
		lp.insert(9, range(235, 245), 'p');
		pcur[0] = lc.c_str(), pprev[0] = lp.c_str();
		CHECK("L02:init", sc_log_init() == 0, "init failed");
		int rc = sc_log_set_file(pprev[0], pcur[0]);
		CHECK("L02:file", rc == 0 || lc.size() > 250 || lp.size() > 250, "names of %zu and %zu bytes are refused", lp.size(), lc.size());
		CHECK("L02:term", sc_log_term() == 0, "term failed");
		if (rc == 0) {
			file_put(pcur[0], "");
			probe("long log file name");
		} else {
			CHECK("L02:files", file_list().empty(), "a refused file was created");
			lc = "/log/cur0.txt", lp = "/log/prev0.txt";
		}
	}
	pcur[0] = lc.c_str(), pprev[0] = lp.c_str();
	const int64_t sizes[] = {0, 100, (int64_t) LIMIT / 2, (int64_t) LIMIT - 3000, (int64_t) LIMIT - 300,
				 (int64_t) LIMIT - 60, (int64_t) LIMIT - 1, (int64_t) LIMIT, (int64_t) LIMIT + 1,
				 (int64_t) LIMIT + 5000};
	size_t init = (size_t) std::max<int64_t>(0, sizes[choose(10)]);
	if (init) {
		std::string s = payload(init, 3);
		s.back() = '\n';
		file_put(pcur[0], s);
		r.all = s;
	}
	if (choose(2)) {
		file_put(pprev[0], "older records\n");
		r.prev0 = "older records\n";
	}
	r.bound.push_back(0);
	r.bound.push_back(r.all.size());
	int sessions = (int) range(1, 2);
	for (int s = 0; s < sessions; s++) {
		CHECK("L02:init", sc_log_init() == 0, "init failed");
		sc_log_set_stdout(false);
		sc_log_set_callback((void *) 0x700, cb0);
		CHECK("L02:init", sc_log_set_level("DEBUG") == 0, "set_level failed");
		// a session leaves the file behind once or twice
		int opens = (int) range(1, 2);
		for (int o = 0; o < opens; o++) {
			CHECK("L02:file", sc_log_set_file(pprev[0], pcur[0]) == 0, "set_file failed");
			r.all += "\n";
			r.bound.push_back(r.all.size());
			int nt = threads ? (int) range(2, 3) : 1, per = (int) range(1, small && choose(2) ? 25 : 5);
			size_t o0 = l->order[D_CB0].size();
			auto body = [&]() {
				for (int i = 0; i < per; i++) {
					size_t len = big ? choose(6) ? choose(700) : range(LIMIT / 100, LIMIT / 5 + 1)
							 : range(LIMIT / 20, LIMIT / 3 + 1);
					if (big == 2)
						len = choose(60);
					Call &c = op_log(len);
					CHECK("L02:rc", c.rc == 0, "log returned %d with nothing wrong", c.rc);
				}
			};
			if (threads) {
				std::vector<Fiber *> f;
				for (int i = 0; i < nt; i++)
					f.push_back(spawn("logger", body));
				for (auto x : f)
					join_fiber(x);
			} else {
				body();
			}
			// close it: what is buffered reaches the file
			CHECK("L02:file", sc_log_set_file(nullptr, nullptr) == 0, "closing the file failed");
			size_t last = 0;
			for (size_t i = o0; i < l->order[D_CB0].size(); i++) {
				const Call &c = l->calls[(size_t) l->order[D_CB0][i]];
				// the second it was stamped with is found in the file
				std::string rec = header(c, c.w0) + c.msg;
				if (c.w1 != c.w0) {
					std::string both = file_get(pprev[0]) + file_get(pcur[0]);
					for (int64_t t = c.w0; t <= c.w1; t++) {
						std::string x = header(c, t) + c.msg;
						if (both.find(x) != std::string::npos)
							rec = x;
					}
				}
				r.all += rec;
				r.bound.push_back(r.all.size());
				last = rec.size();
			}
			check_rotation(r);
			if (last) {
				size_t cur = file_get(pcur[0]).size();
				CHECK("L02:limit", cur <= LIMIT + last,
				      "the current file holds %zu bytes: more than the limit %zu and its last record %zu",
				      cur, LIMIT, last);
			}
			// what follows starts from what is there now
			std::string cur = file_get(pcur[0]), prev = file_get(pprev[0]);
			if (prev != r.prev0 || cur.size() != r.all.size()) {
				r.prev0 = prev;
				r.all = cur;
				std::vector<size_t> nb;
				// keep the boundaries of the part still there
				size_t cut = r.bound.back() - cur.size();
				for (size_t b : r.bound)
					if (b >= cut)
						nb.push_back(b - cut);
				r.bound = nb;
			}
		}
		CHECK("L02:term", sc_log_term() == 0, "term failed");
	}
	for (auto &n : file_list())
		CHECK("L02:files", n == pcur[0] || n == pprev[0], "a stray file %s was created", n.c_str());
	state_hash(file_get(pprev[0]).size() * 1000003 + file_get(pcur[0]).size());
	check_leaks();
}
SCENARIO(L02, rotation, 3)
{
	rotation_run(false);
}
SCENARIO(L02, rotation_threads, 1)
{
	rotation_run(true);
}

// ------------------------------------------------------------------- L03
static size_t count_in(const std::string &d, const std::string &m)
{
	size_t n = 0;
	for (size_t p = d.find(m); p != std::string::npos; p = d.find(m, p + 1))
		n++;
	return n;
}

static void try_init()
{
	bool ok = false, termed = false;
	for (int i = 0; i < 3 && !ok; i++) {
		uint64_t f0 = my_faults();
		int rc = sc_log_init();
		CHECK("L03:init", (rc != 0) == (my_faults() != f0), "init returned %d, %s", rc,
		      my_faults() != f0 ? "a step of it failed" : "nothing failed");
		ok = rc == 0;
		termed = false;
		if (!ok) {
			probe("logger init failed");
			// terminating after a failed init is harmless
			if (choose(2)) {
				sc_log_term();
				termed = true;
			} else if (choose(2))
				break; // keep using it
		}
	}
	if (!ok && (termed || choose(2))) {
		fault_set(F_ATTR_INIT, 0);
		fault_set(F_MUTEX_INIT, 0);
		CHECK("L03:init", sc_log_init() == 0, "init failed with nothing wrong");
	}
	if (!ok)
		CHECK("L03:init", sc_log_set_level("INFO") == 0, "set_level failed");
}

static void logger_faults(int nt)
{
	swarm({F_OPEN_ERR, F_WRITE_ERR, F_RENAME_ERR, F_CLOSE_ERR, F_TIME_ERR, F_DISK_FULL, F_SYSCALL_ERR, F_ATTR_INIT,
	       F_MUTEX_INIT, F_STALL},
	      10);
	race_on(true);
	step_budget(20000000);
	start_model();
	if (choose(2))
		l->cb_fail_next = range(2, 5);
	bool near_limit = choose(4) == 0;
	pick_limit(near_limit);
	if (near_limit)
		for (int i = 0; i < 2; i++) {
			std::string s = payload(LIMIT < 700 ? 1 + choose((uint32_t) LIMIT) : LIMIT - 40 - choose(600), i);
			s.back() = '\n';
			file_put(pcur[i], s);
		}
	try_init();
	uint64_t wf0 = faults_fired(F_WRITE_ERR) + faults_fired(F_DISK_FULL) + faults_fired(F_CLOSE_ERR);
	int per = (int) range(2, 8);
	bool bad_std = choose(4) == 0;
	auto body = [&]() {
		for (int i = 0; i < per; i++) {
			uint64_t of0 = my_faults(F_OPEN_ERR);
			switch (weighted({12, 2, 2, 6, 3, 1})) {
			case 0: {
				Call &c = op_log(choose(4) ? choose(60) : range(100, 6000));
				bool lev_off = false;
				auto lv = possible(S_LEVEL, c.inv, c.ret);
				for (int v : lv)
					lev_off |= c.level < v;
				if (c.hits || c.cb_err)
					CHECK("L03:report", c.rc != 0, "a log call that hit %lu fault(s)%s returned 0",
					      (unsigned long) c.hits, c.cb_err ? " and a failing callback" : "");
				else
					CHECK("L03:report", c.rc == 0, "log returned %d with nothing wrong", c.rc);
				if (my_faults(F_OPEN_ERR) != of0) {
					probe("log could not be reopened");
					// file logging stopped until the next set
					size_t k = begin(S_FILE, -1);
					end(S_FILE, k);
				}
				(void) lev_off;
				break;
			}
			case 1:
				op_level();
				break;
			case 2:
				op_stdout();
				break;
			case 3:
				op_file((int) choose(3) - 1, choose(8) == 0);
				break;
			case 4:
				op_cb();
				break;
			default:
				if (bad_std)
					for (int w = 1; w <= 2; w++)
						std_fail(w, choose(2));
				break;
			}
			if (nt == 1)
				CHECK("L03:lock", !any_mutex_locked(), "a lock is still held after the call");
		}
	};
	if (nt == 1) {
		body();
	} else {
		std::vector<Fiber *> f;
		for (int i = 0; i < nt; i++)
			f.push_back(spawn("logger", body));
		for (auto x : f)
			join_fiber(x);
	}
	CHECK("L03:lock", !any_mutex_locked(), "a lock is still held after the calls");
	// faults stop: logging works again
	faults_off();
	std_fail(1, false);
	std_fail(2, false);
	l->cb_fail_next = 0;
	bool wf = faults_fired(F_WRITE_ERR) + faults_fired(F_DISK_FULL) + faults_fired(F_CLOSE_ERR) != wf0;
	// each fault costs a record at most one destination
	auto collect = [&](int v) { return file_get(pprev[v]) + file_get(pcur[v]); };
	int which = (int) choose(2);
	CHECK("L03:resume", op_file(which, false) == 0, "set_file failed after the faults stopped");
	size_t k = begin(S_LEVEL, SC_LOG_DEBUG);
	CHECK("L03:resume", sc_log_set_level("debug") == 0, "set_level failed");
	end(S_LEVEL, k);
	k = begin(S_STDOUT, 1);
	sc_log_set_stdout(true);
	end(S_STDOUT, k);
	k = begin(S_CB, 0);
	sc_log_set_callback((void *) 0x700, cb0);
	end(S_CB, k);
	Call last = op_log(30);
	CHECK("L03:resume", last.rc == 0, "log returned %d after the faults stopped", last.rc);
	op_file(-1, false);
	std::string so = std_capture(1), se = std_capture(2);
	CHECK("L03:resume", count_in(collect(which), last.msg) == 1, "file logging did not resume");
	CHECK("L03:resume", count_in(last.level == SC_LOG_ERROR ? se : so, last.msg) == 1, "stdout logging did not resume");
	CHECK("L03:resume", has(l->order[D_CB0], last.id), "callback logging did not resume");
	// who got what
	for (auto &c : l->calls) {
		auto lv = possible(S_LEVEL, c.inv, c.ret), sv = possible(S_STDOUT, c.inv, c.ret),
		     fv = possible(S_FILE, c.inv, c.ret), cv = possible(S_CB, c.inv, c.ret);
		bool on = true, off = true;
		for (int v : lv) {
			on &= c.level >= v;
			off &= c.level < v;
		}
		std::string m = "m" + std::to_string(c.id) + ":";
		size_t no = count_in(so, m), ne = count_in(se, m);
		size_t nc = (size_t) (has(l->order[D_CB0], c.id) + has(l->order[D_CB1], c.id));
		if (off)
			CHECK("L03:off", no + ne + nc == 0, "message %d below the level was written", c.id);
		if (!on)
			continue;
		// the callback depends on nothing that can fail
		if (cv.size() == 1)
			CHECK("L03:confine", nc == (cv[0] >= 0), "the callback got message %d %zu times", c.id, nc);
		uint64_t missing = 0;
		if (sv.size() == 1 && sv[0]) {
			bool there = count_in(c.level == SC_LOG_ERROR ? se : so, c.msg) > 0;
			missing += !there;
		}
		// after a rotation the oldest records are gone
		if (fv.size() == 1 && fv[0] >= 0 && !wf && !near_limit)
			missing += count_in(collect(fv[0]), c.msg) == 0;
		CHECK("L03:confine", missing <= c.hits, "message %d is missing in %lu destination(s), %lu fault(s) hit its call",
		      c.id, (unsigned long) missing, (unsigned long) c.hits);
	}
	state_hash(l->calls.size() * 1000 + faults_fired_total());
	CHECK("L03:term", sc_log_term() == 0, "term failed");
	check_leaks();
}

SCENARIO(L03, alone, 3)
{
	logger_faults(1);
}
SCENARIO(L03, threads, 2)
{
	logger_faults((int) range(2, 3));
}

// term itself fails: reported, and nothing stays open
SCENARIO(L03, term, 1)
{
	swarm({F_CLOSE_ERR, F_WRITE_ERR}, 10);
	start_model();
	CHECK("L03:init", sc_log_init() == 0, "init failed");
	for (int i = 0; i < 3; i++) {
		if (choose(2))
			op_file((int) choose(2), false);
		if (choose(2))
			op_log(choose(100));
		if (choose(2))
			op_file(-1, false);
	}
	uint64_t f0 = my_faults();
	int rc = sc_log_term();
	CHECK("L03:term", (rc != 0) == (my_faults() != f0), "term returned %d, %s", rc,
	      my_faults() != f0 ? "closing failed" : "nothing failed");
	check_leaks();
	// and the logger can be used again
	faults_off();
	CHECK("L03:init", sc_log_init() == 0, "init failed after a term");
	Call c = op_log(10);
	CHECK("L03:resume", c.rc == 0, "log returned %d after a new init", c.rc);
	CHECK("L03:term", sc_log_term() == 0, "term failed");
	check_leaks();
}
