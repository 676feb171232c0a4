// R01: whatever fails, nothing leaks and nothing is released twice.
#include "w_cont.h"
#include "w_sock.h"
#include <fcntl.h>
#include <sys/mman.h>
extern "C" {
#include "sc_buf.h"
#include "sc_cond.h"
#include "sc_heap.h"
#include "sc_ini.h"
#include "sc_log.h"
#include "sc_mmap.h"
#include "sc_mutex.h"
#include "sc_str.h"
#include "sc_thread.h"
#include "sc_timer.h"
#include "sc_uri.h"
bool w_str_append_fmt_s(char **s, const char *a);
}
using namespace sim;

ACCEPT(R01, "leak", "mem:uaf", "mem:badfree", "mem:doublefree", "fd:", "stream:", "map:", "lock:", "thread:")

namespace {
struct Held { // what the library holds at the moment
	size_t n[7];
	static Held now()
	{
		return Held{{(size_t) live_blocks(), open_fds(), open_mappings(), open_streams(), live_addrlists(), live_mutexes(),
			     live_conds()}};
	}
	bool operator==(const Held &o) const { return !memcmp(n, o.n, sizeof(n)); }
	std::string text(const Held &o) const
	{
		static const char *w[] = {"blocks", "descriptors", "mappings", "streams", "address lists", "mutexes", "conditions"};
		std::string s;
		for (int i = 0; i < 7; i++)
			if (n[i] != o.n[i])
				s += " " + std::to_string(n[i]) + " " + w[i] + " instead of " + std::to_string(o.n[i]);
		return s;
	}
};
// Objects of the library; the memory of the object itself is the caller's.
struct Obj {
	void *p;
	int slot = 0;
	bool live = false;
	explicit Obj(size_t n) : p(harness_alloc(n)) { memset(p, 0xa5, n); }
	virtual ~Obj() { harness_free(p); }
	virtual const char *name() = 0;
	virtual bool make() = 0;
	virtual void use() = 0;
	virtual void end() = 0;	    // exactly once after make() succeeded
	virtual void end_failed() {} // where the API allows it
	virtual bool end_twice() { return false; }
	virtual bool holds() { return true; } // not after a failed operation
};
} // namespace

static std::string text(int lo, int hi)
{
	std::string s;
	for (int i = 0, n = (int) range((uint32_t) lo, (uint32_t) hi); i < n; i++)
		s += "ab,c"[choose(4)];
	return s;
}

namespace {
struct Array : Obj {
	const w_array_ops *o;
	explicit Array(const w_array_ops *o_) : Obj(o_->size_of), o(o_) {}
	const char *name() override { return "array"; }
	bool make() override { return o->init(p), true; }
	void use() override
	{
		for (int i = 0, n = (int) range(1, 20); i < n; i++)
			switch (choose(8)) {
			case 0:
				o->clear(p);
				break;
			case 1:
				if (o->size(p))
					o->del(p, choose((uint32_t) o->size(p)));
				break;
			default:
				o->add(p, choose64() & o->mask);
			}
	}
	void end() override { o->term(p); }
	bool end_twice() override { return true; }
};
struct Queue : Obj {
	const w_queue_ops *o;
	explicit Queue(const w_queue_ops *o_) : Obj(o_->size_of), o(o_) {}
	const char *name() override { return "queue"; }
	bool make() override { return o->init(p), true; }
	void use() override
	{
		for (int i = 0, n = (int) range(1, 20); i < n; i++)
			switch (choose(8)) {
			case 0:
				o->clear(p);
				break;
			case 1:
				if (!o->empty(p))
					o->del_first(p);
				break;
			case 2:
			case 3:
				o->add_first(p, choose64() & o->mask);
				break;
			default:
				o->add_last(p, choose64() & o->mask);
			}
	}
	void end() override { o->term(p); }
	bool end_twice() override { return true; }
};
struct Map : Obj {
	const w_map_ops *o;
	explicit Map(const w_map_ops *o_) : Obj(o_->size_of), o(o_) {}
	const char *name() override { return "map"; }
	uint64_t key()
	{
		static char names[40][4];
		uint32_t k = choose(40);
		if (!o->strkey)
			return k;
		snprintf(names[k], sizeof(names[k]), "k%u", k);
		return k ? (uint64_t) (uintptr_t) names[k] : 0;
	}
	bool make() override { return o->init(p, choose(3) ? 0 : range(1, 40), choose(2) ? 0 : range(20, 97)); }
	void use() override
	{
		for (int i = 0, n = (int) range(1, 30); i < n; i++)
			switch (choose(8)) {
			case 0:
				o->clear(p);
				break;
			case 1:
			case 2:
				o->del(p, key());
				break;
			default:
				o->put(p, key(), choose64() & o->vmask);
			}
	}
	void end() override { o->term(p); }
};
struct Heap : Obj {
	Heap() : Obj(sizeof(struct sc_heap)) {}
	struct sc_heap *h() { return (struct sc_heap *) p; }
	const char *name() override { return "heap"; }
	bool make() override { return sc_heap_init(h(), choose(2) ? 0 : choose(30) ? range(1, 20) : SIZE_MAX / 2); }
	void use() override
	{
		for (int i = 0, n = (int) range(1, 30); i < n; i++)
			switch (choose(8)) {
			case 0:
				sc_heap_clear(h());
				break;
			case 1:
				sc_heap_pop(h());
				break;
			default:
				sc_heap_add(h(), (int64_t) choose(50), nullptr);
			}
	}
	void end() override { sc_heap_term(h()); }
	void end_failed() override { sc_heap_term(h()); }
	bool end_twice() override { return true; }
};
struct Buf : Obj {
	Buf() : Obj(2 * sizeof(struct sc_buf)) {}
	struct sc_buf *b() { return (struct sc_buf *) p; }
	const char *name() override { return "buffer"; }
	bool make() override { return sc_buf_init(b(), choose(2) ? 0 : range(1, 200)); }
	void use() override
	{
		std::string t = text(0, 90);
		for (int i = 0, n = (int) range(1, 10); i < n; i++)
			switch (choose(10)) {
			case 0:
				sc_buf_clear(b());
				break;
			case 1:
				sc_buf_reserve(b(), choose(20) ? choose(3000) : UINT64_MAX - choose(2));
				break;
			case 2:
				sc_buf_shrink(b(), choose(300));
				break;
			case 3:
				sc_buf_put_fmt(b(), "%s%d", t.c_str(), i);
				break;
			case 4:
				sc_buf_put_text(b(), "%s", t.c_str());
				break;
			case 5: { // into another one, which takes the memory over
				struct sc_buf *d = b() + 1;
				if (!sc_buf_init(d, choose(2) ? 0 : 10))
					break;
				if (choose(2))
					sc_buf_put_str(d, t.c_str());
				sc_buf_move(d, b());
				sc_buf_term(choose(2) ? b() : d);
				if (sc_buf_cap(d))
					sc_buf_move(b(), d);
				sc_buf_term(d);
				break;
			}
			case 6:
				sc_buf_limit(b(), choose(2) ? UINT64_MAX : 400);
				break;
			default:
				sc_buf_put_str(b(), t.c_str());
			}
	}
	void end() override { sc_buf_term(b()); }
	void end_failed() override { sc_buf_term(b()); }
	bool end_twice() override { return true; }
};
struct Str : Obj {
	Str() : Obj(2 * sizeof(char *)) {}
	char **s() { return (char **) p; }
	const char *name() override { return "string"; }
	bool make() override
	{
		std::string t = text(0, 50);
		switch (choose(3)) {
		case 0:
			*s() = sc_str_create_len(t.data(), (uint32_t) t.size());
			break;
		case 1:
			*s() = sc_str_create_fmt("<%s>", t.c_str());
			break;
		default:
			*s() = sc_str_create(t.c_str());
		}
		return *s() != nullptr;
	}
	void use() override
	{
		std::string t = text(0, 50), u = text(1, 3);
		for (int i = 0, n = (int) range(1, 6); i < n; i++)
			switch (choose(10)) {
			case 0:
				sc_str_set(s(), t.c_str());
				break;
			case 1:
				sc_str_set_fmt(s(), "%s-%s", t.c_str(), choose(2) ? *s() : "x");
				break;
			case 2:
				sc_str_append(s(), t.c_str());
				break;
			case 3:
				w_str_append_fmt_s(s(), t.c_str());
				break;
			case 4:
				sc_str_trim(s(), u.c_str());
				break;
			case 5:
				sc_str_substring(s(), choose(20), choose(60));
				break;
			case 6:
			case 7:
				sc_str_replace(s(), u.c_str(), choose(2) ? t.c_str() : "");
				break;
			case 8: {
				char *save = nullptr;
				const char *tok;
				while ((tok = sc_str_token_begin(*s(), &save, ",")) != nullptr && choose(5))
					;
				sc_str_token_end(*s(), &save);
				break;
			}
			default: {
				char *d = sc_str_dup(*s());
				sc_str_destroy(&d);
				sc_str_destroy(&d);
			}
			}
	}
	void end() override { sc_str_destroy(s()); }
	void end_failed() override { sc_str_destroy(s()); }
	bool end_twice() override { return true; }
};
struct Timer : Obj {
	uint64_t at = 0;
	std::vector<uint64_t> ids;
	Timer() : Obj(sizeof(struct sc_timer)) {}
	struct sc_timer *t() { return (struct sc_timer *) p; }
	const char *name() override { return "timer"; }
	bool make() override
	{
		ids.clear();
		sc_timer_init(t(), at);
		return true;
	}
	static void fired(void *arg, uint64_t, uint64_t, void *data)
	{
		((Timer *) arg)->ids[(size_t) (uintptr_t) data] = SC_TIMER_INVALID;
	}
	void use() override
	{
		for (int i = 0, n = (int) range(1, 60); i < n; i++)
			switch (choose(12)) {
			case 0:
				if (choose(3) == 0) {
					sc_timer_clear(t());
					ids.assign(ids.size(), SC_TIMER_INVALID);
				}
				break;
			case 1:
				if (!ids.empty())
					sc_timer_cancel(t(), &ids[choose((uint32_t) ids.size())]);
				break;
			case 2:
				at += choose(300);
				sc_timer_timeout(t(), at, this, fired);
				break;
			default: {
				ids.push_back(SC_TIMER_INVALID);
				uint64_t id = sc_timer_add(t(), choose(200), 1, (void *) (uintptr_t) (ids.size() - 1));
				ids.back() = id;
			}
			}
	}
	void end() override { sc_timer_term(t()); }
	bool end_twice() override { return true; }
};
struct Uri : Obj {
	Uri() : Obj(sizeof(struct sc_uri *)) {}
	const char *name() override { return "uri"; }
	bool make() override
	{
		static const char *parts[] = {"http", ":", "//", "host", "@", "user", "[::1]", "[", ":80", ":99999", "/p/q", "?", "a=b", "#", "frag", "%s"};
		std::string t;
		for (int i = 0, n = (int) range(0, 9); i < n; i++)
			t += parts[choose(3) ? (uint32_t) i : choose(16)];
		*(struct sc_uri **) p = sc_uri_create(t.c_str());
		return *(struct sc_uri **) p != nullptr;
	}
	void use() override {}
	void end() override { sc_uri_destroy(*(struct sc_uri **) p); }
};
struct Ini : Obj {
	int left = 0;
	Ini() : Obj(1) {}
	const char *name() override { return "ini"; }
	bool make() override { return true; }
	static int item(void *arg, int, const char *, const char *, const char *)
	{
		Ini *i = (Ini *) arg;
		return i->left-- == 0 ? -1 : 0;
	}
	void use() override
	{
		std::string t;
		for (int i = 0, n = (int) range(0, 12); i < n; i++)
			t += choose(5) ? "key" + std::to_string(i) + (choose(6) ? " = " : " ") + text(0, 9) + "\n" : "[" + text(0, 5) + (choose(6) ? "]\n" : "\n");
		left = (int) choose(14);
		Held h = Held::now();
		int rc;
		if (choose(2)) {
			if (choose(8))
				file_put("/etc/x.ini", t);
			else
				file_remove("/etc/x.ini");
			rc = sc_ini_parse_file(this, item, "/etc/x.ini");
		} else {
			rc = sc_ini_parse_string(this, item, t.c_str());
		}
		Held n = Held::now();
		CHECK("R01:parse", n == h, "parsing (%d) left%s", rc, n.text(h).c_str());
	}
	void end() override {}
};
struct Log : Obj {
	Log() : Obj(1) {}
	const char *name() override { return "logger"; }
	bool make() override { return sc_log_init() == 0; }
	void use() override
	{
		static const char *n[] = {"/log/a", "/log/b", "/nodir/c"};
		for (int i = 0, k = (int) range(1, 8); i < k; i++)
			switch (choose(6)) {
			case 0: {
				uint32_t c = choose(3), v = choose(3);
				Held h = Held::now();
				int rc = sc_log_set_file(choose(8) ? n[v] : nullptr, choose(8) ? n[c] : nullptr);
				Held m = Held::now();
				if (rc != 0)
					CHECK("R01:logfile", m.n[3] <= h.n[3] && m.n[1] <= h.n[1] && m.n[0] <= h.n[0], "a log file that was refused leaves%s",
					      m.text(h).c_str());
				break;
			}
			case 1:
				sc_log_set_stdout(choose(2) != 0);
				break;
			case 2:
				sc_log_set_thread_name(text(0, 40).c_str());
				break;
			case 3:
				file_put("/log/a", std::string(SC_LOG_FILE_SIZE - range(0, 200), 'l'));
				break;
			default:
				sc_log_info("%s %d", text(0, 30).c_str(), i);
			}
	}
	void end() override { sc_log_term(); }
};
struct Mmap : Obj {
	Mmap() : Obj(sizeof(struct sc_mmap)) {}
	struct sc_mmap *m() { return (struct sc_mmap *) p; }
	const char *name() override { return "mapping"; }
	bool make() override
	{
		static const char *n[] = {"/data/a", "/data/b", "/nodir/c"};
		return sc_mmap_init(m(), n[choose(3)], choose(4) ? O_RDWR | O_CREAT : O_RDONLY, choose(4) ? PROT_READ | PROT_WRITE : PROT_READ,
				    MAP_SHARED, choose(5) ? 0 : choose(2) ? 4096 : 7, choose(3) ? range(1, 9000) : 0) == 0;
	}
	void use() override
	{
		uint32_t a = choose((uint32_t) m()->len), n = choose((uint32_t) m()->len - a + 1);
		switch (choose(3)) {
		case 0:
			sc_mmap_msync(m(), a, n);
			break;
		case 1:
			sc_mmap_mlock(m(), a, n);
			break;
		default:
			sc_mmap_munlock(m(), a, n);
		}
	}
	void end() override
	{
		// a mapping the kernel refuses to remove is nobody's fault
		uint32_t d = fault_get(F_SYSCALL_ERR);
		fault_set(F_SYSCALL_ERR, 0);
		sc_mmap_term(m());
		fault_set(F_SYSCALL_ERR, d);
	}
	void end_failed() override { sc_mmap_term(m()); }
	bool end_twice() override { return true; }
};
struct Mutex : Obj {
	Mutex() : Obj(sizeof(struct sc_mutex)) {}
	const char *name() override { return "mutex"; }
	bool make() override { return sc_mutex_init((struct sc_mutex *) p) == 0; }
	void use() override
	{
		sc_mutex_lock((struct sc_mutex *) p);
		sc_mutex_unlock((struct sc_mutex *) p);
	}
	void end() override { sc_mutex_term((struct sc_mutex *) p); }
};
struct Cond : Obj {
	Cond() : Obj(sizeof(struct sc_cond)) {}
	struct sc_cond *c() { return (struct sc_cond *) p; }
	const char *name() override { return "condition"; }
	bool make() override { return sc_cond_init(c()) == 0; }
	void use() override
	{
		sc_cond_signal(c(), this);
		sc_cond_wait(c());
	}
	void end() override { sc_cond_term(c()); }
	void end_failed() override { sc_cond_term(c()); }
	bool end_twice() override { return true; }
};
struct Thread : Obj {
	bool running = false;
	Thread() : Obj(sizeof(struct sc_thread)) {}
	struct sc_thread *t() { return (struct sc_thread *) p; }
	const char *name() override { return "thread"; }
	static void *run(void *arg)
	{
		yield();
		return arg;
	}
	bool make() override
	{
		sc_thread_init(t());
		running = false;
		if (choose(3) == 0)
			return true;
		running = sc_thread_start(t(), run, this) == 0;
		return running;
	}
	void use() override
	{
		if (choose(2)) {
			sc_thread_join(t(), nullptr);
			running = false;
		} else if (!running) {
			running = sc_thread_start(t(), run, this) == 0;
		}
	}
	void end() override { sc_thread_term(t()); }
	void end_failed() override { sc_thread_term(t()); }
	bool end_twice() override { return true; }
};
struct Pipe : Obj {
	Pipe() : Obj(sizeof(struct sc_sock_pipe)) {}
	struct sc_sock_pipe *q() { return (struct sc_sock_pipe *) p; }
	const char *name() override { return "pipe"; }
	bool make() override { return sc_sock_pipe_init(q(), 4) == 0; }
	void use() override
	{
		char b[20] = {1};
		if (pipe_unread(q()->fds[0]) < 500)
			sc_sock_pipe_write(q(), b, range(1, sizeof(b)));
		if (pipe_unread(q()->fds[0]) && choose(2))
			sc_sock_pipe_read(q(), b, range(1, sizeof(b)));
	}
	void end() override { sc_sock_pipe_term(q()); }
	void end_failed() override { sc_sock_pipe_term(q()); }
	bool end_twice() override { return true; }
};
struct Poll : Obj {
	struct sc_sock_pipe q;
	bool have = false;
	Poll() : Obj(sizeof(struct sc_sock_poll)) {}
	struct sc_sock_poll *l() { return (struct sc_sock_poll *) p; }
	const char *name() override { return "poller"; }
	bool make() override { return sc_sock_poll_init(l()) == 0; }
	void use() override
	{
		if (!have) {
			NoFaults nf;
			have = sc_sock_pipe_init(&q, 5) == 0;
		}
		switch (choose(3)) {
		case 0:
			sc_sock_poll_add(l(), &q.fdt, choose(2) ? SC_SOCK_READ : SC_SOCK_WRITE, this);
			break;
		case 1:
			sc_sock_poll_del(l(), &q.fdt, SC_SOCK_READ, this);
			break;
		default:
			sc_sock_poll_wait(l(), (int) choose(20));
		}
	}
	void end() override
	{
		if (have) {
			sc_sock_poll_del(l(), &q.fdt, SC_SOCK_READ, this);
			sc_sock_poll_del(l(), &q.fdt, SC_SOCK_WRITE, this);
			sc_sock_pipe_term(&q);
		}
		have = false;
		sc_sock_poll_term(l());
	}
	void end_failed() override { sc_sock_poll_term(l()); }
	bool end_twice() override { return !have; }
};
struct Sock : Obj {
	// a listener, one that connects to it, one that is accepted
	std::string host, port;
	int family = 0;
	bool listening = false, connected = false, accepted = false;
	Sock() : Obj(3 * sizeof(struct sc_sock)) {}
	struct sc_sock *s(int i) { return (struct sc_sock *) p + i; }
	const char *name() override { return "socket"; }
	bool make() override
	{
		static const int fam[] = {AF_INET, AF_INET6, AF_UNIX};
		family = fam[choose(3)];
		static const char *hosts[] = {"127.0.0.1", "::1"};
		host = family == AF_UNIX ? "/run/r" + std::to_string(slot) : choose(3) ? hosts[family == AF_INET6] : choose(2) ? "both.example" : "nobody.invalid";
		port = std::to_string(5000 + slot);
		for (int i = 0; i < 3; i++)
			sc_sock_init(s(i), i, false, family);
		listening = connected = accepted = false;
		return true;
	}
	void refused(const char *what, const Held &before)
	{
		Held n = Held::now();
		CHECK("R01:refused", n == before, "a failed %s leaves%s", what, n.text(before).c_str());
	}
	void use() override
	{
		char b[300];
		memset(b, 1, sizeof(b));
		Held h = Held::now();
		int rc;
		switch (choose(9)) {
		case 0:
			if (listening)
				break;
			rc = sc_sock_listen(s(0), host.c_str(), port.c_str());
			listening = rc == 0;
			if (rc != 0) {
				sc_sock_term(s(0));
				refused("listen", h);
			}
			break;
		case 1:
		case 2:
			if (connected)
				break;
			errno = 0;
			rc = sc_sock_connect(s(1), host.c_str(), port.c_str(), choose(6) ? nullptr : "127.0.0.1", choose(6) ? nullptr : "0");
			connected = rc == 0 || errno == EAGAIN;
			if (!connected) {
				sc_sock_term(s(1));
				refused("connect", h);
			}
			break;
		case 3:
			if (connected) {
				advance(2000000);
				sc_sock_finish_connect(s(1));
			}
			break;
		case 4:
		case 5:
			if (listening && !accepted) {
				accepted = sc_sock_accept(s(0), s(2)) == 0;
				if (!accepted)
					refused("accept", h);
			}
			break;
		case 6:
			rc = accepted ? (int) choose(2) + 1 : 1;
			if (rc == 1 ? connected : accepted) {
				sc_sock_send(s(rc), b, (int) range(1, sizeof(b)), 0);
				sc_sock_recv(s(rc), b, (int) range(1, sizeof(b)), 0);
			}
			break;
		case 7:
			if (connected) {
				sc_sock_set_blocking(s(1), false);
				sc_sock_set_rcvtimeo(s(1), 100);
			}
			break;
		default:
			rc = (int) choose(3);
			if ((rc == 0 && listening) || (rc == 1 && connected) || (rc == 2 && accepted)) {
				sc_sock_term(s(rc));
				(rc == 0 ? listening : rc == 1 ? connected : accepted) = false;
			}
			break;
		}
	}
	void end() override
	{
		for (int i = 0; i < 3; i++)
			sc_sock_term(s(i));
	}
	bool end_twice() override { return true; }
};
struct Notify : Obj {
	Notify() : Obj(1) {}
	const char *name() override { return "notification"; }
	bool make() override { return true; }
	void use() override
	{
		Held h = Held::now();
		sc_sock_notify_systemd("READY=1");
		Held n = Held::now();
		CHECK("R01:notify", n == h, "a notification leaves%s", n.text(h).c_str());
	}
	void end() override {}
};
} // namespace

static const int KINDS = 18;
static Obj *any(bool *log)
{
	switch (choose(KINDS)) {
	case 0:
		return new Array(&w_arrays[choose((uint32_t) w_arrays_n)]);
	case 1:
		return new Queue(&w_queues[choose((uint32_t) w_queues_n)]);
	case 2:
		return new Map(&w_maps[choose((uint32_t) w_maps_n)]);
	case 3:
		return new Heap;
	case 4:
		return new Buf;
	case 5:
		return new Str;
	case 6:
		return new Timer;
	case 7:
		return new Uri;
	case 8:
		return new Ini;
	case 9:
		if (*log)
			return new Ini;
		*log = true;
		return new Log;
	case 10:
		return new Mmap;
	case 11:
		return new Mutex;
	case 12:
		return new Cond;
	case 13:
		return new Thread;
	case 14:
		return new Pipe;
	case 15:
		return new Poll;
	case 16:
		return new Sock;
	default:
		return new Notify;
	}
}

static void soup(int slots, int ops)
{
	ignore_sigpipe();
	fd_policy((int) choose(3));
	net_host("both.example", {"::1", "127.0.0.1"});
	if (choose(2)) {
		set_env("NOTIFY_SOCKET", choose(2) ? "/run/notify" : "@notify");
		dgram_bind("/run/notify");
	}
	if (choose(6) == 0)
		disk_limit((int64_t) choose(30000));
	bool log = false;
	std::vector<Obj *> o;
	for (int i = 0; i < slots; i++) {
		o.push_back(any(&log));
		o.back()->slot = i;
	}
	for (int i = 0; i < ops; i++) {
		Obj *x = o[choose((uint32_t) slots)];
		if (!x->live) {
			Held h = Held::now();
			x->live = x->make();
			trace("make %s %d: %s", x->name(), x->slot, x->live ? "ok" : "failed");
			if (!x->live) {
				Held n = Held::now();
				CHECK("R01:create", n == h, "creating a %s failed and leaves%s", x->name(), n.text(h).c_str());
				if (choose(2)) {
					x->end_failed();
					n = Held::now();
					CHECK("R01:create", n == h, "terminating a %s that was not created leaves%s", x->name(), n.text(h).c_str());
				}
			}
		} else if (choose(6) == 0) {
			trace("end %s %d", x->name(), x->slot);
			x->end();
			x->live = false;
			if (choose(4) == 0 && x->end_twice())
				x->end();
		} else {
			trace("use %s %d", x->name(), x->slot);
			x->use();
		}
		if (choose(8) == 0)
			yield();
		if (choose(16) == 0)
			advance((int64_t) choose(20000000));
	}
	for (auto x : o)
		if (x->live)
			x->end();
	check_leaks();
	for (auto x : o)
		delete x;
}

SCENARIO(R01, soup, 16)
{
	swarm({F_MALLOC, F_MUTEX_INIT, F_ATTR_INIT, F_COND_INIT, F_THREAD_CREATE, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_READ_ERR,
	       F_WRITE_ERR, F_OPEN_ERR, F_RENAME_ERR, F_CLOSE_ERR, F_SYSCALL_ERR, F_TIME_ERR, F_DISK_FULL, F_GAI_ERR, F_NET_DELAY,
	       F_NET_SEGMENT, F_NET_RESET, F_NET_REFUSE, F_NET_SMALLBUF, F_MSYNC_ERR, F_FD_LOW});
	soup((int) range(1, 8), (int) range(4, 60));
}
// One object and few steps: every single failure of its creation is likely.
SCENARIO(R01, creation, 12)
{
	static const Fault k[] = {F_MALLOC, F_MUTEX_INIT, F_ATTR_INIT, F_COND_INIT, F_THREAD_CREATE, F_OPEN_ERR, F_SYSCALL_ERR,
				  F_DISK_FULL, F_GAI_ERR, F_NET_REFUSE, F_CLOSE_ERR};
	for (int i = 0, n = (int) range(1, 3); i < n; i++)
		fault_set(k[choose(sizeof(k) / sizeof(*k))], range(1, 4));
	soup(1, (int) range(1, 12));
}
