// Simulated kernel: descriptors, pipes, sockets, epoll, files, mappings,
// streams, perf events.
#include "internal.h"
#include "kernel.h"
#include <arpa/inet.h>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <linux/perf_event.h>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

namespace sim {
void sigpipe();
using std::shared_ptr;
using std::string;
using std::weak_ptr;

enum Kind { K_PIPE_R, K_PIPE_W, K_SOCK, K_EPOLL, K_REG, K_SINK, K_PERF };
static const char *kind_names[] = {"pipe(read end)", "pipe(write end)",
				   "socket", "epoll", "file", "sink", "perf"};

struct Epoll;
struct EpItem {
	int fd;
	uint32_t events;
	uint64_t data;
	bool armed;
	bool disabled;
};

struct File {
	Kind kind;
	bool nonblock = false;
	bool open = true;
	std::vector<Fiber *> waiters;
	std::vector<std::pair<weak_ptr<Epoll>, int>> watch;
	VC vc;
	explicit File(Kind k) : kind(k) {}
	virtual ~File() {}
	virtual uint32_t ready() { return 0; }
	void changed();
	void wait(const char *why) { (void) wait_until(why, -1); }
	bool wait_until(const char *why, int64_t t)
	{
		waiters.push_back(self());
		bool ok = block_until(why, t);
		for (size_t i = 0; i < waiters.size(); i++)
			if (waiters[i] == self()) {
				waiters.erase(waiters.begin() + (long) i);
				break;
			}
		return ok;
	}
};
typedef shared_ptr<File> FileP;

struct Epoll : File {
	std::map<std::pair<int, File *>, std::pair<EpItem, weak_ptr<File>>> items;
	Epoll() : File(K_EPOLL) {}
};

void File::changed()
{
	for (auto f : waiters)
		wake(f);
	waiters.clear();
	for (auto &w : watch) {
		auto ep = w.first.lock();
		if (!ep)
			continue;
		auto it = ep->items.find({w.second, this});
		if (it == ep->items.end())
			continue;
		it->second.first.armed = true;
		for (auto f : ep->waiters)
			wake(f);
		ep->waiters.clear();
	}
}

struct PipeBuf {
	std::deque<unsigned char> q;
	size_t cap = 65536;
	bool w_open = true, r_open = true;
	VC vc;
	weak_ptr<File> r, w;
};
struct Pipe : File {
	shared_ptr<PipeBuf> b;
	Pipe(Kind k, shared_ptr<PipeBuf> x) : File(k), b(x) {}
	uint32_t ready() override
	{
		uint32_t r = 0;
		if (kind == K_PIPE_R) {
			if (!b->q.empty())
				r |= EPOLLIN;
			if (!b->w_open)
				r |= EPOLLHUP;
		} else {
			if (b->q.size() < b->cap)
				r |= EPOLLOUT;
			if (!b->r_open)
				r |= EPOLLERR;
		}
		return r;
	}
};

struct Addr {
	int family = 0;
	string ip;	   // canonical text, or raw unix name
	int port = 0;
};

enum SState { S_NEW, S_LISTEN, S_CONNECTING, S_CONN, S_DEAD };
struct Sock : File {
	int domain, type;
	SState st = S_NEW;
	bool bound = false, explicit_bind = false;
	bool reuse = false, v6only = false;
	Addr local, remote;
	weak_ptr<Sock> peer;
	// receive side
	std::deque<unsigned char> wire, q;
	int64_t last_delivery = 0;
	bool fin_in = false;  // EOF received
	bool fin_sent = false; // we sent FIN
	bool shut_rd = false;
	bool peer_gone = false; // peer closed completely
	bool was_reset = false;
	int so_error = 0;
	size_t cap = 65536;
	int64_t rcvtimeo = 0, sndtimeo = 0; // ns
	std::deque<shared_ptr<Sock>> acceptq;
	size_t backlog = 0;
	VC rx_vc;
	int connect_err = -1;
	Sock(int d, int t) : File(K_SOCK), domain(d), type(t) {}
	size_t room()
	{
		auto p = peer.lock();
		if (!p)
			return 0;
		size_t used = p->wire.size() + p->q.size();
		return used < p->cap ? p->cap - used : 0;
	}
	uint32_t ready() override
	{
		uint32_t r = 0;
		if (type == SOCK_DGRAM)
			return EPOLLOUT;
		if (st == S_NEW)
			return EPOLLOUT | EPOLLHUP;
		if (st == S_LISTEN)
			return acceptq.empty() ? 0 : EPOLLIN;
		if (st == S_CONNECTING)
			return 0;
		if (so_error || was_reset)
			r |= EPOLLERR | EPOLLHUP | EPOLLRDHUP | EPOLLIN |
			     EPOLLOUT;
		if (st == S_DEAD)
			return r | EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT |
			       EPOLLRDHUP;
		if (!q.empty() || fin_in)
			r |= EPOLLIN;
		if (fin_in)
			r |= EPOLLRDHUP;
		if (fin_in && fin_sent)
			r |= EPOLLHUP;
		if (peer_gone || room() > 0 || fin_sent)
			r |= EPOLLOUT;
		return r;
	}
};
typedef shared_ptr<Sock> SockP;

struct Inode {
	size_t off; // into the backing memory
	char *data;
	size_t size = 0;
	std::map<size_t, string> durable; // page -> content
	size_t durable_size = 0;
	int id = 0;
	unsigned mode = 0644;	// the program is an ordinary user, the owner
	std::set<size_t> holes; // pages without space on the disk
};
typedef shared_ptr<Inode> InodeP;
static const size_t INODE_SPACE = 16u << 20;
static const size_t PG = 4096;

struct RegF : File {
	InodeP ino;
	size_t pos = 0;
	int flags;
	RegF(InodeP i, int f) : File(K_REG), ino(i), flags(f) {}
	uint32_t ready() override { return EPOLLIN | EPOLLOUT; }
};
struct Sink : File {
	string data;
	int mode = 0;
	Sink() : File(K_SINK) {}
	uint32_t ready() override { return EPOLLOUT; }
};
struct PerfFd : File {
	size_t idx;
	explicit PerfFd(size_t i) : File(K_PERF), idx(i) {}
};

struct Mapping {
	char *base;
	size_t len; // page multiple
	int prot;
	bool shared;
	InodeP ino;
	size_t off;
	std::vector<bool> locked;
};

struct SimFILE {
	uint64_t magic = 0x51f11e;
	InodeP ino;
	string *cap = nullptr; // std streams
	string path;
	bool rd = false, wr = false, append = false;
	size_t pos = 0;
	string wbuf;
	size_t bufsz = 4096;
	bool err = false, eof = false, closed = false, is_std = false;
	bool bad_sector = false; // reads fail from here on
	int unget = -1;
	Fiber *lock_owner = nullptr;
	int lock_depth = 0;
	std::vector<Fiber *> lock_waiters;
	VC vc;
	int fileno = -1;
	bool mem = false; // fmemopen, open_memstream: no device behind it
	std::shared_ptr<string> store;
	char **out = nullptr;
	size_t *outn = nullptr;
};

struct AddrList {
	bool live;
	std::vector<addrinfo> ai;
	std::vector<sockaddr_storage> ss;
};

struct K {
	std::map<int, FileP> fds;
	std::set<int> ever;
	int policy = 0;
	int next_fresh = 3;
	std::map<string, std::vector<string>> hosts;
	std::map<string, Route> routes;
	std::map<std::pair<string, int>, weak_ptr<Sock>> tcp4, tcp6;
	std::vector<weak_ptr<Sock>> tcps;
	struct Wait60 { // an address that a closed connection still occupies
		Addr a;
		bool reuse;
		int64_t until;
	};
	std::vector<Wait60> wait60;
	std::map<string, weak_ptr<Sock>> unixs;
	std::set<string> dgram_names;
	std::vector<Datagram> dgrams;
	std::vector<std::unique_ptr<AddrList>> lists;
	int next_port = 40000;
	int64_t latency = 20000;
	size_t bufsize = 65536;
	std::map<string, InodeP> files;
	int next_ino = 0;
	int64_t free_bytes = -1;
	uint64_t disk_ops = 0, opens = 0;
	std::vector<Mapping> maps;
	size_t map_top = 0;
	std::vector<std::unique_ptr<SimFILE>> streams;
	SimFILE *out = nullptr, *err = nullptr;
	string cap1, cap2;
	bool std_bad[3] = {};
	bool lenient_close = false;
	std::map<int, shared_ptr<Sink>> sinks; // last one at each number
	PerfStub perf;
	int lacks = 0; // a family this host does not have
};
static K *k;

static int memfd = -1;
static char *kview;
static size_t kview_len = 2048ull << 20;
static size_t page_space = 512ull << 20;

static void backing_init()
{
	if (memfd >= 0)
		return;
	memfd = (int) syscall(SYS_memfd_create, "simdisk", 0);
	if (memfd < 0 || ftruncate(memfd, (off_t) kview_len) != 0)
		abort();
	kview = (char *) mmap((void *) 0x540000000000ull, kview_len,
			      PROT_READ | PROT_WRITE,
			      MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
			      memfd, 0);
	page_base = (char *) mmap((void *) 0x530000000000ull, page_space,
				  PROT_NONE,
				  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
					  MAP_FIXED_NOREPLACE,
				  -1, 0);
	if (kview == MAP_FAILED || page_base == MAP_FAILED)
		abort();
	page_end = page_base + page_space;
}

NoFaults::NoFaults() { g.cur->nofault++; }
NoFaults::~NoFaults() { g.cur->nofault--; }

// ------------------------------------------------------------------ fds
static int fd_alloc(FileP f)
{
	int fd;
	if (k->policy == 1) {
		fd = k->next_fresh++;
	} else {
		fd = k->policy == 2 ? 0 : 3;
		while (k->fds.count(fd))
			fd++;
		if (fd == 0)
			fault_fired(F_FD_LOW);
	}
	k->fds[fd] = f;
	k->ever.insert(fd);
	event(0xfd, (uint64_t) fd, f->kind);
	return fd;
}
static FileP fd_get(int fd)
{
	auto it = k->fds.find(fd);
	if (it == k->fds.end())
		return nullptr;
	return it->second;
}
void fd_policy(int p)
{
	k->policy = p;
	if (p == 2)
		for (int i = 0; i < 3; i++)
			k->fds.erase(i);
}
bool fd_is_open(int fd) { return k->fds.count(fd) != 0; }
bool fd_nonblock(int fd)
{
	auto f = fd_get(fd);
	return f && f->nonblock;
}
const char *fd_kind(int fd)
{
	auto f = fd_get(fd);
	return f ? kind_names[f->kind] : "closed";
}
size_t open_fds()
{
	size_t n = 0;
	for (auto &f : k->fds)
		if (f.second->kind != K_SINK)
			n++;
	return n;
}
string fd_list()
{
	string s;
	for (auto &f : k->fds)
		if (f.second->kind != K_SINK)
			s += " " + std::to_string(f.first) + "=" +
			     kind_names[f.second->kind];
	return s;
}
uint32_t fd_ready(int fd)
{
	auto f = fd_get(fd);
	return f ? f->ready() : 0;
}
size_t perf_fds_open()
{
	size_t n = 0;
	for (auto &f : k->fds)
		n += f.second->kind == K_PERF;
	return n;
}
size_t open_streams()
{
	size_t n = 0;
	for (auto &s : k->streams)
		n += !s->closed && !s->is_std;
	return n;
}
size_t open_mappings() { return k->maps.size(); }
size_t live_addrlists()
{
	size_t n = 0;
	for (auto &l : k->lists)
		n += l->live;
	return n;
}
void fd_lenient_close() { k->lenient_close = true; }
int sink_open()
{
	auto s = std::make_shared<Sink>();
	int fd = fd_alloc(s);
	k->sinks[fd] = s;
	return fd;
}
string &sink_data(int fd) { return k->sinks[fd]->data; }
bool fd_set_nonblock(int fd)
{
	auto f = fd_get(fd);
	if (f)
		f->nonblock = true;
	return f != nullptr;
}
size_t pipe_unread(int fd)
{
	auto f = fd_get(fd);
	return f && f->kind == K_PIPE_R ? static_cast<Pipe *>(f.get())->b->q.size() : 0;
}
void sink_fail(int fd, int m) { static_cast<Sink *>(fd_get(fd).get())->mode = m; }
string &std_capture(int w) { return w == 1 ? k->cap1 : k->cap2; }
void std_fail(int w, bool on) { k->std_bad[w] = on; }
PerfStub &perf() { return k->perf; }
void PerfStub::set(bool on)
{
	for (size_t i = 0; i < evs.size(); i++)
		set(i, on);
}
void PerfStub::set(size_t i, bool on)
{
	Ev &e = evs[i];
	if (e.enabled)
		e.on_ns += g.now_ns - e.since;
	e.since = g.now_ns;
	e.enabled = on && e.open;
}

void kernel_leaks(string &out)
{
	if (open_fds())
		out += " open descriptors:" + fd_list() + ";";
	if (open_streams())
		out += " " + std::to_string(open_streams()) + " open stream(s);";
	if (open_mappings())
		out += " " + std::to_string(open_mappings()) + " mapping(s);";
	if (live_addrlists())
		out += " address list not freed;";
}

void check_leaks()
{
	string s;
	mem_leaks(s);
	kernel_leaks(s);
	posix_leaks(s);
	if (!s.empty())
		fail("leak", "left behind:%s", s.c_str());
}

// --------------------------------------------------------------- pipes
int failed(int e)
{
	if (g.cur && e > 0 && e < 192)
		g.cur->failed[1][e / 64] |= 1ull << (e % 64);
	return e;
}
static ssize_t err(int e)
{
	errno = failed(e);
	return -1;
}

static ssize_t pipe_read(FileP f, void *b, size_t n)
{
	Pipe *p = static_cast<Pipe *>(f.get());
	if (fault(F_READ_ERR))
		return err(EIO);
	if (n == 0)
		return 0;
	for (;;) {
		if (fault(F_EINTR))
			return err(EINTR);
		if (!p->b->q.empty())
			break;
		if (!p->b->w_open)
			return 0;
		if (f->nonblock)
			return err(EAGAIN);
		f->wait("read(pipe)");
	}
	size_t m = p->b->q.size() < n ? p->b->q.size() : n;
	if (m > 1 && fault(F_SHORT_READ))
		m = range(1, (uint32_t) (m - 1 > 1000000 ? 1000000 : m - 1));
	touch(b, m, true);
	// touching may have let another thread run
	if (p->b->q.empty())
		return pipe_read(f, b, n);
	if (p->b->q.size() < m)
		m = p->b->q.size();
	unsigned char *d = (unsigned char *) b;
	for (size_t i = 0; i < m; i++) {
		d[i] = p->b->q.front();
		p->b->q.pop_front();
	}
	hb_acquire(p->b->vc);
	if (auto w = p->b->w.lock())
		w->changed();
	return (ssize_t) m;
}

static ssize_t pipe_write(FileP f, const void *b, size_t n)
{
	Pipe *p = static_cast<Pipe *>(f.get());
	if (fault(F_WRITE_ERR))
		return err(EIO);
	if (fault(F_EINTR))
		return err(EINTR);
	if (n == 0)
		return 0;
	touch(b, n, false);
	const unsigned char *s = (const unsigned char *) b;
	size_t done = 0;
	while (done < n) {
		if (!p->b->r_open) {
			if (done)
				break;
			sigpipe();
			return err(EPIPE);
		}
		size_t room = p->b->cap > p->b->q.size()
				      ? p->b->cap - p->b->q.size()
				      : 0;
		// writes up to PIPE_BUF are atomic
		size_t need = n <= PIPE_BUF ? n : 1;
		if (p->b->cap < need)
			need = 1;
		if (room < need) {
			if (f->nonblock) {
				if (done)
					break;
				return err(EAGAIN);
			}
			if (done && fault(F_SHORT_WRITE))
				break;
			f->wait("write(pipe)");
			if (fault(F_EINTR)) {
				if (done)
					break;
				return err(EINTR);
			}
			continue;
		}
		size_t m = n - done < room ? n - done : room;
		hb_release(p->b->vc);
		p->b->q.insert(p->b->q.end(), s + done, s + done + m);
		done += m;
		if (auto r = p->b->r.lock())
			r->changed();
		sched_point(6);
	}
	return (ssize_t) done;
}

// -------------------------------------------------------------- sockets
void net_host(const char *n, std::vector<string> ips) { k->hosts[n] = ips; }
void net_lacks(int family) { k->lacks = family; }
void net_route(const char *ip, Route r) { k->routes[ip] = r; }
void net_latency(int64_t ns) { k->latency = ns; }
void net_bufsize(size_t n) { k->bufsize = n; }
std::vector<Datagram> &datagrams() { return k->dgrams; }
bool dgram_bind(const string &n) { return k->dgram_names.insert(n).second; }

static void do_reset(SockP s)
{
	if (!s || s->st == S_DEAD)
		return;
	s->was_reset = true;
	s->so_error = ECONNRESET;
	s->wire.clear();
	s->fin_in = true;
	s->peer_gone = true;
	s->changed();
}
void net_reset_fd(int fd)
{
	auto f = fd_get(fd);
	if (!f || f->kind != K_SOCK)
		return;
	SockP s = std::static_pointer_cast<Sock>(f);
	fault_fired(F_NET_RESET);
	auto p = s->peer.lock();
	do_reset(s);
	do_reset(p);
}
bool net_was_reset(int fd)
{
	auto f = fd_get(fd);
	return f && f->kind == K_SOCK && static_cast<Sock *>(f.get())->was_reset;
}
size_t stream_unread(int fd)
{
	auto f = fd_get(fd);
	if (!f || f->kind != K_SOCK)
		return 0;
	return static_cast<Sock *>(f.get())->q.size();
}

static int64_t delivery_time(Sock *to)
{
	int64_t d = k->latency;
	if (fault(F_NET_DELAY))
		d += range(1, 2000) * 100000ll;
	int64_t t = g.now_ns + d;
	if (t < to->last_delivery)
		t = to->last_delivery;
	to->last_delivery = t;
	return t;
}

static void xmit(SockP to, const unsigned char *b, size_t n)
{
	to->wire.insert(to->wire.end(), b, b + n);
	hb_release(to->rx_vc);
	bool local = to->domain == AF_UNIX;
	size_t left = n;
	while (left) {
		size_t m = left;
		if (m > 1 && fault(F_NET_SEGMENT))
			m = range(1, (uint32_t) (m - 1));
		left -= m;
		if (local) {
			size_t c = m < to->wire.size() ? m : to->wire.size();
			to->q.insert(to->q.end(), to->wire.begin(),
				     to->wire.begin() + (long) c);
			to->wire.erase(to->wire.begin(),
				       to->wire.begin() + (long) c);
			to->changed();
			continue;
		}
		weak_ptr<Sock> w = to;
		at(delivery_time(to.get()), [w, m]() {
			auto s = w.lock();
			if (!s || s->wire.empty())
				return;
			size_t c = m < s->wire.size() ? m : s->wire.size();
			s->q.insert(s->q.end(), s->wire.begin(),
				    s->wire.begin() + (long) c);
			s->wire.erase(s->wire.begin(),
				      s->wire.begin() + (long) c);
			s->changed();
		});
	}
}

static void xmit_fin(SockP to, bool gone)
{
	if (!to)
		return;
	hb_release(to->rx_vc);
	if (to->domain == AF_UNIX) {
		to->fin_in = true;
		to->peer_gone |= gone;
		to->changed();
		return;
	}
	weak_ptr<Sock> w = to;
	at(delivery_time(to.get()), [w, gone]() {
		auto s = w.lock();
		if (!s)
			return;
		s->fin_in = true;
		s->peer_gone |= gone;
		s->changed();
	});
}

static void sock_closed(SockP s)
{
	auto p = s->peer.lock();
	if (s->st == S_LISTEN) {
		for (auto &c : s->acceptq) {
			auto q = c->peer.lock();
			c->st = S_DEAD;
			do_reset(q);
		}
		s->acceptq.clear();
	}
	if (p) {
		if (!s->q.empty() || s->so_error) {
			// unread data: the peer sees a reset
			if (s->domain == AF_UNIX) {
				p->so_error = ECONNRESET;
				p->peer_gone = true;
				p->fin_in = true;
				p->changed();
			} else {
				weak_ptr<Sock> w = p;
				at(delivery_time(p.get()), [w]() {
					do_reset(w.lock());
				});
			}
		} else {
			xmit_fin(p, true);
		}
	}
	if (s->st == S_CONN && s->domain != AF_UNIX && s->type == SOCK_STREAM && !s->fin_in && !s->was_reset && !s->so_error && s->q.empty())
		k->wait60.push_back({s->local, s->reuse, g.now_ns + 60000000000ll}); // closed first
	s->st = S_DEAD;
}

static bool is_any(const Addr &a)
{
	return a.ip == "0.0.0.0" || a.ip == "::";
}
static bool overlap(const Addr &a, bool a_only, const Addr &b, bool b_only)
{
	if (a.port != b.port)
		return false;
	if (a.family == b.family)
		return a.ip == b.ip || is_any(a) || is_any(b);
	return (a.ip == "::" && !a_only) || (b.ip == "::" && !b_only);
}
// Is the address taken by something else than a socket bound to the very same one?
static bool port_taken(const SockP &s, const Addr &a, bool listening)
{
	for (auto &w : k->tcps) {
		auto x = w.lock();
		if (x && x != s && x->open && x->bound && overlap(a, s->v6only, x->local, x->v6only) &&
		    (x->st == S_LISTEN || (!listening && (!s->reuse || !x->reuse))))
			return true;
	}
	if (listening)
		return false;
	for (auto &t : k->wait60)
		if (t.until > g.now_ns && overlap(a, s->v6only, t.a, true) && (!s->reuse || !t.reuse))
			return true;
	return false;
}
static Addr from_sockaddr(const struct sockaddr *sa, socklen_t len)
{
	Addr a;
	char t[64];
	touch(sa, len, false);
	a.family = sa->sa_family;
	if (sa->sa_family == AF_INET) {
		auto s = (const struct sockaddr_in *) sa;
		a.ip = inet_ntop(AF_INET, &s->sin_addr, t, sizeof(t));
		a.port = ntohs(s->sin_port);
	} else if (sa->sa_family == AF_INET6) {
		auto s = (const struct sockaddr_in6 *) sa;
		a.ip = inet_ntop(AF_INET6, &s->sin6_addr, t, sizeof(t));
		a.port = ntohs(s->sin6_port);
	} else if (sa->sa_family == AF_UNIX) {
		auto s = (const struct sockaddr_un *) sa;
		size_t m = len > 2 ? len - 2 : 0;
		if (m && s->sun_path[0] == 0)
			a.ip = string(s->sun_path, m);
		else
			a.ip = string(s->sun_path, strnlen(s->sun_path, m));
	}
	return a;
}
static void to_sockaddr(const Addr &a, int dom, struct sockaddr *out,
			socklen_t *len)
{
	struct sockaddr_storage st;
	memset(&st, 0, sizeof(st));
	socklen_t n = 2;
	st.ss_family = (sa_family_t) dom;
	if (dom == AF_INET) {
		auto s = (struct sockaddr_in *) &st;
		if (!a.ip.empty())
			inet_pton(AF_INET, a.ip.c_str(), &s->sin_addr);
		s->sin_port = htons((uint16_t) a.port);
		n = sizeof(*s);
	} else if (dom == AF_INET6) {
		auto s = (struct sockaddr_in6 *) &st;
		if (!a.ip.empty())
			inet_pton(AF_INET6, a.ip.c_str(), &s->sin6_addr);
		s->sin6_port = htons((uint16_t) a.port);
		n = sizeof(*s);
	} else if (!a.ip.empty()) {
		auto s = (struct sockaddr_un *) &st;
		memcpy(s->sun_path, a.ip.data(), a.ip.size());
		n = (socklen_t) (2 + a.ip.size() + (a.ip[0] ? 1 : 0));
	}
	// only the bytes of the address are written, as the kernel does
	socklen_t m = n < *len ? n : *len;
	touch(out, m, true);
	memcpy(out, &st, m);
	*len = n;
}

static std::map<std::pair<string, int>, weak_ptr<Sock>> &table(int dom)
{
	return dom == AF_INET ? k->tcp4 : k->tcp6;
}
static SockP find_listener(const Addr &a)
{
	if (a.family == AF_UNIX) {
		auto it = k->unixs.find(a.ip);
		if (it == k->unixs.end())
			return nullptr;
		return it->second.lock();
	}
	auto &t = table(a.family);
	auto it = t.find({a.ip, a.port});
	SockP s = it == t.end() ? nullptr : it->second.lock();
	if (!s) {
		it = t.find({a.family == AF_INET ? "0.0.0.0" : "::", a.port});
		s = it == t.end() ? nullptr : it->second.lock();
	}
	return s;
}

// server side of an accepted connection; returns errno
static int establish(SockP c)
{
	SockP l = find_listener(c->remote);
	if (!l || l->st != S_LISTEN || !l->open)
		return ECONNREFUSED;
	if (l->acceptq.size() > l->backlog)
		return EAGAIN;
	SockP s = std::make_shared<Sock>(c->domain, c->type);
	s->st = S_CONN;
	s->local = c->remote;
	s->remote = c->local;
	s->cap = k->bufsize;
	s->reuse = l->reuse;
	s->v6only = l->v6only;
	s->bound = true;
	s->peer = c;
	c->peer = s;
	c->st = S_CONN;
	if (s->domain != AF_UNIX)
		k->tcps.push_back(s);
	l->acceptq.push_back(s);
	l->changed();
	c->changed();
	return 0;
}

static int auto_bind(Sock *s, const string &ip)
{
	if (s->bound)
		return 0;
	s->bound = true;
	s->local.family = s->domain;
	s->local.ip = ip;
	s->local.port = k->next_port++;
	return 0;
}

// --------------------------------------------------------------- disk
static InodeP new_inode()
{
	backing_init();
	InodeP i = std::make_shared<Inode>();
	i->id = k->next_ino++;
	i->off = (size_t) i->id * INODE_SPACE;
	if (i->off + INODE_SPACE > kview_len)
		abandon("too many files");
	i->data = kview + i->off;
	return i;
}
static int inodes_used; // to clear between runs

bool file_exists(const string &p) { return k->files.count(p) != 0; }
string file_get(const string &p)
{
	auto it = k->files.find(p);
	if (it == k->files.end())
		return "";
	return string(it->second->data, it->second->size);
}
static void make_durable(Inode *i)
{
	i->durable.clear();
	for (size_t o = 0; o < i->size; o += PG)
		i->durable[o / PG] = string(i->data + o, PG);
	i->durable_size = i->size;
}
void file_put(const string &p, const string &c)
{
	auto it = k->files.find(p);
	InodeP i = it == k->files.end() ? new_inode() : it->second;
	if (c.size() > INODE_SPACE)
		abort();
	if (i->size > c.size())
		memset(i->data + c.size(), 0, i->size - c.size());
	memcpy(i->data, c.data(), c.size());
	i->size = c.size();
	make_durable(i.get());
	k->files[p] = i;
}
void file_remove(const string &p) { k->files.erase(p); }
std::vector<string> file_list()
{
	std::vector<string> v;
	for (auto &f : k->files)
		v.push_back(f.first);
	return v;
}
void disk_limit(int64_t n) { k->free_bytes = n; }
int64_t disk_free() { return k->free_bytes; }
size_t file_holes(const string &p, size_t off, size_t len)
{
	auto it = k->files.find(p);
	size_t n = 0;
	if (it != k->files.end())
		for (size_t o : it->second->holes)
			n += o * PG < off + len && (o + 1) * PG > off;
	return n;
}
uint64_t disk_ops() { return k->disk_ops; }
uint64_t file_opens() { return k->opens; }

static bool take_space(size_t n)
{
	if (fault(F_DISK_FULL))
		return false;
	if (k->free_bytes < 0)
		return true;
	if ((int64_t) n > k->free_bytes)
		return false;
	k->free_bytes -= (int64_t) n;
	return true;
}

// background write-back of one dirty page
static void maybe_writeback()
{
	if (g.fden[F_WRITEBACK] == 0)
		return;
	for (auto &f : k->files) {
		Inode *i = f.second.get();
		for (size_t o = 0; o < i->size; o += PG) {
			auto it = i->durable.find(o / PG);
			bool dirty = it == i->durable.end() ||
				     memcmp(it->second.data(), i->data + o, PG);
			if (dirty && fault(F_WRITEBACK))
				i->durable[o / PG] = string(i->data + o, PG);
		}
	}
}

void disk_crash()
{
	fault_fired(F_CRASH);
	for (auto &f : k->files) {
		Inode *i = f.second.get();
		for (size_t o = 0; o < i->size; o += PG) {
			auto it = i->durable.find(o / PG);
			string old = it == i->durable.end() ? string(PG, 0)
							    : it->second;
			if (memcmp(old.data(), i->data + o, PG) == 0)
				continue;
			uint32_t c = choose(4);
			if (c == 0 || c == 1) {
				memcpy(i->data + o, old.data(), PG);
			} else if (c == 2) {
				fault_fired(F_WRITEBACK);
				// written back completely before the crash
			} else {
				fault_fired(F_WRITEBACK);
				for (size_t s = 0; s < PG; s += 512)
					if (choose(2) == 0)
						memcpy(i->data + o + s,
						       old.data() + s, 512);
			}
		}
		make_durable(i);
	}
	// every process resource is gone
	for (auto &m : k->maps)
		mmap(m.base, m.len, PROT_NONE,
		     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED,
		     -1, 0);
	k->maps.clear();
	for (auto it = k->fds.begin(); it != k->fds.end();) {
		if (it->second->kind == K_REG)
			it = k->fds.erase(it);
		else
			++it;
	}
	for (auto &s : k->streams)
		if (!s->is_std)
			s->closed = true;
}

static Mapping *find_map(const char *p)
{
	for (auto &m : k->maps)
		if (p >= m.base && p < m.base + m.len)
			return &m;
	return nullptr;
}
bool page_addressable(const char *p, size_t n, bool write)
{
	while (n) {
		Mapping *m = find_map(p);
		if (!m)
			return false;
		if (!(m->prot & (write ? PROT_WRITE : PROT_READ)))
			return false;
		size_t o = (size_t) (p - m->base);
		size_t fo = m->off + o;
		if (m->ino) {
			size_t lim = (m->ino->size + PG - 1) & ~(PG - 1);
			if (fo >= lim)
				return false;
		}
		size_t page_left = PG - (fo & (PG - 1));
		size_t c = n < page_left ? n : page_left;
		p += c;
		n -= c;
	}
	return true;
}
bool page_locked(const void *p)
{
	Mapping *m = find_map((const char *) p);
	return m && m->locked[(size_t) ((const char *) p - m->base) / PG];
}
bool page_mapped(const void *p) { return find_map((const char *) p) != nullptr; }

static SimFILE *new_stream()
{
	k->streams.emplace_back(new SimFILE());
	return k->streams.back().get();
}

} // namespace sim
using namespace sim;

extern "C" {
void *simc_realloc(void *, size_t);
FILE *simc_stdout, *simc_stderr, *simc_stdin;
}

namespace sim {
void kernel_reset()
{
	if (k) {
		for (auto &m : k->maps)
			mmap(m.base, m.len, PROT_NONE,
			     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
				     MAP_FIXED,
			     -1, 0);
		if (k->next_ino > inodes_used)
			inodes_used = k->next_ino;
		for (int i = 0; i < k->next_ino; i++)
			fallocate(memfd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE,
				  (off_t) ((size_t) i * INODE_SPACE),
				  (off_t) INODE_SPACE);
		delete k;
	}
	k = new K();
	for (int i = 0; i < 3; i++)
		k->fds[i] = std::make_shared<Sink>();
	k->out = new_stream();
	k->out->is_std = true;
	k->out->wr = true;
	k->out->cap = &k->cap1;
	k->out->fileno = 1;
	k->err = new_stream();
	k->err->is_std = true;
	k->err->wr = true;
	k->err->cap = &k->cap2;
	k->err->fileno = 2;
	simc_stdout = (FILE *) k->out;
	simc_stderr = (FILE *) k->err;
	simc_stdin = nullptr;
}

bool epoll_mask(int epfd, int fd, uint32_t *mask, uint64_t *data)
{
	auto f = fd_get(epfd);
	if (!f || f->kind != K_EPOLL)
		return false;
	Epoll *ep = static_cast<Epoll *>(f.get());
	auto t = fd_get(fd);
	auto it = ep->items.find({fd, t.get()});
	if (it == ep->items.end())
		return false;
	if (mask)
		*mask = it->second.first.events;
	if (data)
		*data = it->second.first.data;
	return true;
}
size_t epoll_count(int epfd)
{
	auto f = fd_get(epfd);
	return f && f->kind == K_EPOLL
		       ? static_cast<Epoll *>(f.get())->items.size()
		       : 0;
}
} // namespace sim

extern "C" {

// ------------------------------------------------------------ descriptors
static void file_closed(FileP f)
{
	if (f->kind == K_PERF) {
		PerfStub::Ev &e = k->perf.evs[static_cast<PerfFd *>(f.get())->idx];
		e.open = e.enabled = false;
	}
	f->open = false;
	switch (f->kind) {
	case K_PIPE_R: {
		Pipe *p = static_cast<Pipe *>(f.get());
		p->b->r_open = false;
		if (auto w = p->b->w.lock())
			w->changed();
		break;
	}
	case K_PIPE_W: {
		Pipe *p = static_cast<Pipe *>(f.get());
		p->b->w_open = false;
		hb_release(p->b->vc);
		if (auto r = p->b->r.lock())
			r->changed();
		break;
	}
	case K_SOCK:
		sock_closed(std::static_pointer_cast<Sock>(f));
		break;
	default:
		break;
	}
	for (auto &w : f->watch)
		if (auto ep = w.first.lock())
			ep->items.erase({w.second, f.get()});
	f->watch.clear();
}

int simc_close(int fd)
{
	sched_point(4);
	auto it = k->fds.find(fd);
	if (it == k->fds.end()) {
		if (k->lenient_close)
			return (int) err(EBADF);
		if (fd >= 0 && k->ever.count(fd))
			fail("fd:doubleclose",
			     "close of descriptor %d, which is already closed",
			     fd);
		if (fd >= 0)
			fail("fd:badclose", "close of descriptor %d, never opened",
			     fd);
		return (int) err(EBADF);
	}
	FileP f = it->second;
	event(0xc1, (uint64_t) fd);
	k->fds.erase(it);
	bool shared = false;
	for (auto &o : k->fds)
		shared |= o.second == f;
	if (!shared)
		file_closed(f);
	if (fault(F_CLOSE_ERR)) {
		// the descriptor is gone all the same
		int e = choose(2) ? EIO : EINTR;
		g.cur->failed[0][0] |= 1ull << e;
		errno = e;
		return -1;
	}
	return 0;
}

int simc_dup(int fd)
{
	auto f = fd_get(fd);
	if (!f)
		return (int) err(EBADF);
	return fd_alloc(f);
}

bool simc_dup_to(int a, int b)
{
	auto f = fd_get(a);
	if (!f || b < 0)
		return false;
	if (fd_get(b))
		simc_close(b);
	int fd = fd_alloc(f);
	if (fd != b) {
		k->fds[b] = k->fds[fd];
		k->fds.erase(fd);
	}
	return true;
}
int simc_pipe2(int fds[2], int flags)
{
	sched_point(4);
	touch(fds, 8, true);
	if (fault(F_SYSCALL_ERR))
		return (int) err(choose(2) ? EMFILE : ENFILE);
	auto b = std::make_shared<PipeBuf>();
	if (g.fden[F_NET_SMALLBUF] && fault(F_NET_SMALLBUF))
		b->cap = 4096 + choose(64);
	auto r = std::make_shared<Pipe>(K_PIPE_R, b);
	auto w = std::make_shared<Pipe>(K_PIPE_W, b);
	b->r = r;
	b->w = w;
	r->nonblock = w->nonblock = (flags & O_NONBLOCK) != 0;
	fds[0] = fd_alloc(r);
	fds[1] = fd_alloc(w);
	return 0;
}
int simc_pipe(int fds[2]) { return simc_pipe2(fds, 0); }

static ssize_t sock_send(FileP f, const void *b, size_t n, int flags);
static ssize_t sock_recv(FileP f, void *b, size_t n, int flags);

static ssize_t reg_rw(RegF *r, void *b, size_t n, bool wr, size_t *pos)
{
	if (wr) {
		if (fault(F_WRITE_ERR) || !take_space(n))
			return err(ENOSPC);
		if ((r->flags & O_ACCMODE) == O_RDONLY)
			return err(EBADF);
		if (r->flags & O_APPEND)
			*pos = r->ino->size;
		touch(b, n, false);
		if (*pos + n > INODE_SPACE)
			return err(EFBIG);
		if (n && !r->ino->holes.empty())
			for (size_t o = *pos / PG; o <= (*pos + n - 1) / PG; o++)
				r->ino->holes.erase(o);
		memcpy(r->ino->data + *pos, b, n);
		if (*pos + n > r->ino->size)
			r->ino->size = *pos + n;
	} else {
		if (fault(F_READ_ERR))
			return err(EIO);
		if (fault(F_EINTR))
			return err(EINTR);
		if (*pos >= r->ino->size)
			return 0;
		if (n > r->ino->size - *pos)
			n = r->ino->size - *pos;
		if (n > 1 && fault(F_SHORT_READ))
			n = range(1, (uint32_t) n - 1);
		touch(b, n, true);
		memcpy(b, r->ino->data + *pos, n);
	}
	*pos += n;
	return (ssize_t) n;
}

ssize_t simc_read(int fd, void *b, size_t n)
{
	sched_point(4);
	auto f = fd_get(fd);
	if (!f)
		return err(EBADF);
	switch (f->kind) {
	case K_PIPE_R:
		return pipe_read(f, b, n);
	case K_SOCK:
		return sock_recv(f, b, n, 0);
	case K_REG: {
		RegF *r = static_cast<RegF *>(f.get());
		return reg_rw(r, b, n, false, &r->pos);
	}
	case K_PERF: {
		PerfFd *p = static_cast<PerfFd *>(f.get());
		if (fault(F_READ_ERR)) // a counter in error state reads as nothing
			return choose(3) ? err(EIO) : 0;
		PerfStub::Ev &e = k->perf.evs[p->idx];
		if (e.enabled) {
			e.on_ns += g.now_ns - e.since;
			e.since = g.now_ns;
		}
		// the values are taken, then the caller is held up for a while
		uint64_t v[5];
		size_t m = 0;
		v[m++] = e.value() - e.zero;
		if (e.format & PERF_FORMAT_TOTAL_TIME_ENABLED)
			v[m++] = (uint64_t) e.on_ns;
		if (e.format & PERF_FORMAT_TOTAL_TIME_RUNNING)
			v[m++] = e.counted();
		if (e.format & PERF_FORMAT_ID)
			v[m++] = 7000 + p->idx;
		if (e.format & PERF_FORMAT_GROUP || (m *= 8) > n)
			return err(ENOSPC);
		touch(b, m, true);
		if (choose(16) == 0)
			advance((int64_t) choose(40) * 1000000);
		memcpy(b, v, m);
		return (ssize_t) m;
	}
	case K_SINK:
		return 0;
	default:
		return err(EBADF);
	}
}

ssize_t simc_write(int fd, const void *b, size_t n)
{
	sched_point(4);
	auto f = fd_get(fd);
	if (!f)
		return err(EBADF);
	switch (f->kind) {
	case K_PIPE_W:
		return pipe_write(f, b, n);
	case K_SOCK:
		return sock_send(f, b, n, 0);
	case K_REG: {
		RegF *r = static_cast<RegF *>(f.get());
		return reg_rw(r, (void *) b, n, true, &r->pos);
	}
	case K_SINK: {
		Sink *s = static_cast<Sink *>(f.get());
		if (n)
			touch(b, n, false);
		if (s->mode || fault(F_WRITE_ERR)) {
			int e = s->mode == 2 ? EPIPE
					     : s->mode == 3 ? EAGAIN : EIO;
			if (e == EPIPE && !signal_ignored(SIGPIPE))
				sigpipe();
			return err(e);
		}
		if (fault(F_EINTR))
			return err(EINTR);
		if (n > 1 && fault(F_SHORT_WRITE))
			n = range(1, (uint32_t) n - 1);
		s->data.append((const char *) b, n);
		if (fd == 1 || fd == 2)
			std_capture(fd).append((const char *) b, n);
		event_bytes(b, n);
		return (ssize_t) n;
	}
	default:
		return err(EBADF);
	}
}

ssize_t simc_readv(int fd, const struct iovec *v, int n)
{
	ssize_t t = 0;
	for (int i = 0; i < n; i++) {
		ssize_t r = simc_read(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0)
			return t ? t : r;
		t += r;
		if ((size_t) r < v[i].iov_len)
			break;
	}
	return t;
}
ssize_t simc_writev(int fd, const struct iovec *v, int n)
{
	string s;
	for (int i = 0; i < n; i++) {
		touch(v[i].iov_base, v[i].iov_len, false);
		s.append((const char *) v[i].iov_base, v[i].iov_len);
	}
	return simc_write(fd, s.data(), s.size());
}
ssize_t simc_pread(int fd, void *b, size_t n, off_t o)
{
	auto f = fd_get(fd);
	if (!f || f->kind != K_REG)
		return err(EBADF);
	size_t pos = (size_t) o;
	return reg_rw(static_cast<RegF *>(f.get()), b, n, false, &pos);
}
ssize_t simc_pwrite(int fd, const void *b, size_t n, off_t o)
{
	auto f = fd_get(fd);
	if (!f || f->kind != K_REG)
		return err(EBADF);
	size_t pos = (size_t) o;
	return reg_rw(static_cast<RegF *>(f.get()), (void *) b, n, true, &pos);
}

int simc_fcntl(int fd, int cmd, ...)
{
	va_list va;
	va_start(va, cmd);
	long arg = va_arg(va, long);
	va_end(va);
	sched_point(4);
	auto f = fd_get(fd);
	if (!f)
		return (int) err(EBADF);
	if ((cmd == F_GETFL || cmd == F_SETFL) && fault(F_SYSCALL_ERR))
		return (int) err(EBADF);
	switch (cmd) {
	case F_GETFL:
		return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
	case F_SETFL:
		f->nonblock = (arg & O_NONBLOCK) != 0;
		return 0;
	case F_GETFD:
		return 0;
	case F_SETFD:
		return 0;
	case F_DUPFD:
	case F_DUPFD_CLOEXEC:
		return fd_alloc(f);
	}
	return (int) err(EINVAL);
}
int simc_fcntl64(int fd, int cmd, long arg) { return simc_fcntl(fd, cmd, arg); }

int simc_ioctl(int fd, unsigned long req, ...)
{
	va_list va;
	va_start(va, req);
	void *arg = va_arg(va, void *);
	va_end(va);
	sched_point(4);
	auto f = fd_get(fd);
	if (!f)
		return (int) err(EBADF);
	if (fault(F_SYSCALL_ERR))
		return (int) err(EBADF);
	if (f->kind == K_PERF) {
		size_t i = static_cast<PerfFd *>(f.get())->idx;
		if (req == PERF_EVENT_IOC_ENABLE || req == PERF_EVENT_IOC_DISABLE)
			k->perf.set(i, req == PERF_EVENT_IOC_ENABLE);
		else if (req != PERF_EVENT_IOC_RESET)
			return (int) err(ENOTTY);
		else
			k->perf.set(i, k->perf.evs[i].enabled), k->perf.evs[i].zero = k->perf.evs[i].value();
		return 0;
	}
	if (req == FIONBIO) {
		f->nonblock = *(int *) arg != 0;
		return 0;
	}
	if (req == FIONREAD && f->kind == K_SOCK) {
		*(int *) arg = (int) static_cast<Sock *>(f.get())->q.size();
		return 0;
	}
	return 0;
}

// ---------------------------------------------------------------- sockets
int simc_socket(int d, int t, int p)
{
	(void) p;
	sched_point(4);
	if (fault(F_SYSCALL_ERR))
		return (int) err(choose(2) ? EMFILE : ENOBUFS);
	if ((d != AF_INET && d != AF_INET6 && d != AF_UNIX) || (k->lacks && d == k->lacks))
		return (int) err(EAFNOSUPPORT);
	auto s = std::make_shared<Sock>(d, t & 0xf);
	s->nonblock = (t & SOCK_NONBLOCK) != 0;
	s->cap = k->bufsize;
	s->local.family = d;
	if (d != AF_UNIX && s->type == SOCK_STREAM)
		k->tcps.push_back(s);
	return fd_alloc(s);
}
static SockP get_sock(int fd)
{
	auto f = fd_get(fd);
	if (!f) {
		errno = EBADF;
		return nullptr;
	}
	if (f->kind != K_SOCK) {
		errno = ENOTSOCK;
		return nullptr;
	}
	return std::static_pointer_cast<Sock>(f);
}
int simc_socketpair(int d, int t, int p, int sv[2])
{
	int a = simc_socket(d, t, p);
	if (a < 0)
		return -1;
	int b = simc_socket(d, t, p);
	if (b < 0) {
		NoFaults nf;
		simc_close(a);
		return -1;
	}
	SockP x = get_sock(a), y = get_sock(b);
	x->peer = y;
	y->peer = x;
	x->st = y->st = S_CONN;
	sv[0] = a;
	sv[1] = b;
	return 0;
}
int simc_bind(int fd, const struct sockaddr *sa, socklen_t len)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	if (fault(F_SYSCALL_ERR))
		return (int) err(choose(2) ? EACCES : EADDRINUSE);
	Addr a = from_sockaddr(sa, len);
	if (a.family != s->domain)
		return (int) err(EAFNOSUPPORT);
	if (s->bound)
		return (int) err(EINVAL);
	if (s->domain == AF_UNIX) {
		if (a.ip.empty())
			return (int) err(EINVAL);
		if (k->files.count(a.ip) || k->unixs.count(a.ip))
			return (int) err(EADDRINUSE);
		k->unixs[a.ip] = s;
		s->local = a;
		s->bound = s->explicit_bind = true;
		return 0;
	}
	if (!is_any(a) && k->routes.count(a.ip) &&
	    k->routes[a.ip] != RT_OK)
		return (int) err(EADDRNOTAVAIL);
	auto &t = table(a.family);
	if (a.port == 0)
		a.port = k->next_port++;
	if (port_taken(s, a, false))
		return (int) err(EADDRINUSE);
	t[{a.ip, a.port}] = s;
	s->local = a;
	s->bound = s->explicit_bind = true;
	return 0;
}
int simc_listen(int fd, int backlog)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	if (fault(F_SYSCALL_ERR))
		return (int) err(EADDRINUSE);
	if (s->domain == AF_UNIX && !s->bound)
		return (int) err(EINVAL);
	auto_bind(s.get(), s->domain == AF_INET ? "0.0.0.0" : "::");
	if (s->domain != AF_UNIX && s->st != S_LISTEN && port_taken(s, s->local, true))
		return (int) err(EADDRINUSE);
	if (s->domain != AF_UNIX)
		table(s->domain)[{s->local.ip, s->local.port}] = s;
	s->st = S_LISTEN;
	s->backlog = (size_t) backlog;
	return 0;
}
int simc_accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	if (s->st != S_LISTEN)
		return (int) err(EINVAL);
	if (fault(F_SYSCALL_ERR)) {
		static const int es[] = {EMFILE, ECONNABORTED, ENFILE, ENOBUFS};
		return (int) err(es[choose(4)]);
	}
	int64_t dl = s->rcvtimeo ? g.now_ns + s->rcvtimeo : -1;
	while (s->acceptq.empty()) {
		if (s->nonblock)
			return (int) err(EAGAIN);
		if (fault(F_EINTR))
			return (int) err(EINTR);
		if (!s->wait_until("accept", dl))
			return (int) err(EAGAIN);
	}
	SockP c = s->acceptq.front();
	s->acceptq.pop_front();
	c->nonblock = (flags & SOCK_NONBLOCK) != 0;
	if (sa && len)
		to_sockaddr(c->remote, c->domain, sa, len);
	hb_acquire(c->rx_vc);
	return fd_alloc(c);
}
int simc_accept(int fd, struct sockaddr *sa, socklen_t *len)
{
	return simc_accept4(fd, sa, len, 0);
}

int simc_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	Addr a = from_sockaddr(sa, len);
	if (s->st == S_CONN)
		return (int) err(EISCONN);
	if (s->st == S_CONNECTING)
		return (int) err(EALREADY);
	if (fault(F_SYSCALL_ERR))
		return (int) err(choose(2) ? EADDRNOTAVAIL : EACCES);
	if (a.family != s->domain)
		return (int) err(EAFNOSUPPORT);
	s->remote = a;
	if (s->domain == AF_UNIX) {
		if (s->type == SOCK_DGRAM) {
			s->st = S_CONN;
			return 0;
		}
		if (!k->unixs.count(a.ip))
			return (int) err(ENOENT);
		for (;;) {
			int e = establish(s);
			if (e == EAGAIN && !s->nonblock) {
				advance(100000);
				continue;
			}
			return e ? (int) err(e) : 0;
		}
	}
	Route r = k->routes.count(a.ip) ? k->routes[a.ip] : RT_OK;
	if (r == RT_UNREACH || fault(F_NET_REFUSE)) {
		return (int) err(choose(2) ? ENETUNREACH : EHOSTUNREACH);
	}
	Addr dst = a;
	if (is_any(dst)) {
		dst.ip = dst.family == AF_INET ? "127.0.0.1" : "::1";
		s->remote = dst;
	}
	auto_bind(s.get(), dst.ip);
	if (s->local.ip == "0.0.0.0" || s->local.ip == "::")
		s->local.ip = dst.ip;
	s->st = S_CONNECTING;
	weak_ptr<Sock> w = s;
	int64_t t = g.now_ns + 2 * k->latency;
	if (fault(F_NET_DELAY))
		t += range(1, 2000) * 100000ll;
	bool hole = r == RT_BLACKHOLE;
	if (hole)
		t = g.now_ns + 127000000000ll;
	at(t, [w, hole]() {
		auto c = w.lock();
		if (!c || c->st != S_CONNECTING || !c->open)
			return;
		int e = hole ? ETIMEDOUT : establish(c);
		if (e) {
			c->st = S_DEAD;
			c->so_error = e == EAGAIN ? ECONNREFUSED : e;
			c->connect_err = c->so_error;
			c->changed();
		}
	});
	if (s->nonblock)
		return (int) err(EINPROGRESS);
	int64_t dl = s->sndtimeo ? g.now_ns + s->sndtimeo : -1;
	while (s->st == S_CONNECTING) {
		if (fault(F_EINTR))
			return (int) err(EINTR);
		if (!s->wait_until("connect", dl))
			return (int) err(EINPROGRESS);
	}
	if (s->st == S_CONN)
		return 0;
	int e = s->so_error;
	s->so_error = 0;
	s->st = S_NEW;
	s->bound = s->explicit_bind;
	return (int) err(e ? e : ECONNREFUSED);
}

static ssize_t sock_send(FileP f, const void *b, size_t n, int flags)
{
	SockP s = std::static_pointer_cast<Sock>(f);
	if (fault(F_EINTR))
		return err(EINTR);
	if (n)
		touch(b, n, false);
	size_t done = 0;
	int64_t dl = -1;
	const unsigned char *p = (const unsigned char *) b;
	auto pipe_err = [&]() -> ssize_t {
		if (!(flags & MSG_NOSIGNAL))
			sigpipe();
		return err(EPIPE);
	};
	if (s->st == S_NEW || s->st == S_LISTEN)
		return pipe_err();
	if (s->st == S_CONNECTING && s->nonblock)
		return err(EAGAIN);
	if (fault(F_WRITE_ERR))
		return err(ENOBUFS);
	if (g.fden[F_NET_RESET] && s->st == S_CONN && fault(F_NET_RESET)) {
		auto pr = s->peer.lock();
		do_reset(s);
		do_reset(pr);
	}
	while (done < n || n == 0) {
		if (s->so_error) {
			if (done)
				break;
			int e = s->so_error;
			s->so_error = 0;
			return err(e);
		}
		if (s->fin_sent || s->was_reset || s->st == S_DEAD) {
			if (done)
				break;
			return pipe_err();
		}
		auto peer = s->peer.lock();
		if (!peer || peer->st == S_DEAD || !peer->open) {
			if (s->domain == AF_UNIX || s->peer_gone) {
				// the data hits a closed socket: reset follows
				if (s->domain != AF_UNIX && !s->was_reset &&
				    choose(2) == 0) {
					do_reset(s);
					s->so_error = 0;
					s->was_reset = true;
					return (ssize_t) (n ? n : 0);
				}
				if (done)
					break;
				return pipe_err();
			}
			// peer closed, its FIN is still on the way
			weak_ptr<Sock> w = s;
			at(g.now_ns + 2 * k->latency, [w]() {
				do_reset(w.lock());
			});
			return (ssize_t) n;
		}
		if (n == 0)
			return 0;
		size_t room = s->room();
		if (room == 0) {
			if (s->nonblock || (flags & MSG_DONTWAIT)) {
				if (done)
					break;
				return err(EAGAIN);
			}
			if (done && fault(F_SHORT_WRITE))
				break;
			if (dl < 0 && s->sndtimeo)
				dl = g.now_ns + s->sndtimeo;
			if (!s->wait_until("send", dl)) {
				if (done)
					break;
				return err(EAGAIN);
			}
			if (fault(F_EINTR)) {
				if (done)
					break;
				return err(EINTR);
			}
			continue;
		}
		size_t m = n - done < room ? n - done : room;
		if (m > 1 && fault(F_SHORT_WRITE)) {
			m = range(1, (uint32_t) m - 1);
			xmit(peer, p + done, m);
			done += m;
			break;
		}
		xmit(peer, p + done, m);
		done += m;
		if (s->nonblock)
			break;
	}
	event(0x5e, done);
	return (ssize_t) done;
}

static ssize_t sock_recv(FileP f, void *b, size_t n, int flags)
{
	SockP s = std::static_pointer_cast<Sock>(f);
	if (fault(F_EINTR))
		return err(EINTR);
	if (s->st == S_NEW || s->st == S_LISTEN)
		return err(ENOTCONN);
	if (fault(F_READ_ERR))
		return err(ENOMEM);
	if (g.fden[F_NET_RESET] && s->st == S_CONN && fault(F_NET_RESET)) {
		auto pr = s->peer.lock();
		do_reset(s);
		do_reset(pr);
	}
	int64_t dl = -1;
	while (s->q.empty()) {
		if (s->so_error) {
			int e = s->so_error;
			s->so_error = 0;
			return err(e);
		}
		if (s->fin_in || s->shut_rd || s->st == S_DEAD)
			return 0;
		if (n == 0)
			return 0;
		if (s->nonblock || (flags & MSG_DONTWAIT))
			return err(EAGAIN);
		if (dl < 0 && s->rcvtimeo)
			dl = g.now_ns + s->rcvtimeo;
		if (!s->wait_until("recv", dl))
			return err(EAGAIN);
		if (fault(F_EINTR))
			return err(EINTR);
	}
	size_t m = s->q.size() < n ? s->q.size() : n;
	if ((flags & MSG_WAITALL) && !(flags & (MSG_PEEK | MSG_DONTWAIT)) &&
	    !s->nonblock) {
		// the whole amount is wanted: wait for it, unless the stream
		// ends, an error arises or a signal comes (more than the
		// window: the kernel hands out what came, keeps waiting)
		size_t got = 0;
		unsigned char *to = (unsigned char *) b;
		while (got < n) {
			size_t h = s->q.size() < n - got ? s->q.size() : n - got;
			if (h) {
				touch(to + got, h, true);
				h = s->q.size() < n - got ? s->q.size() : n - got;
				for (size_t i = 0; i < h; i++)
					to[got + i] = s->q[i];
				s->q.erase(s->q.begin(), s->q.begin() + (long) h);
				got += h;
				if (auto p = s->peer.lock())
					p->changed();
				hb_acquire(s->rx_vc);
				continue;
			}
			if (s->so_error || s->fin_in || s->shut_rd ||
			    s->st == S_DEAD)
				break;
			if (dl < 0 && s->rcvtimeo)
				dl = g.now_ns + s->rcvtimeo;
			if (!s->wait_until("recv", dl) || fault(F_EINTR))
				break;
		}
		event(0x4e, got);
		return (ssize_t) got;
	}
	if (m > 1 && fault(F_SHORT_READ))
		m = range(1, (uint32_t) m - 1);
	if (m)
		touch(b, m, true);
	if (m && s->q.empty())
		return sock_recv(f, b, n, flags);
	if (m > s->q.size())
		m = s->q.size();
	unsigned char *d = (unsigned char *) b;
	for (size_t i = 0; i < m; i++)
		d[i] = s->q[i];
	if (!(flags & MSG_PEEK)) {
		s->q.erase(s->q.begin(), s->q.begin() + (long) m);
		if (auto p = s->peer.lock())
			p->changed();
	}
	hb_acquire(s->rx_vc);
	event(0x4e, m);
	return (ssize_t) m;
}

ssize_t simc_send(int fd, const void *b, size_t n, int flags)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	return sock_send(s, b, n, flags);
}
ssize_t simc_recv(int fd, void *b, size_t n, int flags)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	return sock_recv(s, b, n, flags);
}
static ssize_t dgram_send(SockP s, const string &payload,
			  const struct sockaddr *sa, socklen_t len, int flags)
{
	(void) flags;
	if (fault(F_EINTR))
		return err(EINTR);
	if (fault(F_SYSCALL_ERR))
		return err(choose(2) ? ENOBUFS : EACCES);
	Addr a = sa ? from_sockaddr(sa, len) : s->remote;
	if (a.family != AF_UNIX)
		return err(EINVAL);
	if (len > sizeof(struct sockaddr_un))
		return err(EINVAL);
	if (!k->dgram_names.count(a.ip))
		return err(a.ip.empty() || a.ip[0] ? ENOENT : ECONNREFUSED);
	k->dgrams.push_back(Datagram{payload, a.ip, g.cur->id});
	event_bytes(payload.data(), payload.size());
	return (ssize_t) payload.size();
}
ssize_t simc_sendmsg(int fd, const struct msghdr *m, int flags)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	string data;
	touch(m, sizeof(*m), false);
	for (size_t i = 0; i < m->msg_iovlen; i++) {
		if (m->msg_iov[i].iov_len)
			touch(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len,
			      false);
		data.append((const char *) m->msg_iov[i].iov_base,
			    m->msg_iov[i].iov_len);
	}
	if (s->type == SOCK_DGRAM)
		return dgram_send(s, data, (const struct sockaddr *) m->msg_name,
				  m->msg_namelen, flags);
	return sock_send(s, data.data(), data.size(), flags);
}
ssize_t simc_sendto(int fd, const void *b, size_t n, int flags,
		    const struct sockaddr *sa, socklen_t len)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	if (s->type == SOCK_DGRAM) {
		touch(b, n, false);
		return dgram_send(s, string((const char *) b, n), sa, len,
				  flags);
	}
	return sock_send(s, b, n, flags);
}
ssize_t simc_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *,
		      socklen_t *)
{
	return simc_recv(fd, b, n, flags);
}
int simc_shutdown(int fd, int how)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	if (s->st != S_CONN)
		return (int) err(ENOTCONN);
	if (how == SHUT_WR || how == SHUT_RDWR) {
		if (!s->fin_sent) {
			s->fin_sent = true;
			xmit_fin(s->peer.lock(), false);
		}
	}
	if (how == SHUT_RD || how == SHUT_RDWR)
		s->shut_rd = true;
	s->changed();
	return 0;
}
int simc_setsockopt(int fd, int level, int opt, const void *v, socklen_t len)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	touch(v, len, false);
	if (fault(F_SYSCALL_ERR))
		return (int) err(choose(2) ? ENOPROTOOPT : EINVAL);
	if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
		if (len < sizeof(struct timeval))
			return (int) err(EINVAL);
		const struct timeval *tv = (const struct timeval *) v;
		if (tv->tv_usec < 0 || tv->tv_usec >= 1000000)
			return (int) err(EDOM);
		int64_t ns = tv->tv_sec < 0 ? 0
					    : (int64_t) tv->tv_sec * 1000000000 +
						      tv->tv_usec * 1000;
		(opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = ns;
		trace("fd %d: %s %lld ns", fd, opt == SO_RCVTIMEO ? "SO_RCVTIMEO" : "SO_SNDTIMEO", (long long) ns);
		return 0;
	}
	if (level == IPPROTO_TCP && s->domain == AF_UNIX)
		return (int) err(EOPNOTSUPP);
	if (level == IPPROTO_IPV6 && s->domain != AF_INET6)
		return (int) err(ENOPROTOOPT);
	if (len >= sizeof(int) && level == SOL_SOCKET && opt == SO_REUSEADDR)
		s->reuse = *(const int *) v != 0;
	if (len >= sizeof(int) && level == IPPROTO_IPV6 && opt == IPV6_V6ONLY)
		s->v6only = *(const int *) v != 0;
	return 0;
}
int simc_getsockopt(int fd, int level, int opt, void *v, socklen_t *len)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	if (fault(F_SYSCALL_ERR))
		return (int) err(ENOBUFS);
	touch(v, 4, true);
	*len = 4;
	*(int *) v = 0;
	if (level == SOL_SOCKET && opt == SO_ERROR) {
		*(int *) v = failed(s->so_error);
		s->so_error = 0;
		hb_acquire(s->rx_vc);
	} else if (level == SOL_SOCKET && opt == SO_TYPE) {
		*(int *) v = s->type;
	}
	return 0;
}
int simc_getsockname(int fd, struct sockaddr *sa, socklen_t *len)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	if (fault(F_SYSCALL_ERR))
		return (int) err(ENOBUFS);
	to_sockaddr(s->local, s->domain, sa, len);
	return 0;
}
int simc_getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
	sched_point(4);
	SockP s = get_sock(fd);
	if (!s)
		return -1;
	if (s->st != S_CONN)
		return (int) err(ENOTCONN);
	if (fault(F_SYSCALL_ERR))
		return (int) err(ENOBUFS);
	to_sockaddr(s->remote, s->domain, sa, len);
	return 0;
}
const char *simc_inet_ntop(int af, const void *src, char *dst, socklen_t n)
{
	touch(src, af == AF_INET ? 4 : 16, false);
	char t[64];
	const char *r = inet_ntop(af, src, t, sizeof(t));
	if (!r)
		return nullptr;
	if (strlen(t) + 1 > n) {
		errno = ENOSPC;
		return nullptr;
	}
	touch(dst, strlen(t) + 1, true);
	strcpy(dst, t);
	return dst;
}

static int resolve(const char *node, const char *svc,
		     const struct addrinfo *hints, struct addrinfo **out)
{
	sched_point(4);
	unsafe_call("getaddrinfo");
	if (fault(F_GAI_ERR)) {
		static const int es[] = {EAI_AGAIN, EAI_FAIL, EAI_NONAME,
					 EAI_MEMORY};
		return es[choose(4)];
	}
	if (!node && !svc)
		return EAI_NONAME;
	int port = 0;
	if (svc) {
		char *e;
		long v = strtol(svc, &e, 10);
		if (*e || !*svc || v < 0 || v > 65535)
			return EAI_SERVICE;
		port = (int) v;
	}
	int fam = hints ? hints->ai_family : AF_UNSPEC;
	int flags = hints ? hints->ai_flags : 0;
	std::vector<string> ips;
	unsigned char tmp[16];
	if (!node) {
		if (flags & AI_PASSIVE)
			ips = {"0.0.0.0", "::"};
		else
			ips = {"::1", "127.0.0.1"};
	} else if (inet_pton(AF_INET, node, tmp) == 1 ||
		   inet_pton(AF_INET6, node, tmp) == 1) {
		ips = {node};
	} else if (k->hosts.count(node)) {
		ips = k->hosts[node];
	} else if (strcmp(node, "localhost") == 0) {
		ips = {"::1", "127.0.0.1"};
	} else {
		return EAI_NONAME;
	}
	auto l = std::unique_ptr<AddrList>(new AddrList());
	for (auto &ip : ips) {
		int f = ip.find(':') != string::npos ? AF_INET6 : AF_INET;
		if (fam != AF_UNSPEC && fam != f)
			continue;
		sockaddr_storage ss;
		memset(&ss, 0, sizeof(ss));
		addrinfo a;
		memset(&a, 0, sizeof(a));
		a.ai_family = f;
		a.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype
							    : SOCK_STREAM;
		a.ai_protocol = IPPROTO_TCP;
		if (f == AF_INET) {
			auto s = (struct sockaddr_in *) &ss;
			s->sin_family = AF_INET;
			inet_pton(AF_INET, ip.c_str(), &s->sin_addr);
			s->sin_port = htons((uint16_t) port);
			a.ai_addrlen = sizeof(*s);
		} else {
			auto s = (struct sockaddr_in6 *) &ss;
			s->sin6_family = AF_INET6;
			inet_pton(AF_INET6, ip.c_str(), &s->sin6_addr);
			s->sin6_port = htons((uint16_t) port);
			a.ai_addrlen = sizeof(*s);
		}
		l->ss.push_back(ss);
		l->ai.push_back(a);
	}
	if (l->ai.empty())
		return fam == AF_UNSPEC || node ? EAI_ADDRFAMILY : EAI_FAMILY;
	for (size_t i = 0; i < l->ai.size(); i++) {
		l->ai[i].ai_addr = (struct sockaddr *) &l->ss[i];
		l->ai[i].ai_next = i + 1 < l->ai.size() ? &l->ai[i + 1] : nullptr;
	}
	l->live = true;
	*out = &l->ai[0];
	k->lists.push_back(std::move(l));
	return 0;
}
void simc_freeaddrinfo(struct addrinfo *ai)
{
	for (auto &l : k->lists)
		if (&l->ai[0] == ai) {
			if (!l->live)
				fail("mem:doublefree",
				     "address list freed twice");
			l->live = false;
			// poison what a stale pointer would see
			for (auto &a : l->ai)
				memset((void *) &a, 0xdd, sizeof(a));
			return;
		}
	fail("mem:badfree", "freeaddrinfo of something that is no address list");
}
int simc_getaddrinfo(const char *node, const char *svc, const struct addrinfo *hints, struct addrinfo **out)
{
	int rc = resolve(node, svc, hints, out);
	if (rc < 0 && rc > -32)
		g.cur->failed_gai |= 1u << -rc;
	return rc;
}
const char *simc_gai_strerror(int e) { return gai_strerror(e); }

// ------------------------------------------------------------------ epoll
int simc_epoll_create1(int)
{
	sched_point(4);
	if (fault(F_SYSCALL_ERR))
		return (int) err(choose(2) ? EMFILE : ENOMEM);
	return fd_alloc(std::make_shared<Epoll>());
}
int simc_epoll_create(int) { return simc_epoll_create1(0); }

int simc_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev)
{
	sched_point(4);
	auto f = fd_get(epfd);
	auto t = fd_get(fd);
	if (!f || !t)
		return (int) err(EBADF);
	if (f->kind != K_EPOLL || f == t)
		return (int) err(EINVAL);
	if (t->kind == K_REG)
		return (int) err(EPERM);
	auto ep = std::static_pointer_cast<Epoll>(f);
	if (ev)
		touch(ev, sizeof(*ev), false);
	else if (op != EPOLL_CTL_DEL)
		return (int) err(EFAULT);
	// order: what was written before the call is visible to the poller
	hb_release(ep->vc);
	auto key = std::make_pair(fd, t.get());
	auto it = ep->items.find(key);
	if (fault(F_SYSCALL_ERR)) {
		if (op == EPOLL_CTL_DEL)
			return (int) err(ENOENT);
		return (int) err(choose(2) ? ENOMEM : ENOSPC);
	}
	int rc = 0;
	if (op == EPOLL_CTL_ADD) {
		if (it != ep->items.end())
			return (int) err(EEXIST);
		ep->items[key] = {EpItem{fd, ev->events, ev->data.u64, true,
					 false},
				  t};
		t->watch.push_back({ep, fd});
	} else if (op == EPOLL_CTL_MOD) {
		if (it == ep->items.end())
			return (int) err(ENOENT);
		it->second.first.events = ev->events;
		it->second.first.data = ev->data.u64;
		it->second.first.armed = true;
		it->second.first.disabled = false;
	} else if (op == EPOLL_CTL_DEL) {
		if (it == ep->items.end())
			return (int) err(ENOENT);
		ep->items.erase(it);
		for (size_t i = 0; i < t->watch.size(); i++)
			if (t->watch[i].first.lock() == ep &&
			    t->watch[i].second == fd) {
				t->watch.erase(t->watch.begin() + (long) i);
				break;
			}
	} else {
		return (int) err(EINVAL);
	}
	event(0xec, (uint64_t) op, (uint64_t) fd);
	for (auto w : ep->waiters)
		wake(w);
	ep->waiters.clear();
	sched_point(4);
	return rc;
}

int simc_epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout)
{
	sched_point(4);
	auto f = fd_get(epfd);
	if (!f)
		return (int) err(EBADF);
	if (f->kind != K_EPOLL || max <= 0)
		return (int) err(EINVAL);
	auto ep = std::static_pointer_cast<Epoll>(f);
	int64_t dl = timeout < 0 ? -1 : g.now_ns + (int64_t) timeout * 1000000;
	if (fault(F_READ_ERR))
		return (int) err(EINVAL);
	touch(evs, sizeof(*evs), true);
	bool expired = timeout == 0;
	for (;;) {
		int n = 0;
		std::vector<std::pair<EpItem *, uint32_t>> rd;
		for (auto &i : ep->items) {
			auto t = i.second.second.lock();
			EpItem &it = i.second.first;
			if (!t || it.disabled)
				continue;
			uint32_t r = t->ready() &
				     (it.events | EPOLLERR | EPOLLHUP);
			if (!r)
				continue;
			if ((it.events & EPOLLET) && !it.armed)
				continue;
			rd.push_back({&it, r});
		}
		if (rd.size() > 1) {
			// order of the ready list is the kernel's business
			size_t rot = choose((uint32_t) rd.size());
			std::rotate(rd.begin(), rd.begin() + (long) rot,
				    rd.end());
		}
		if (!rd.empty())
			touch_now(evs, sizeof(*evs) * std::min(rd.size(), (size_t) max), true);
		for (auto &p : rd) {
			if (n >= max)
				break;
			evs[n].events = p.second;
			evs[n].data.u64 = p.first->data;
			p.first->armed = false;
			if (p.first->events & EPOLLONESHOT)
				p.first->disabled = true;
			n++;
		}
		if (n || expired) {
			hb_acquire(ep->vc);
			event(0xe9, (uint64_t) n);
			return n;
		}
		if (fault(F_EINTR)) {
			// some of the time may have passed
			if (dl > g.now_ns && choose(2)) {
				int64_t part = (dl - g.now_ns) / 100 *
					       (int64_t) choose(100);
				ep->wait_until("epoll_wait", g.now_ns + part);
			}
			return (int) err(EINTR);
		}
		if (!ep->wait_until("epoll_wait", dl))
			expired = true;
	}
}
int simc_epoll_pwait(int epfd, struct epoll_event *evs, int max, int timeout,
		     const sigset_t *)
{
	return simc_epoll_wait(epfd, evs, max, timeout);
}
int simc_poll(struct pollfd *p, nfds_t n, int timeout)
{
	sched_point(4);
	int64_t dl = timeout < 0 ? -1 : g.now_ns + (int64_t) timeout * 1000000;
	for (;;) {
		int c = 0;
		for (nfds_t i = 0; i < n; i++) {
			p[i].revents = 0;
			if (p[i].fd < 0)
				continue;
			auto f = fd_get(p[i].fd);
			uint32_t r = f ? f->ready() : 0;
			short want = (short) (p[i].events | POLLERR | POLLHUP);
			p[i].revents = f ? (short) (r & (uint32_t) want)
					 : POLLNVAL;
			c += p[i].revents != 0;
		}
		if (c)
			return c;
		if (dl >= 0 && g.now_ns >= dl)
			return 0;
		if (fault(F_EINTR))
			return (int) err(EINTR);
		// coarse: look again after a moment or at the deadline
		int64_t t = g.now_ns + 1000000;
		if (dl >= 0 && dl < t)
			t = dl;
		advance(t - g.now_ns);
	}
}

// ------------------------------------------------------------------- files
static bool dir_ok(const string &p)
{
	return p.compare(0, 7, "/nodir/") != 0 && !p.empty() && p.back() != '/' &&
	       p.size() < 4096;
}
// may the program's user open an existing file like this
static bool allowed(const Inode *i, bool rd, bool wr)
{
	return (!rd || (i->mode & S_IRUSR)) && (!wr || (i->mode & S_IWUSR));
}
int simc_open(const char *path, int flags, ...)
{
	sched_point(4);
	string p(path);
	unsigned mode = 0;
	if (flags & O_CREAT) {
		va_list va;
		va_start(va, flags);
		mode = va_arg(va, unsigned);
		va_end(va);
	}
	if (!k)
		abort();
	if (fault(F_OPEN_ERR)) {
		static const int es[] = {EACCES, EMFILE, EIO, ENOSPC};
		return (int) err(es[choose(4)]);
	}
	if (!dir_ok(p))
		return (int) err(ENOENT);
	auto it = k->files.find(p);
	InodeP i;
	if (it == k->files.end()) {
		if (!(flags & O_CREAT))
			return (int) err(ENOENT);
		i = new_inode();
		i->mode = mode & 07777 & ~022u;
		k->files[p] = i;
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL))
			return (int) err(EEXIST);
		i = it->second;
		int acc = flags & O_ACCMODE;
		if (!allowed(i.get(), acc != O_WRONLY, acc != O_RDONLY))
			return (int) err(EACCES);
		if (flags & O_TRUNC) {
			memset(i->data, 0, i->size);
			i->size = 0;
			i->holes.clear();
		}
	}
	k->opens++;
	event(0x0be, i->id, (uint64_t) flags);
	return fd_alloc(std::make_shared<RegF>(i, flags));
}
int simc_open64(const char *path, int flags, int mode)
{
	return simc_open(path, flags, mode);
}
int simc_creat(const char *path, int mode)
{
	return simc_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

static void fill_stat(Inode *i, struct stat *st)
{
	touch(st, sizeof(*st), true);
	memset(st, 0, sizeof(*st));
	st->st_mode = S_IFREG | i->mode;
	st->st_size = (off_t) i->size;
	st->st_blksize = 4096;
	st->st_blocks = (blkcnt_t) ((i->size + 511) / 512);
	st->st_ino = (ino_t) (i->id + 10);
	st->st_nlink = 1;
}
int simc_stat(const char *path, struct stat *st)
{
	sched_point(4);
	if (fault(F_SYSCALL_ERR))
		return (int) err(EACCES);
	auto it = k->files.find(path);
	if (it == k->files.end())
		return (int) err(ENOENT);
	fill_stat(it->second.get(), st);
	return 0;
}
int simc_lstat(const char *path, struct stat *st) { return simc_stat(path, st); }
int simc_stat64(const char *path, struct stat *st) { return simc_stat(path, st); }
int simc_fstat(int fd, struct stat *st)
{
	sched_point(4);
	auto f = fd_get(fd);
	if (!f)
		return (int) err(EBADF);
	if (fault(F_SYSCALL_ERR))
		return (int) err(EIO);
	if (f->kind != K_REG) {
		touch(st, sizeof(*st), true);
		memset(st, 0, sizeof(*st));
		st->st_mode = f->kind == K_SOCK ? S_IFSOCK | 0777
			    : f->kind == K_PIPE_R || f->kind == K_PIPE_W ? S_IFIFO | 0600
								: (mode_t) 0600;
		return 0;
	}
	fill_stat(static_cast<RegF *>(f.get())->ino.get(), st);
	return 0;
}
int simc_fstat64(int fd, struct stat *st) { return simc_fstat(fd, st); }
int simc_access(const char *path, int how)
{
	auto it = k->files.find(path);
	if (it == k->files.end())
		return (int) err(ENOENT);
	if (!allowed(it->second.get(), how & R_OK, how & W_OK))
		return (int) err(EACCES);
	return 0;
}
off_t simc_lseek(int fd, off_t o, int wh)
{
	auto f = fd_get(fd);
	if (!f || f->kind != K_REG)
		return (off_t) err(EBADF);
	if (fault(F_SYSCALL_ERR))
		return (off_t) err(EINVAL);
	RegF *r = static_cast<RegF *>(f.get());
	off_t b = wh == SEEK_SET ? 0
				 : wh == SEEK_CUR ? (off_t) r->pos
						  : (off_t) r->ino->size;
	if (b + o < 0)
		return (off_t) err(EINVAL);
	r->pos = (size_t) (b + o);
	return (off_t) r->pos;
}
static int grow(Inode *i, size_t from, size_t to)
{
	if (to > INODE_SPACE)
		return ENOSPC;
	size_t more = to > i->size ? to - i->size : 0;
	std::vector<size_t> fill;
	for (size_t o : i->holes)
		if (o * PG < to && (o + 1) * PG > from)
			fill.push_back(o);
	if (!more && fill.empty())
		return 0;
	if (!take_space(more + fill.size() * PG))
		return ENOSPC;
	for (size_t o : fill)
		i->holes.erase(o);
	if (!more)
		return 0;
	memset(i->data + i->size, 0, to - i->size);
	i->size = to;
	return 0;
}
int simc_posix_fallocate(int fd, off_t off, off_t len)
{
	sched_point(4);
	auto f = fd_get(fd);
	if (!f)
		return failed(EBADF);
	if (off < 0 || len <= 0)
		return failed(EINVAL);
	if (f->kind != K_REG)
		return failed(ENODEV);
	RegF *r = static_cast<RegF *>(f.get());
	if ((r->flags & O_ACCMODE) == O_RDONLY)
		return failed(EBADF);
	if (fault(F_EINTR))
		return EINTR;
	if (fault(F_SYSCALL_ERR))
		return failed(choose(2) ? EIO : EFBIG);
	k->disk_ops++;
	event(0xfa11, (uint64_t) off, (uint64_t) len);
	return failed(grow(r->ino.get(), (size_t) off, (size_t) off + (size_t) len));
}
int simc_fallocate(int fd, int mode, off_t off, off_t len)
{
	int rc = simc_posix_fallocate(fd, off, len);
	(void) mode;
	return rc ? (int) err(rc) : 0;
}
int simc_ftruncate(int fd, off_t len)
{
	sched_point(4);
	auto f = fd_get(fd);
	if (!f || f->kind != K_REG)
		return (int) err(EBADF);
	RegF *r = static_cast<RegF *>(f.get());
	if ((r->flags & O_ACCMODE) == O_RDONLY)
		return (int) err(EINVAL);
	if (fault(F_SYSCALL_ERR))
		return (int) err(EIO);
	if (len < 0 || (size_t) len > INODE_SPACE)
		return (int) err(EINVAL);
	if ((size_t) len < r->ino->size)
		memset(r->ino->data + len, 0, r->ino->size - (size_t) len);
	else
		memset(r->ino->data + r->ino->size, 0,
		       (size_t) len - r->ino->size);
	// the new part takes no space before something is stored there
	for (size_t o = (r->ino->size + PG - 1) / PG; o * PG < (size_t) len; o++)
		r->ino->holes.insert(o);
	for (size_t o : std::vector<size_t>(r->ino->holes.lower_bound(((size_t) len + PG - 1) / PG), r->ino->holes.end()))
		r->ino->holes.erase(o);
	r->ino->size = (size_t) len;
	return 0;
}
static void sync_inode(Inode *i, size_t from, size_t to)
{
	for (size_t o = from & ~(PG - 1); o < to && o < i->size; o += PG)
		i->durable[o / PG] = string(i->data + o, PG);
	i->durable_size = i->size;
}
int simc_fsync(int fd)
{
	sched_point(4);
	auto f = fd_get(fd);
	if (!f || f->kind != K_REG)
		return (int) err(EBADF);
	if (fault(F_MSYNC_ERR))
		return (int) err(EIO);
	Inode *i = static_cast<RegF *>(f.get())->ino.get();
	sync_inode(i, 0, i->size);
	return 0;
}
int simc_fdatasync(int fd) { return simc_fsync(fd); }
long simc_sysconf(int n)
{
	if (n == _SC_PAGESIZE)
		return 4096;
	return sysconf(n);
}
int simc_getpagesize(void) { return 4096; }

static int unlink_path(const char *p)
{
	auto u = k->unixs.find(p);
	if (u != k->unixs.end()) {
		k->unixs.erase(u);
		return 0;
	}
	auto it = k->files.find(p);
	if (it == k->files.end())
		return (int) err(ENOENT);
	if (fault(F_SYSCALL_ERR))
		return (int) err(EACCES);
	k->files.erase(it);
	return 0;
}
int simc_unlink(const char *p)
{
	sched_point(4);
	return unlink_path(p);
}
int simc_remove(const char *p)
{
	sched_point(4);
	return unlink_path(p);
}
int simc_rename(const char *a, const char *b)
{
	sched_point(4);
	if (fault(F_RENAME_ERR))
		return (int) err(choose(2) ? EACCES : ENOSPC);
	auto it = k->files.find(a);
	if (it == k->files.end())
		return (int) err(ENOENT);
	if (!dir_ok(b))
		return (int) err(ENOENT);
	InodeP i = it->second;
	if (string(a) == b)
		return 0;
	k->files.erase(it);
	k->files[b] = i;
	event(0x4e4e, i->id);
	return 0;
}

// ----------------------------------------------------------------- mappings
void *simc_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	sched_point(4);
	(void) addr;
	backing_init();
	if (len == 0 || (off & (off_t) (PG - 1)) || off < 0) {
		errno = failed(EINVAL);
		return MAP_FAILED;
	}
	if (fault(F_SYSCALL_ERR)) {
		errno = failed(choose(2) ? ENOMEM : EAGAIN);
		return MAP_FAILED;
	}
	InodeP ino;
	bool shared = (flags & MAP_SHARED) != 0;
	if (!(flags & MAP_ANONYMOUS)) {
		auto f = fd_get(fd);
		if (!f || f->kind != K_REG) {
			errno = failed(f ? EACCES : EBADF);
			return MAP_FAILED;
		}
		RegF *r = static_cast<RegF *>(f.get());
		int acc = r->flags & O_ACCMODE;
		if (acc == O_WRONLY ||
		    (shared && (prot & PROT_WRITE) && acc != O_RDWR)) {
			errno = failed(EACCES);
			return MAP_FAILED;
		}
		ino = r->ino;
	}
	size_t plen = (len + PG - 1) & ~(PG - 1);
	if (plen < len || plen > page_space ||
	    k->map_top + plen + PG > page_space ||
	    (size_t) off > INODE_SPACE ||
	    (ino && (size_t) off + plen > INODE_SPACE)) {
		errno = failed(ENOMEM);
		return MAP_FAILED;
	}
	char *base = page_base + k->map_top + PG;
	k->map_top += plen + PG;
	void *r;
	if (ino)
		r = mmap(base, plen, PROT_READ | PROT_WRITE,
			 (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_FIXED, memfd,
			 (off_t) ino->off + off);
	else
		r = mmap(base, plen, PROT_READ | PROT_WRITE,
			 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	if (r == MAP_FAILED)
		abort();
	Mapping m{base, plen, prot, shared, ino, (size_t) off, {}};
	m.locked.assign(plen / PG, false);
	k->maps.push_back(m);
	event(0x33a9, len, (uint64_t) off);
	return base;
}
void *simc_mmap64(void *a, size_t l, int p, int f, int fd, off_t o)
{
	return simc_mmap(a, l, p, f, fd, o);
}

int simc_munmap(void *addr, size_t len)
{
	sched_point(4);
	char *p = (char *) addr;
	if (((uint64_t) p & (PG - 1)) || len == 0)
		return (int) err(EINVAL);
	len = (len + PG - 1) & ~(PG - 1);
	if (fault(F_SYSCALL_ERR))
		return (int) err(ENOMEM);
	bool hit = false;
	for (size_t i = 0; i < k->maps.size(); i++) {
		Mapping m = k->maps[i];
		if (m.base + m.len <= p || m.base >= p + len)
			continue;
		hit = true;
		k->maps.erase(k->maps.begin() + (long) i);
		char *lo = m.base > p ? m.base : p;
		char *hi = m.base + m.len < p + len ? m.base + m.len : p + len;
		mmap(lo, (size_t) (hi - lo), PROT_NONE,
		     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED,
		     -1, 0);
		if (lo > m.base) {
			Mapping a = m;
			a.len = (size_t) (lo - m.base);
			a.locked.resize(a.len / PG);
			k->maps.push_back(a);
		}
		if (hi < m.base + m.len) {
			Mapping b = m;
			b.base = hi;
			b.off = m.off + (size_t) (hi - m.base);
			b.len = (size_t) (m.base + m.len - hi);
			b.locked.assign(m.locked.begin() + (hi - m.base) / (long) PG,
					m.locked.end());
			k->maps.push_back(b);
		}
		i = (size_t) -1;
	}
	if (!hit)
		fail("map:doubleunmap", "munmap of a range with no mapping");
	event(0x33aa, len);
	return 0;
}
int simc_msync(void *addr, size_t len, int flags)
{
	sched_point(4);
	char *p = (char *) addr;
	if ((uint64_t) p & (PG - 1))
		return (int) err(EINVAL);
	k->disk_ops++;
	maybe_writeback();
	if (fault(F_MSYNC_ERR))
		return (int) err(EIO);
	len = (len + PG - 1) & ~(PG - 1);
	for (size_t o = 0; o < len; o += PG) {
		Mapping *m = find_map(p + o);
		if (!m)
			return (int) err(ENOMEM);
		if ((flags & MS_SYNC) && m->shared && m->ino) {
			size_t fo = m->off + (size_t) (p + o - m->base);
			sync_inode(m->ino.get(), fo, fo + PG);
		}
	}
	return 0;
}
static int lock_range(const void *addr, size_t len, bool on)
{
	sched_point(4);
	if (fault(F_MSYNC_ERR))
		return (int) err(choose(2) ? ENOMEM : EPERM);
	uint64_t lo = (uint64_t) addr & ~(uint64_t) (PG - 1);
	uint64_t hi = ((uint64_t) addr + len + PG - 1) & ~(uint64_t) (PG - 1);
	for (uint64_t a = lo; a < hi; a += PG)
		if (!find_map((const char *) a))
			return (int) err(ENOMEM);
	for (uint64_t a = lo; a < hi; a += PG) {
		Mapping *m = find_map((const char *) a);
		m->locked[((const char *) a - m->base) / (long) PG] = on;
	}
	return 0;
}
int simc_mlock(const void *a, size_t n) { return lock_range(a, n, true); }
int simc_munlock(const void *a, size_t n) { return lock_range(a, n, false); }
int simc_madvise(void *, size_t, int) { return 0; }

// ----------------------------------------------------------------- streams
static SimFILE *stream(FILE *fp, const char *op)
{
	unsafe_call(op);
	if (!fp)
		fail("mem:crash", "%s on a NULL stream", op);
	for (auto &s : k->streams)
		if ((FILE *) s.get() == fp) {
			if (s->closed)
				fail("stream:uaf", "%s on a closed stream", op);
			return s.get();
		}
	fail("stream:uaf", "%s on something that is no stream", op);
}
static void s_lock(SimFILE *s)
{
	sched_point(7);
	while (s->lock_owner && s->lock_owner != g.cur) {
		s->lock_waiters.push_back(g.cur);
		block("flockfile");
	}
	s->lock_owner = g.cur;
	s->lock_depth++;
	hb_acquire(s->vc);
}
static void s_unlock(SimFILE *s)
{
	hb_release(s->vc);
	if (--s->lock_depth == 0) {
		s->lock_owner = nullptr;
		for (auto f : s->lock_waiters)
			wake(f);
		s->lock_waiters.clear();
	}
	sched_point(7);
}
static bool s_store(SimFILE *s, const char *b, size_t n)
{
	if (s->mem) {
		if (s->pos + n > s->store->size())
			s->store->resize(s->pos + n);
		memcpy(&(*s->store)[s->pos], b, n);
		s->pos += n;
		s->ino->data = &(*s->store)[0];
		s->ino->size = s->store->size();
		return true;
	}
	if (s->cap) {
		if (k->std_bad[s->fileno]) {
			fault_fired(F_WRITE_ERR);
			s->err = true;
			errno = failed(ENOSPC);
			return false;
		}
		if (fault(F_WRITE_ERR)) {
			s->err = true;
			errno = failed(EIO);
			return false;
		}
		s->cap->append(b, n);
		return true;
	}
	if (s->append)
		s->pos = s->ino->size;
	if (s->pos + n > INODE_SPACE)
		abandon("file too large");
	bool bad = false;
	int e = 0;
	if (fault(F_WRITE_ERR)) {
		bad = true;
		e = EIO;
	} else if (!take_space(n)) {
		bad = true;
		e = ENOSPC;
	}
	if (bad) {
		// a prefix may have reached the file
		n = choose(3) ? 0 : choose((uint32_t) n + 1);
		s->err = true;
	}
	memcpy(s->ino->data + s->pos, b, n);
	s->pos += n;
	if (s->pos > s->ino->size)
		s->ino->size = s->pos;
	if (bad)
		errno = failed(e);
	return !bad;
}
static bool s_flush(SimFILE *s)
{
	if (s->wbuf.empty())
		return true;
	string t;
	t.swap(s->wbuf);
	return s_store(s, t.data(), t.size());
}
static bool s_write(SimFILE *s, const char *b, size_t n)
{
	if (!s->wr) {
		errno = failed(EBADF);
		s->err = true;
		return false;
	}
	event_bytes(b, n);
	if (s->bufsz == 0 || s->cap)
		return s_store(s, b, n);
	s->wbuf.append(b, n);
	if (s->wbuf.size() >= s->bufsz)
		return s_flush(s);
	return true;
}

FILE *simc_fopen(const char *path, const char *mode)
{
	sched_point(4);
	unsafe_call("fopen");
	string p(path);
	touch(path, p.size() + 1, false);
	if (fault(F_OPEN_ERR)) {
		static const int es[] = {EACCES, EMFILE, EIO, ENOSPC};
		errno = failed(es[choose(4)]);
		return nullptr;
	}
	if (!dir_ok(p)) {
		errno = failed(ENOENT);
		return nullptr;
	}
	auto it = k->files.find(p);
	InodeP i;
	if (it == k->files.end()) {
		if (mode[0] == 'r') {
			errno = failed(ENOENT);
			return nullptr;
		}
		i = new_inode();
		i->mode = 0644;
		k->files[p] = i;
	} else {
		i = it->second;
		bool both = strchr(mode, '+') != nullptr;
		if (!allowed(i.get(), mode[0] == 'r' || both, mode[0] != 'r' || both)) {
			errno = failed(EACCES);
			return nullptr;
		}
		if (mode[0] == 'w') {
			memset(i->data, 0, i->size);
			i->size = 0;
			i->holes.clear();
		}
	}
	bool plus = strchr(mode, '+') != nullptr;
	SimFILE *s = new_stream();
	s->ino = i;
	s->path = p;
	s->rd = mode[0] == 'r' || plus;
	s->wr = mode[0] != 'r' || plus;
	s->append = mode[0] == 'a';
	// as glibc: a+ reads from the start, and ftell says so, until the first write
	if (s->append && !s->rd)
		s->pos = i->size;
	static const size_t sizes[] = {4096, 0, 64, 65536};
	s->bufsz = sizes[choose(4)];
	k->opens++;
	event(0xf0, i->id, (uint64_t) mode[0]);
	trace("fopen(%s, %s)", path, mode);
	return (FILE *) s;
}
FILE *simc_fopen64(const char *p, const char *m) { return simc_fopen(p, m); }
FILE *simc_fdopen(int fd, const char *mode)
{
	sched_point(4);
	unsafe_call("fdopen");
	auto f = fd_get(fd);
	if (!f) {
		errno = failed(EBADF);
		return nullptr;
	}
	if (f->kind != K_REG) {
		errno = failed(EINVAL);
		return nullptr;
	}
	RegF *r = static_cast<RegF *>(f.get());
	int acc = r->flags & O_ACCMODE;
	bool plus = strchr(mode, '+') != nullptr;
	bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
	if ((rd && acc == O_WRONLY) || (wr && acc == O_RDONLY)) {
		errno = failed(EINVAL);
		return nullptr;
	}
	if (fault(F_OPEN_ERR)) {
		errno = failed(ENOMEM);
		return nullptr;
	}
	if (mode[0] == 'a')
		r->flags |= O_APPEND;
	SimFILE *s = new_stream();
	s->ino = r->ino;
	s->rd = rd;
	s->wr = wr;
	s->append = (r->flags & O_APPEND) != 0;
	s->pos = s->append && !s->rd ? r->ino->size : r->pos;
	s->fileno = fd;
	static const size_t sizes[] = {4096, 0, 64, 65536};
	s->bufsz = sizes[choose(4)];
	event(0xf1, r->ino->id, (uint64_t) mode[0]);
	trace("fdopen(%d, %s)", fd, mode);
	return (FILE *) s;
}
static SimFILE *mem_stream()
{
	SimFILE *s = new_stream();
	s->mem = true;
	s->store = std::make_shared<string>();
	s->ino = std::make_shared<Inode>();
	s->ino->data = &(*s->store)[0];
	return s;
}
FILE *simc_fmemopen(void *b, size_t n, const char *mode)
{
	sched_point(4);
	unsafe_call("fmemopen");
	if (mode[0] != 'r' || strchr(mode, '+'))
		abandon("fmemopen for writing is not simulated");
	touch(b, n, false);
	SimFILE *s = mem_stream();
	s->store->assign((const char *) b, n);
	s->ino->data = &(*s->store)[0];
	s->ino->size = n;
	s->rd = true;
	return (FILE *) s;
}
void *simc_malloc(size_t);
void simc_free(void *);
// the caller's view is brought up to date by every flush
static bool mem_out(SimFILE *s)
{
	char *p = (char *) simc_realloc(*s->out, s->store->size() + 1);
	if (!p) {
		s->err = true;
		return false;
	}
	memcpy(p, s->store->c_str(), s->store->size() + 1);
	*s->out = p;
	*s->outn = s->store->size();
	return true;
}
FILE *simc_open_memstream(char **b, size_t *n)
{
	sched_point(4);
	unsafe_call("open_memstream");
	touch(b, sizeof(*b), true);
	touch(n, sizeof(*n), true);
	char *p = (char *) simc_malloc(1);
	if (!p)
		return nullptr;
	*p = 0;
	*b = p;
	*n = 0;
	SimFILE *s = mem_stream();
	s->wr = true;
	s->bufsz = 4096;
	s->out = b;
	s->outn = n;
	return (FILE *) s;
}
void simc_flockfile(FILE *);
int simc_ftrylockfile(FILE *fp)
{
	SimFILE *s = stream(fp, "ftrylockfile");
	if (s->lock_owner && s->lock_owner != g.cur)
		return -1;
	simc_flockfile(fp);
	return 0;
}
int simc_fclose(FILE *fp)
{
	SimFILE *s = stream(fp, "fclose");
	s_lock(s);
	bool ok = s_flush(s);
	if (s->out)
		ok = mem_out(s) && ok;
	s->closed = !s->is_std;
	if (!s->is_std && s->fileno >= 0)
		k->fds.erase(s->fileno);
	s_unlock(s);
	event(0xfc);
	if (!s->mem && fault(F_CLOSE_ERR)) {
		errno = failed(EIO);
		return EOF;
	}
	return ok ? 0 : EOF;
}
int simc_fflush(FILE *fp)
{
	if (!fp)
		return 0;
	SimFILE *s = stream(fp, "fflush");
	s_lock(s);
	bool ok = s_flush(s);
	if (s->out)
		ok = mem_out(s) && ok;
	s_unlock(s);
	return ok ? 0 : EOF;
}
int simc_setvbuf(FILE *fp, char *, int mode, size_t n)
{
	SimFILE *s = stream(fp, "setvbuf");
	s->bufsz = mode == _IONBF ? 0 : mode == _IOLBF ? 1 : n;
	return 0;
}
void simc_setbuf(FILE *fp, char *b) { stream(fp, "setbuf")->bufsz = b ? 4096 : 0; }
void simc_setlinebuf(FILE *fp) { stream(fp, "setlinebuf")->bufsz = 1; }
// a stream has a descriptor once somebody asks for it
int simc_fileno(FILE *fp)
{
	SimFILE *s = stream(fp, "fileno");
	if (s->fileno < 0 && s->ino && !s->mem)
		s->fileno = fd_alloc(std::make_shared<RegF>(
			s->ino, (s->rd && s->wr ? O_RDWR : s->wr ? O_WRONLY : O_RDONLY) | (s->append ? O_APPEND : 0)));
	return s->fileno;
}
void simc_flockfile(FILE *fp) { s_lock(stream(fp, "flockfile")); }
void simc_funlockfile(FILE *fp) { s_unlock(stream(fp, "funlockfile")); }
int simc_vfprintf(FILE *fp, const char *fmt, va_list va)
{
	SimFILE *s = stream(fp, "vfprintf");
	touch_format(fmt, va);
	va_list cp;
	va_copy(cp, va);
	string tmp;
	tmp.resize(512);
	int rc = vsnprintf(&tmp[0], tmp.size(), fmt, cp);
	va_end(cp);
	if (rc >= (int) tmp.size()) {
		tmp.resize((size_t) rc + 1);
		vsnprintf(&tmp[0], tmp.size(), fmt, va);
	}
	if (rc < 0)
		return rc;
	s_lock(s);
	bool ok = s_write(s, tmp.data(), (size_t) rc);
	s_unlock(s);
	return ok ? rc : -1;
}
int simc_fprintf(FILE *fp, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int rc = simc_vfprintf(fp, fmt, va);
	va_end(va);
	return rc;
}
int simc_printf(const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int rc = simc_vfprintf(simc_stdout, fmt, va);
	va_end(va);
	return rc;
}
int simc_vprintf(const char *fmt, va_list va)
{
	return simc_vfprintf(simc_stdout, fmt, va);
}
size_t simc_fwrite(const void *b, size_t sz, size_t n, FILE *fp)
{
	SimFILE *s = stream(fp, "fwrite");
	if (sz * n == 0)
		return 0;
	touch(b, sz * n, false);
	s_lock(s);
	bool ok = s_write(s, (const char *) b, sz * n);
	s_unlock(s);
	return ok ? n : 0;
}
int simc_fputs(const char *b, FILE *fp)
{
	return simc_fwrite(b, 1, strlen(b), fp) == strlen(b) ? 1 : EOF;
}
int simc_fputc(int c, FILE *fp)
{
	char b = (char) c;
	return simc_fwrite(&b, 1, 1, fp) == 1 ? (unsigned char) c : EOF;
}
int simc_putc(int c, FILE *fp) { return simc_fputc(c, fp); }
int simc_putchar(int c) { return simc_fputc(c, simc_stdout); }
int simc_puts(const char *b)
{
	string t = string(b) + "\n";
	return simc_fwrite(t.data(), 1, t.size(), simc_stdout) ? 1 : EOF;
}
void simc_perror(const char *b)
{
	simc_fprintf(simc_stderr, "%s: %s\n", b, strerror(errno));
}
static int s_getc(SimFILE *s)
{
	if (!s->rd) {
		s->err = true;
		errno = failed(EBADF);
		return EOF;
	}
	if (s->unget >= 0) {
		int c = s->unget;
		s->unget = -1;
		return c;
	}
	if (s->pos >= s->ino->size) {
		s->eof = true;
		return EOF;
	}
	return (unsigned char) s->ino->data[s->pos++];
}
// a stream read refills its buffer now and then; that is where it can fail
static bool s_refill_fails(SimFILE *s)
{
	if (s->is_std || s->mem)
		return false;
	if (s->bad_sector || fault(F_READ_ERR)) {
		if (!s->bad_sector && choose(2))
			s->bad_sector = true;
		s->err = true;
		errno = failed(EIO);
		return true;
	}
	return false;
}
char *simc_fgets(char *b, int n, FILE *fp)
{
	SimFILE *s = stream(fp, "fgets");
	if (n <= 0)
		return nullptr;
	s_lock(s);
	int i = 0;
	bool bad = false;
	while (i < n - 1) {
		// refill boundaries fall anywhere
		if ((i == 0 || (g.fden[F_SHORT_READ] && fault(F_SHORT_READ))) &&
		    s_refill_fails(s)) {
			bad = true;
			break;
		}
		int c = s_getc(s);
		if (c == EOF)
			break;
		touch(b + i, 1, true);
		b[i++] = (char) c;
		if (c == '\n')
			break;
	}
	// a read error returns NULL, whatever was stored before it
	bool none = i == 0 || bad;
	if (!none) {
		touch(b + i, 1, true);
		b[i] = 0;
	}
	s_unlock(s);
	return none ? nullptr : b;
}
int simc_fgetc(FILE *fp)
{
	SimFILE *s = stream(fp, "fgetc");
	s_lock(s);
	int c = s_refill_fails(s) ? EOF : s_getc(s);
	s_unlock(s);
	return c;
}
int simc_getc(FILE *fp) { return simc_fgetc(fp); }
int simc_ungetc(int c, FILE *fp)
{
	stream(fp, "ungetc")->unget = c;
	return c;
}
size_t simc_fread(void *b, size_t sz, size_t n, FILE *fp)
{
	SimFILE *s = stream(fp, "fread");
	s_lock(s);
	size_t want = sz * n, i = 0;
	char *d = (char *) b;
	bool bad = s_refill_fails(s);
	size_t stop = bad && want ? choose((uint32_t) want) : want;
	for (; i < stop; i++) {
		int c = s_getc(s);
		if (c == EOF)
			break;
		touch(d + i, 1, true);
		d[i] = (char) c;
	}
	s_unlock(s);
	return sz ? i / sz : 0;
}
ssize_t simc_getdelim(char **line, size_t *cap, int delim, FILE *fp)
{
	string t;
	SimFILE *s = stream(fp, "getline");
	s_lock(s);
	if (!s_refill_fails(s)) {
		int c;
		while ((c = s_getc(s)) != EOF) {
			t.push_back((char) c);
			if (c == delim)
				break;
		}
	}
	s_unlock(s);
	if (t.empty())
		return -1;
	if (*cap < t.size() + 1 || !*line) {
		void *p = simc_realloc(*line, t.size() + 1);
		if (!p)
			return -1;
		*line = (char *) p;
		*cap = t.size() + 1;
	}
	memcpy(*line, t.c_str(), t.size() + 1);
	return (ssize_t) t.size();
}
ssize_t simc_getline(char **line, size_t *cap, FILE *fp) { return simc_getdelim(line, cap, '\n', fp); }
int simc_ferror(FILE *fp) { return stream(fp, "ferror")->err; }
int simc_feof(FILE *fp) { return stream(fp, "feof")->eof; }
void simc_clearerr(FILE *fp)
{
	SimFILE *s = stream(fp, "clearerr");
	s->err = s->eof = false;
}
long simc_ftell(FILE *fp)
{
	SimFILE *s = stream(fp, "ftell");
	sched_point(7);
	if (fault(F_SYSCALL_ERR)) {
		errno = failed(EIO);
		return -1;
	}
	if (!s->ino)
		return -1;
	if (s->append && !s->wbuf.empty())
		return (long) (s->ino->size + s->wbuf.size());
	return (long) (s->pos + s->wbuf.size());
}
off_t simc_ftello(FILE *fp) { return simc_ftell(fp); }
int simc_fseek(FILE *fp, long o, int wh)
{
	SimFILE *s = stream(fp, "fseek");
	if (fault(F_SYSCALL_ERR)) {
		errno = failed(EIO);
		return -1;
	}
	s_flush(s);
	long b = wh == SEEK_SET ? 0
				: wh == SEEK_CUR ? (long) s->pos
						 : (long) s->ino->size;
	if (b + o < 0) {
		errno = failed(EINVAL);
		return -1;
	}
	s->pos = (size_t) (b + o);
	s->eof = false;
	return 0;
}
int simc_fseeko(FILE *fp, off_t o, int wh) { return simc_fseek(fp, o, wh); }
void simc_rewind(FILE *fp) { simc_fseek(fp, 0, SEEK_SET); }

// -------------------------------------------------------------------- perf
long simc_syscall(long nr, ...)
{
	va_list va;
	va_start(va, nr);
	void *a0 = va_arg(va, void *);
	long a1 = va_arg(va, long), a2 = va_arg(va, long);
	(void) va_arg(va, long);
	long a3 = nr == SYS_perf_event_open ? va_arg(va, long) : 0;
	va_end(va);
	sched_point(4);
	if (nr == SYS_perf_event_open) {
		struct perf_event_attr *at_ = (struct perf_event_attr *) a0;
		touch(at_, sizeof(*at_), false);
		advance((int64_t) choose(60) * 1000);
		if (fault(F_SYSCALL_ERR))
			return err(ENOENT);
		if ((int) a1 < -1 || (int) a2 < -1 || ((int) a1 == -1 && (int) a2 == -1))
			return err(EINVAL);
		auto f = std::make_shared<PerfFd>(k->perf.evs.size());
		int fd = fd_alloc(f);
		k->perf.evs.push_back(
			PerfStub::Ev{fd, at_->type, at_->config, true, !at_->disabled, g.now_ns, 0, range(0, 9),
				     choose(3) ? 16 : range(0, 16), 0,
				     ((int) a1 == 0 || (int) a1 == 4242 + g.cur->id) && (int) a2 == -1 && !at_->exclude_user &&
					     !at_->exclude_kernel && !at_->exclude_hv && at_->inherit,
				     at_->read_format, (a3 & PERF_FLAG_FD_CLOEXEC) != 0});
		return fd;
	}
	if (nr == SYS_gettid)
		return 4242 + g.cur->id;
	errno = failed(ENOSYS);
	return -1;
}
int simc_prctl(int op, ...)
{
	sched_point(4);
	if (fault(F_SYSCALL_ERR))
		return (int) err(EINVAL);
	if (op == PR_TASK_PERF_EVENTS_ENABLE)
		k->perf.set(true);
	else if (op == PR_TASK_PERF_EVENTS_DISABLE)
		k->perf.set(false);
	return 0;
}
}

namespace sim {
void errors_mark()
{
	memset(g.cur->failed, 0, sizeof(g.cur->failed));
	g.cur->failed_gai = 0;
}
bool errno_named(int e, bool by_close)
{
	uint64_t any = 0, bit = 0;
	for (int i = 0; i < 3; i++) {
		uint64_t m = g.cur->failed[1][i] | (by_close ? g.cur->failed[0][i] : 0);
		any |= m;
		if (e / 64 == i)
			bit = m & (1ull << (e % 64));
	}
	return !any || bit;
}
// the reason d stands in the text, whole: letters right behind it would be
// the remains of a longer text that was there before
static int has_reason(const char *text, const char *d)
{
	int r = 0;
	size_t n = strlen(d);
	for (const char *p = text; (p = strstr(p, d)); p++) {
		if (!isalpha((unsigned char) p[n]))
			return 1;
		r = -1;
	}
	return r;
}

bool errors_named(const char *text, bool by_close)
{
	uint64_t m[3], any = 0;
	for (int i = 0; i < 3; i++) {
		m[i] = g.cur->failed[1][i] | (by_close ? g.cur->failed[0][i] : 0);
		any |= m[i];
	}
	uint32_t gai = g.cur->failed_gai;
	bool other = strstr(text, gai_strerror(1)) != nullptr; // no reason at all
	for (int c = 1; c < 32; c++) {
		int h = has_reason(text, gai_strerror(-c));
		if (!h)
			continue;
		if (h > 0 && (gai & (1u << c)))
			return true;
		other = true;
	}
	if (!any && !gai)
		return !other; // it found the reason by itself
	for (int e = 0; e < 192; e++) {
		const char *d = strerrordesc_np(e);
		int h = d ? has_reason(text, d) : 0;
		if (!h)
			continue;
		if (h > 0 && (m[e / 64] & (1ull << (e % 64))))
			return true;
		other = true;
	}
	return !other && !gai;
}
} // namespace sim
