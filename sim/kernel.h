// Control surface of the simulated kernel for the scenarios.
#pragma once
#include "sim.h"
#include <cstdio>
#include <sys/types.h>

namespace sim {

// ---- network
enum Route { RT_OK, RT_UNREACH, RT_BLACKHOLE };
void net_host(const char *name, std::vector<std::string> ips);
void net_route(const char *ip, Route r);
void net_lacks(int family); // a family this host does not have
void net_latency(int64_t ns);
void net_bufsize(size_t n);
// abort the connection behind fd (both ends see a reset)
void net_reset_fd(int fd);
bool net_was_reset(int fd);
void net_drop_routes_on_refuse(bool on);
struct Datagram {
	std::string payload;
	std::string dest; // raw name bytes
	int from_fiber;
};
std::vector<Datagram> &datagrams();
bool dgram_bind(const std::string &rawname);
size_t stream_unread(int fd); // bytes received and waiting
bool fd_nonblock(int fd);
bool fd_is_open(int fd);
const char *fd_kind(int fd);
size_t open_fds();
size_t open_streams();
size_t open_mappings();
size_t live_addrlists();
size_t perf_fds_open();
std::string fd_list();
// forget which error numbers the system calls of this thread have reported
void errors_mark();
// false if the text names an error number none of them reported
bool errno_named(int e, bool by_close = false); // e is what a failing call reported
bool errors_named(const char *text, bool by_close = false);
uint32_t fd_ready(int fd); // EPOLL* bits in force now
bool epoll_mask(int epfd, int fd, uint32_t *mask, uint64_t *data);
size_t epoll_count(int epfd);
void fd_policy(int p); // 0 lowest free, 1 always fresh, 2 lowest incl. 0..2

// sinks: what was written to descriptors 1/2 or sink fds / std streams
int sink_open(); // a descriptor that records what is written to it
std::string &sink_data(int fd); // also after it was closed
void fd_lenient_close(); // closing what is not open is just EBADF, this run
bool fd_set_nonblock(int fd);
size_t pipe_unread(int fd);
std::string &std_capture(int which); // 1 stdout, 2 stderr (stream or fd)
void std_fail(int which, bool on); // writes to stdout/stderr streams fail
void sink_fail(int fd, int mode);	   // 0 ok, 1 EIO, 2 EPIPE, 3 EAGAIN

// ---- disk
bool file_exists(const std::string &path);
std::string file_get(const std::string &path);
void file_put(const std::string &path, const std::string &content); // durable
void file_remove(const std::string &path);
std::vector<std::string> file_list();
void disk_limit(int64_t bytes_free); // -1 = unlimited
int64_t disk_free();
size_t file_holes(const std::string &path, size_t off, size_t len); // pages without space
uint64_t disk_ops();
void disk_crash(); // lose what is not durable; volatile = durable afterwards
bool page_locked(const void *p);
bool page_mapped(const void *p);
uint64_t file_opens();

// ---- perf stub
struct PerfStub {
	struct Ev {
		int fd;
		uint32_t type;
		uint64_t config;
		bool open;
		bool enabled;
		int64_t since;	     // enabled since
		int64_t on_ns;	     // enabled before that
		uint32_t rate, share; // events per us, sixteenths of the time counted
		uint64_t zero;	     // value at the last reset
		bool whole;	     // this thread and those it starts, anywhere, at every level
		uint64_t format;
		bool cloexec;
		uint64_t counted() const { return (uint64_t) on_ns * share / 16; }
		uint64_t value() const { return counted() / 1000 * rate; }
	};
	std::vector<Ev> evs;
	void set(bool on); // all open ones
	void set(size_t i, bool on);
};
PerfStub &perf();

// ---- per fiber: no faults injected into this fiber's own system calls
struct NoFaults {
	NoFaults();
	~NoFaults();
};
void set_env(const char *k, const char *v);
bool any_mutex_locked();
size_t live_mutexes();
size_t live_conds();
size_t live_pthreads();
bool signal_ignored(int sig);
bool signal_default(int sig);
} // namespace sim

struct addrinfo;
struct sockaddr;
struct msghdr;
struct epoll_event;
struct iovec;
extern "C" {
int simc_close(int fd);
ssize_t simc_read(int fd, void *b, size_t n);
ssize_t simc_write(int fd, const void *b, size_t n);
int simc_pipe(int fds[2]);
}
