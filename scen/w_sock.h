// Shared helpers of the socket scenarios.
#ifndef W_SOCK_H
#define W_SOCK_H
#include "kernel.h"
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <new>
#include <sys/socket.h>
extern "C" {
#include "sc_sock.h"
typedef void (*w_sighandler)(int);
w_sighandler simc_signal(int, w_sighandler);
}
struct Place {
	int family;
	std::string host, port;
	std::string text() const { return family == AF_UNIX ? host : host + ":" + port; }
};
static inline bool v6(const std::string &ip) { return ip.find(':') != std::string::npos; }
static inline void ignore_sigpipe() { simc_signal(SIGPIPE, SIG_IGN); }
static inline Place any_place()
{
	switch (sim::choose(3)) {
	case 0:
		return Place{AF_INET, sim::choose(2) ? "127.0.0.1" : "10.0.0.1", "4000"};
	case 1:
		// a short text, or the longest
		return Place{AF_INET6, sim::choose(2) ? "::1" : sim::choose(2) ? "fd00::1" : "fd12:3456:789a:bcde:1234:5678:9abc:def0", sim::choose(2) ? "4001" : "40001"};
	default:
		return Place{AF_UNIX, "/run/service.sock", ""};
	}
}
static inline sc_sock *new_sock(bool blocking, int family)
{
	sc_sock *s = (sc_sock *) sim::harness_alloc(sizeof(*s));
	memset((void *) s, 0xa5, sizeof(*s));
	sc_sock_init(s, (int) sim::choose(100), blocking, family);
	return s;
}
// An established connection between c and s over listener l (no faults).
static inline void connect_pair(sc_sock *l, sc_sock *c, sc_sock *s, const Place &pl)
{
	errno = 0;
	int rc = sc_sock_connect(c, pl.host.c_str(), pl.port.c_str(), nullptr, nullptr);
	if (rc != 0 && !c->blocking && errno == EAGAIN) {
		for (int i = 0; i < 10000 && sim::fd_ready(c->fdt.fd) == 0; i++)
			sim::advance(10000000);
		rc = sc_sock_finish_connect(c);
	}
	if (rc != 0)
		sim::fail("N:setup", "connect: %s (errno %d)", sc_sock_error(c), errno);
	for (int i = 0; sc_sock_accept(l, s) != 0; i++) {
		if (errno != EAGAIN || l->blocking || i > 10000)
			sim::fail("N:setup", "accept: %s", sc_sock_error(l));
		sim::advance(10000000);
	}
}
#endif
