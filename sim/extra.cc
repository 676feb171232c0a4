// Further C library functions a version of the code under test might use:
// their static buffers are visible to the race detector and begin every run in
// the same state.
#include "internal.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/types.h>
#include <unistd.h>

namespace sim {
int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline);

// what a formatted call reads through its string arguments
void touch_format(const char *fmt, va_list va0)
{
	va_list va;
	va_copy(va, va0);
	for (const char *p = fmt; *p; p++) {
		if (*p != '%')
			continue;
		p++;
		long prec = -1;
		while (*p && strchr("-+ #0'", *p))
			p++;
		if (*p == '*') {
			(void) va_arg(va, int);
			p++;
		}
		while (*p >= '0' && *p <= '9')
			p++;
		if (*p == '$')
			break;
		if (*p == '.') {
			p++;
			prec = 0;
			if (*p == '*') {
				prec = va_arg(va, int);
				p++;
			}
			while (*p >= '0' && *p <= '9')
				prec = prec * 10 + (*p++ - '0');
		}
		int l = 0;
		bool ld = false;
		for (; *p && strchr("hlLqjzt", *p); p++) {
			if (*p == 'h')
				continue;
			if (*p == 'L')
				ld = true;
			l++;
		}
		if (*p == 0)
			break;
		if (strchr("diouxXc", *p)) {
			if (l)
				(void) va_arg(va, long);
			else
				(void) va_arg(va, int);
		} else if (strchr("eEfFgGaA", *p)) {
			if (ld)
				(void) va_arg(va, long double);
			else
				(void) va_arg(va, double);
		} else if (*p == 's') {
			const char *s = va_arg(va, const char *);
			if (s && !l)
				(void) checked_strlen(s, prec < 0 ? ~(size_t) 0 : (size_t) prec);
		} else if (*p == 'p' || *p == 'n') {
			(void) va_arg(va, void *);
		} else if (*p != '%' && *p != 'm') {
			break;
		}
	}
	va_end(va);
}

static char inet_buf[20], sig_buf[64], time_buf[64];
static char *tok_save;
static uint64_t rand_state;
static struct Key {
	bool used;
	void (*dtor)(void *);
} keys[64];
struct Sem {
	unsigned value;
	std::vector<Fiber *> waiters;
	VC vc;
};
static std::map<const void *, Sem> sems;
struct RwLock {
	int readers = 0;
	Fiber *writer = nullptr;
	std::vector<Fiber *> waiters;
	VC vc;
};
static std::map<const void *, RwLock> rws;
static std::map<const void *, Fiber *> spins;
static std::map<const void *, VC> spin_vc;

void extra_reset()
{
	tok_save = nullptr;
	rand_state = 1;
	memset(keys, 0, sizeof(keys));
	sems.clear();
	rws.clear();
	spins.clear();
	spin_vc.clear();
}
void extra_thread_exit()
{
	for (int round = 0; round < 4; round++) {
		bool any = false;
		for (unsigned i = 0; i < 64; i++) {
			if (!keys[i].used || !keys[i].dtor)
				continue;
			auto it = self()->tls.find((void *) (uintptr_t) (i + 100));
			if (it == self()->tls.end() || !it->second)
				continue;
			void *v = it->second;
			it->second = nullptr;
			any = true;
			keys[i].dtor(v);
		}
		if (!any)
			return;
	}
}
} // namespace sim
using namespace sim;

extern "C" {
ssize_t simc_write(int fd, const void *p, size_t n);
ssize_t simc_recv(int fd, void *b, size_t n, int flags);
int simc_poll(struct pollfd *p, nfds_t n, int timeout);
int simc_open(const char *path, int flags, ...);
int simc_pthread_mutex_trylock(pthread_mutex_t *m);
bool simc_dup_to(int a, int b);
int simc_kill(int pid, int sig);
int simc_raise(int sig);
int simc_posix_fallocate(int fd, off_t off, off_t len);
int simc_fallocate(int fd, int mode, off_t off, off_t len);
off_t simc_lseek(int fd, off_t o, int wh);
int simc_ftruncate(int fd, off_t len);
ssize_t simc_pread(int fd, void *b, size_t n, off_t o);
ssize_t simc_pwrite(int fd, const void *b, size_t n, off_t o);
size_t simc_fwrite(const void *b, size_t sz, size_t n, FILE *fp);
size_t simc_fread(void *b, size_t sz, size_t n, FILE *fp);
int simc_fputs(const char *b, FILE *fp);
int simc_fputc(int c, FILE *fp);
int simc_fflush(FILE *fp);
int simc_fgetc(FILE *fp);
char *simc_fgets(char *b, int n, FILE *fp);
int simc_feof(FILE *fp);
int simc_ferror(FILE *fp);
int simc_access(const char *path, int m);
struct tm *simc_localtime(const time_t *t);
int simc_pthread_mutex_lock(pthread_mutex_t *m);
pthread_t simc_pthread_self(void);
int simc_getpid(void);
const char *simc_inet_ntop(int af, const void *src, char *dst, socklen_t n);

off_t simc_lseek64(int fd, off_t o, int wh) { return simc_lseek(fd, o, wh); }
int simc_posix_fallocate64(int fd, off_t a, off_t b) { return simc_posix_fallocate(fd, a, b); }
int simc_fallocate64(int fd, int m, off_t a, off_t b) { return simc_fallocate(fd, m, a, b); }
int simc_ftruncate64(int fd, off_t n) { return simc_ftruncate(fd, n); }
ssize_t simc_pread64(int fd, void *b, size_t n, off_t o) { return simc_pread(fd, b, n, o); }
ssize_t simc_pwrite64(int fd, const void *b, size_t n, off_t o) { return simc_pwrite(fd, b, n, o); }
int simc_faccessat(int, const char *p, int m, int) { return simc_access(p, m); }

size_t simc_fwrite_unlocked(const void *b, size_t sz, size_t n, FILE *fp) { return simc_fwrite(b, sz, n, fp); }
size_t simc_fread_unlocked(void *b, size_t sz, size_t n, FILE *fp) { return simc_fread(b, sz, n, fp); }
int simc_fputs_unlocked(const char *b, FILE *fp) { return simc_fputs(b, fp); }
int simc_fputc_unlocked(int c, FILE *fp) { return simc_fputc(c, fp); }
int simc_putc_unlocked(int c, FILE *fp) { return simc_fputc(c, fp); }
int simc_fflush_unlocked(FILE *fp) { return simc_fflush(fp); }
int simc_fgetc_unlocked(FILE *fp) { return simc_fgetc(fp); }
int simc_getc_unlocked(FILE *fp) { return simc_fgetc(fp); }
char *simc_fgets_unlocked(char *b, int n, FILE *fp) { return simc_fgets(b, n, fp); }
int simc_feof_unlocked(FILE *fp) { return simc_feof(fp); }
int simc_ferror_unlocked(FILE *fp) { return simc_ferror(fp); }

int simc_vdprintf(int fd, const char *fmt, va_list va)
{
	unsafe_call("dprintf");
	va_list cp;
	va_copy(cp, va);
	touch_format(fmt, cp);
	int n = vsnprintf(nullptr, 0, fmt, cp);
	va_end(cp);
	if (n < 0)
		return n;
	std::string s((size_t) n + 1, 0);
	vsnprintf(&s[0], s.size(), fmt, va);
	size_t o = 0;
	while (o < (size_t) n) {
		ssize_t w = simc_write(fd, s.data() + o, (size_t) n - o);
		if (w < 0)
			return -1;
		o += (size_t) w;
	}
	return n;
}
int simc_dprintf(int fd, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int rc = simc_vdprintf(fd, fmt, va);
	va_end(va);
	return rc;
}

// not reentrant: one static buffer
char *simc_strtok(char *s, const char *d)
{
	unsafe_call("strtok");
	sched_point(2);
	touch(&tok_save, sizeof(tok_save), true);
	return strtok_r(s, d, &tok_save);
}
char *simc_inet_ntoa(struct in_addr a)
{
	sched_point(2);
	touch(inet_buf, sizeof(inet_buf), true);
	inet_ntop(AF_INET, &a, inet_buf, sizeof(inet_buf));
	return inet_buf;
}
char *simc_strsignal(int sig)
{
	unsafe_call("strsignal");
	sched_point(2);
	touch(sig_buf, sizeof(sig_buf), true);
	const char *d = sigdescr_np(sig);
	snprintf(sig_buf, sizeof(sig_buf), "%s", d ? d : "Unknown signal");
	return sig_buf;
}
char *simc_asctime(const struct tm *t)
{
	unsafe_call("asctime");
	sched_point(2);
	touch(t, sizeof(*t), false);
	touch(time_buf, sizeof(time_buf), true);
	return asctime_r(t, time_buf);
}
char *simc_ctime(const time_t *t)
{
	struct tm *x = simc_localtime(t);
	return x ? simc_asctime(x) : nullptr;
}
static uint64_t next_rand()
{
	sched_point(2);
	touch(&rand_state, sizeof(rand_state), true);
	rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull;
	return rand_state >> 33;
}
int simc_rand(void) { return (int) (next_rand() & 0x7fffffff); }
long simc_random(void) { return (long) (next_rand() & 0x7fffffff); }
void simc_srand(unsigned s) { rand_state = s; }
void simc_srandom(unsigned s) { rand_state = s; }
ssize_t simc_getrandom(void *b, size_t n, unsigned)
{
	touch(b, n, true);
	for (size_t i = 0; i < n; i++)
		((char *) b)[i] = (char) choose(256);
	return (ssize_t) n;
}
int simc_getentropy(void *b, size_t n) { return simc_getrandom(b, n, 0) == (ssize_t) n ? 0 : -1; }

int simc_pthread_kill(pthread_t t, int sig)
{
	// only to the calling thread or, like a signal to the process, anywhere
	(void) t;
	if (sig == 0)
		return 0;
	simc_raise(sig);
	return 0;
}
int simc_tgkill(int, int, int sig) { return simc_pthread_kill(simc_pthread_self(), sig); }

int simc_pthread_key_create(pthread_key_t *k, void (*dtor)(void *))
{
	for (unsigned i = 0; i < 64; i++)
		if (!keys[i].used) {
			keys[i].used = true;
			keys[i].dtor = dtor;
			*k = i + 100;
			return 0;
		}
	return EAGAIN;
}
int simc_pthread_key_delete(pthread_key_t k)
{
	if (k < 100 || k >= 164)
		return EINVAL;
	keys[k - 100].used = false;
	return 0;
}
int simc_pthread_setspecific(pthread_key_t k, const void *v)
{
	if (k < 100 || k >= 164 || !keys[k - 100].used)
		return EINVAL;
	self()->tls[(void *) (uintptr_t) k] = (void *) v;
	return 0;
}
void *simc_pthread_getspecific(pthread_key_t k)
{
	auto &m = self()->tls;
	auto it = m.find((void *) (uintptr_t) k);
	return it == m.end() ? nullptr : it->second;
}
int simc_pthread_getname_np(pthread_t, char *b, size_t n)
{
	if (n < 16)
		return ERANGE;
	touch(b, 4, true);
	memcpy(b, "sim", 4);
	return 0;
}
int simc_pthread_attr_setguardsize(pthread_attr_t *, size_t) { return 0; }
int simc_pthread_attr_getdetachstate(const pthread_attr_t *, int *s)
{
	*s = PTHREAD_CREATE_JOINABLE;
	return 0;
}

// ---- semaphores, reader/writer locks, spin locks
int simc_sem_init(sem_t *s, int, unsigned v)
{
	sems[s] = Sem{v, {}, VC()};
	return 0;
}
int simc_sem_destroy(sem_t *s)
{
	sems.erase(s);
	return 0;
}
static Sem *sem_of(sem_t *s)
{
	auto it = sems.find(s);
	if (it == sems.end())
		fail("lock:misuse", "use of an uninitialised semaphore");
	return &it->second;
}
int simc_sem_post(sem_t *s)
{
	Sem *x = sem_of(s);
	hb_release(x->vc);
	x->value++;
	for (auto f : x->waiters)
		wake(f);
	x->waiters.clear();
	sched_point(2);
	return 0;
}
int simc_sem_trywait(sem_t *s)
{
	sched_point(2);
	Sem *x = sem_of(s);
	if (!x->value) {
		errno = EAGAIN;
		return -1;
	}
	x->value--;
	hb_acquire(x->vc);
	return 0;
}
int simc_sem_wait(sem_t *s)
{
	sched_point(2);
	Sem *x = sem_of(s);
	while (!x->value) {
		x->waiters.push_back(self());
		block("sem_wait");
		x = sem_of(s);
	}
	x->value--;
	hb_acquire(x->vc);
	return 0;
}
static int rw_lock(void *l, bool w, bool try_only)
{
	sched_point(2);
	RwLock *x = &rws[l];
	while (x->writer || (w && x->readers)) {
		if (try_only)
			return EBUSY;
		x->waiters.push_back(self());
		block("rwlock");
		x = &rws[l];
	}
	if (w)
		x->writer = self();
	else
		x->readers++;
	hb_acquire(x->vc);
	return 0;
}
int simc_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *)
{
	if (fault(F_MUTEX_INIT))
		return ENOMEM;
	rws[l] = RwLock();
	return 0;
}
int simc_pthread_rwlock_destroy(pthread_rwlock_t *l)
{
	rws.erase(l);
	return 0;
}
int simc_pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_lock(l, false, false); }
int simc_pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_lock(l, true, false); }
int simc_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_lock(l, false, true); }
int simc_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_lock(l, true, true); }
int simc_pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	RwLock *x = &rws[l];
	hb_release(x->vc);
	if (x->writer)
		x->writer = nullptr;
	else if (x->readers)
		x->readers--;
	else
		fail("lock:misuse", "unlock of a lock that is not held");
	for (auto f : x->waiters)
		wake(f);
	x->waiters.clear();
	sched_point(2);
	return 0;
}
int simc_pthread_spin_init(pthread_spinlock_t *l, int)
{
	spins[(const void *) l] = nullptr;
	return 0;
}
int simc_pthread_spin_destroy(pthread_spinlock_t *l)
{
	spins.erase((const void *) l);
	return 0;
}
int simc_pthread_spin_trylock(pthread_spinlock_t *l)
{
	sched_point(2);
	Fiber *&o = spins[(const void *) l];
	if (o)
		return EBUSY;
	o = self();
	hb_acquire(spin_vc[(const void *) l]);
	return 0;
}
int simc_pthread_spin_lock(pthread_spinlock_t *l)
{
	while (simc_pthread_spin_trylock(l) != 0)
		yield();
	return 0;
}
int simc_pthread_spin_unlock(pthread_spinlock_t *l)
{
	hb_release(spin_vc[(const void *) l]);
	spins[(const void *) l] = nullptr;
	sched_point(2);
	return 0;
}

// ---- variants of calls the simulator already models
void simc_pthread_exit(void *r)
{
	self()->ret = r;
	extra_thread_exit();
	exit_fiber();
	abort();
}
int simc_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk,
				const struct timespec *ts)
{
	int64_t t = (int64_t) ts->tv_sec * 1000000000 + ts->tv_nsec;
	if (clk == CLOCK_REALTIME)
		t -= g.wall_off;
	return cond_wait(c, m, t < g.now_ns ? g.now_ns : t);
}
int simc_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	int64_t t = (int64_t) ts->tv_sec * 1000000000 + ts->tv_nsec - g.wall_off, t0 = g.now_ns;
	for (;;) {
		int rc = simc_pthread_mutex_trylock(m);
		if (rc != EBUSY)
			return rc;
		if (g.now_ns >= t)
			return ETIMEDOUT;
		advance(std::min<int64_t>(1000000 + (g.now_ns - t0) / 8, t - g.now_ns));
	}
}
int simc_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
	struct timespec x = *ts;
	if (clk != CLOCK_REALTIME) {
		int64_t t = (int64_t) ts->tv_sec * 1000000000 + ts->tv_nsec + g.wall_off;
		x.tv_sec = t / 1000000000;
		x.tv_nsec = t % 1000000000;
	}
	return simc_pthread_mutex_timedlock(m, &x);
}
ssize_t simc_recvmsg(int fd, struct msghdr *m, int flags)
{
	touch(m, sizeof(*m), false);
	size_t n = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++)
		n += m->msg_iov[i].iov_len;
	std::string b(n + 1, 0);
	ssize_t rc = simc_recv(fd, &b[0], n, flags);
	for (size_t i = 0, o = 0; rc > 0 && o < (size_t) rc; i++) {
		size_t c = std::min(m->msg_iov[i].iov_len, (size_t) rc - o);
		if (c) {
			touch(m->msg_iov[i].iov_base, c, true);
			memcpy(m->msg_iov[i].iov_base, b.data() + o, c);
		}
		o += c;
	}
	if (rc >= 0) {
		m->msg_flags = 0;
		m->msg_controllen = 0;
		m->msg_namelen = 0;
	}
	return rc;
}
int simc_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *)
{
	int ms = -1;
	if (ts) {
		int64_t t = (int64_t) ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000;
		ms = t > INT32_MAX ? INT32_MAX : (int) t;
	}
	return simc_poll(p, n, ms);
}
int simc_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	std::vector<struct pollfd> v;
	for (int i = 0; i < n; i++) {
		short e = 0;
		if (r && FD_ISSET(i, r))
			e |= POLLIN;
		if (w && FD_ISSET(i, w))
			e |= POLLOUT;
		if (x && FD_ISSET(i, x))
			e |= POLLPRI;
		if (e)
			v.push_back({i, e, 0});
	}
	int64_t ms = tv ? (int64_t) tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000 : -1;
	int rc = simc_poll(v.data(), v.size(), ms > INT32_MAX ? INT32_MAX : (int) ms);
	if (rc < 0)
		return rc;
	for (auto &p : v)
		if (p.revents & POLLNVAL) {
			errno = EBADF;
			return -1;
		}
	if (r)
		FD_ZERO(r);
	if (w)
		FD_ZERO(w);
	if (x)
		FD_ZERO(x);
	int c = 0;
	for (auto &p : v) {
		if (r && (p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) {
			FD_SET(p.fd, r);
			c++;
		}
		if (w && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) {
			FD_SET(p.fd, w);
			c++;
		}
	}
	return c;
}
int simc_openat(int dir, const char *path, int flags, ...)
{
	va_list va;
	va_start(va, flags);
	int mode = flags & O_CREAT ? va_arg(va, int) : 0;
	va_end(va);
	if (dir != AT_FDCWD && path[0] != '/')
		return simc_open("/nodir/x", O_RDONLY);
	return simc_open(path, flags, mode);
}
int simc_openat64(int dir, const char *path, int flags, int mode) { return simc_openat(dir, path, flags, mode); }
char *simc_strsep(char **s, const char *d)
{
	if (!*s)
		return nullptr;
	(void) checked_strlen(*s, ~(size_t) 0);
	char *b = *s, *e = strpbrk(b, d);
	if (e) {
		touch(e, 1, true);
		*e = 0;
		*s = e + 1;
	} else {
		*s = nullptr;
	}
	return b;
}
void *simc_memmem(const void *h, size_t n, const void *x, size_t m)
{
	if (n)
		touch(h, n, false);
	if (m)
		touch(x, m, false);
	return memmem(h, n, x, m);
}
void *simc_rawmemchr(const void *s, int c)
{
	const char *p = (const char *) s;
	while (*p != (char) c)
		touch(p++, 1, false);
	return (void *) p;
}
char *simc_strcasestr(const char *a, const char *b)
{
	(void) checked_strlen(a, ~(size_t) 0);
	(void) checked_strlen(b, ~(size_t) 0);
	return (char *) strcasestr(a, b);
}
void simc_bzero(void *p, size_t n)
{
	if (n)
		touch(p, n, true);
	memset(p, 0, n);
}
void simc_explicit_bzero(void *p, size_t n) { simc_bzero(p, n); }
char *simc_stpncpy(char *d, const char *s, size_t n)
{
	(void) checked_strlen(s, n);
	if (n)
		touch(d, n, true);
	return stpncpy(d, s, n);
}
size_t simc_strlcpy(char *d, const char *s, size_t n)
{
	size_t l = checked_strlen(s, ~(size_t) 0);
	if (n) {
		size_t c = l < n ? l : n - 1;
		touch(d, c + 1, true);
		memcpy(d, s, c);
		d[c] = 0;
	}
	return l;
}
size_t simc_strlcat(char *d, const char *s, size_t n)
{
	size_t k = checked_strlen(d, n);
	return k == n ? n + checked_strlen(s, ~(size_t) 0) : k + simc_strlcpy(d + k, s, n - k);
}
#define TO(name, T)                                                            \
	T simc_##name(const char *s, char **e, int base)                       \
	{                                                                      \
		(void) checked_strlen(s, ~(size_t) 0);                         \
		return name(s, e, base);                                       \
	}
TO(strtol, long)
TO(strtoul, unsigned long)
TO(strtoll, long long)
TO(strtoull, unsigned long long)
int simc_atoi(const char *s)
{
	(void) checked_strlen(s, ~(size_t) 0);
	return atoi(s);
}
int simc_dup2(int a, int b)
{
	if (a == b || simc_dup_to(a, b))
		return b;
	errno = EBADF;
	return -1;
}
int simc_dup3(int a, int b, int) { return simc_dup2(a, b); }
}
