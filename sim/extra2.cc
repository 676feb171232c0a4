// Less usual spellings of calls the simulator already models: a version of the
// code under test that uses them must still meet the simulated world and not
// the real one.
#include "internal.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <threads.h>
#include <unistd.h>

namespace sim {
struct Barrier {
	unsigned need, in, round;
	VC vc;
};
static std::map<const void *, Barrier> barriers;
void extra2_reset() { barriers.clear(); }
} // namespace sim
using namespace sim;

extern "C" {
void *simc_malloc(size_t);
void simc_free(void *);
int simc_pthread_create(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
int simc_pthread_join(pthread_t, void **);
int simc_pthread_detach(pthread_t);
pthread_t simc_pthread_self(void);
void simc_pthread_exit(void *);
int simc_pthread_once(pthread_once_t *, void (*)(void));
int simc_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int simc_pthread_mutex_lock(pthread_mutex_t *);
int simc_pthread_mutex_trylock(pthread_mutex_t *);
int simc_pthread_mutex_timedlock(pthread_mutex_t *, const struct timespec *);
int simc_pthread_mutex_unlock(pthread_mutex_t *);
int simc_pthread_mutex_destroy(pthread_mutex_t *);
int simc_pthread_mutexattr_init(pthread_mutexattr_t *);
int simc_pthread_mutexattr_settype(pthread_mutexattr_t *, int);
int simc_pthread_mutexattr_destroy(pthread_mutexattr_t *);
int simc_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int simc_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int simc_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int simc_pthread_cond_signal(pthread_cond_t *);
int simc_pthread_cond_broadcast(pthread_cond_t *);
int simc_pthread_cond_destroy(pthread_cond_t *);
int simc_pthread_key_create(pthread_key_t *, void (*)(void *));
int simc_pthread_key_delete(pthread_key_t);
int simc_pthread_setspecific(pthread_key_t, const void *);
void *simc_pthread_getspecific(pthread_key_t);
int simc_clock_gettime(clockid_t, struct timespec *);
int simc_nanosleep(const struct timespec *, struct timespec *);
int simc_sched_yield(void);
int simc_stat(const char *, struct stat *);
int simc_fstat(int, struct stat *);
int simc_rename(const char *, const char *);
int simc_unlink(const char *);
ssize_t simc_pread(int, void *, size_t, off_t);
ssize_t simc_pwrite(int, const void *, size_t, off_t);
ssize_t simc_sendmsg(int, const struct msghdr *, int);
ssize_t simc_recvmsg(int, struct msghdr *, int);
int simc_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int simc_mlock(const void *, size_t);
int simc_fileno(FILE *);

// ---- C11 threads: the same objects as the POSIX ones
static int to_thrd(int rc)
{
	return rc == 0 ? thrd_success
	     : rc == ENOMEM ? thrd_nomem
	     : rc == EBUSY ? thrd_busy
	     : rc == ETIMEDOUT ? thrd_timedout : thrd_error;
}
namespace {
struct Start {
	thrd_start_t fn;
	void *arg;
};
void *c11_main(void *p)
{
	Start s = *(Start *) p;
	delete (Start *) p;
	return (void *) (intptr_t) s.fn(s.arg);
}
} // namespace
int simc_thrd_create(thrd_t *t, thrd_start_t fn, void *arg)
{
	Start *s = new Start{fn, arg};
	int rc = simc_pthread_create((pthread_t *) t, nullptr, c11_main, s);
	if (rc)
		delete s;
	return to_thrd(rc);
}
int simc_thrd_join(thrd_t t, int *res)
{
	void *r = nullptr;
	int rc = simc_pthread_join((pthread_t) t, &r);
	if (!rc && res)
		*res = (int) (intptr_t) r;
	return to_thrd(rc);
}
int simc_thrd_detach(thrd_t t) { return to_thrd(simc_pthread_detach((pthread_t) t)); }
thrd_t simc_thrd_current(void) { return (thrd_t) simc_pthread_self(); }
int simc_thrd_equal(thrd_t a, thrd_t b) { return a == b; }
void simc_thrd_exit(int r) { simc_pthread_exit((void *) (intptr_t) r); }
void simc_thrd_yield(void) { simc_sched_yield(); }
int simc_thrd_sleep(const struct timespec *t, struct timespec *rem)
{
	if (simc_nanosleep(t, rem) == 0)
		return 0;
	return errno == EINTR ? -1 : -2;
}
int simc_mtx_init(mtx_t *m, int type)
{
	pthread_mutexattr_t a;
	if (!(type & mtx_recursive))
		return to_thrd(simc_pthread_mutex_init((pthread_mutex_t *) m, nullptr));
	int rc = simc_pthread_mutexattr_init(&a);
	if (rc)
		return to_thrd(rc);
	simc_pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
	rc = simc_pthread_mutex_init((pthread_mutex_t *) m, &a);
	simc_pthread_mutexattr_destroy(&a);
	return to_thrd(rc);
}
int simc_mtx_lock(mtx_t *m) { return to_thrd(simc_pthread_mutex_lock((pthread_mutex_t *) m)); }
int simc_mtx_trylock(mtx_t *m) { return to_thrd(simc_pthread_mutex_trylock((pthread_mutex_t *) m)); }
int simc_mtx_timedlock(mtx_t *m, const struct timespec *t)
{
	return to_thrd(simc_pthread_mutex_timedlock((pthread_mutex_t *) m, t));
}
int simc_mtx_unlock(mtx_t *m) { return to_thrd(simc_pthread_mutex_unlock((pthread_mutex_t *) m)); }
void simc_mtx_destroy(mtx_t *m) { simc_pthread_mutex_destroy((pthread_mutex_t *) m); }
int simc_cnd_init(cnd_t *c) { return to_thrd(simc_pthread_cond_init((pthread_cond_t *) c, nullptr)); }
int simc_cnd_wait(cnd_t *c, mtx_t *m)
{
	return to_thrd(simc_pthread_cond_wait((pthread_cond_t *) c, (pthread_mutex_t *) m));
}
int simc_cnd_timedwait(cnd_t *c, mtx_t *m, const struct timespec *t)
{
	return to_thrd(simc_pthread_cond_timedwait((pthread_cond_t *) c, (pthread_mutex_t *) m, t));
}
int simc_cnd_signal(cnd_t *c) { return to_thrd(simc_pthread_cond_signal((pthread_cond_t *) c)); }
int simc_cnd_broadcast(cnd_t *c) { return to_thrd(simc_pthread_cond_broadcast((pthread_cond_t *) c)); }
void simc_cnd_destroy(cnd_t *c) { simc_pthread_cond_destroy((pthread_cond_t *) c); }
void simc_call_once(once_flag *o, void (*fn)(void)) { simc_pthread_once((pthread_once_t *) o, fn); }
int simc_tss_create(tss_t *k, tss_dtor_t d) { return to_thrd(simc_pthread_key_create((pthread_key_t *) k, d)); }
void simc_tss_delete(tss_t k) { simc_pthread_key_delete(k); }
int simc_tss_set(tss_t k, void *v) { return to_thrd(simc_pthread_setspecific(k, v)); }
void *simc_tss_get(tss_t k) { return simc_pthread_getspecific(k); }
int simc_timespec_get(struct timespec *ts, int base)
{
	return base == TIME_UTC && simc_clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0;
}

// ---- further thread calls
int simc_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n)
{
	if (n == 0)
		return EINVAL;
	barriers[b] = Barrier{n, 0, 0, VC()};
	return 0;
}
int simc_pthread_barrier_destroy(pthread_barrier_t *b)
{
	barriers.erase(b);
	return 0;
}
int simc_pthread_barrier_wait(pthread_barrier_t *b)
{
	sched_point(2);
	if (!barriers.count(b))
		fail("lock:misuse", "wait on an uninitialised barrier");
	Barrier &x = barriers[b];
	unsigned r = x.round;
	hb_release(x.vc);
	if (++x.in == x.need) {
		x.in = 0;
		x.round++;
		hb_acquire(x.vc);
		return PTHREAD_BARRIER_SERIAL_THREAD;
	}
	while (x.round == r)
		yield();
	hb_acquire(x.vc);
	return 0;
}
void simc_pthread_testcancel(void) {}
int simc_pthread_setcancelstate(int, int *old)
{
	if (old)
		*old = PTHREAD_CANCEL_ENABLE;
	return 0;
}
int simc_pthread_setcanceltype(int, int *old)
{
	if (old)
		*old = PTHREAD_CANCEL_DEFERRED;
	return 0;
}

// ---- files and memory
int simc_fstatat(int dir, const char *p, struct stat *st, int flags)
{
	if ((flags & AT_EMPTY_PATH) && !*p)
		return simc_fstat(dir, st);
	return simc_stat(p, st);
}
int simc_fstatat64(int dir, const char *p, struct stat *st, int flags) { return simc_fstatat(dir, p, st, flags); }
int simc_lstat64(const char *p, struct stat *st) { return simc_stat(p, st); }
int simc_renameat(int, const char *a, int, const char *b) { return simc_rename(a, b); }
int simc_renameat2(int, const char *a, int, const char *b, unsigned f)
{
	if (f) {
		errno = EINVAL;
		return -1;
	}
	return simc_rename(a, b);
}
int simc_unlinkat(int, const char *p, int) { return simc_unlink(p); }
int simc_mlock2(const void *a, size_t n, unsigned) { return simc_mlock(a, n); }
int simc_posix_madvise(void *, size_t, int) { return 0; }
int simc_posix_fadvise(int, off_t, off_t, int) { return 0; }
int simc_posix_fadvise64(int, off_t, off_t, int) { return 0; }
int simc_sync_file_range(int, off_t, off_t, unsigned) { return 0; }
int simc_flock(int, int) { return 0; }
int simc_fileno_unlocked(FILE *fp) { return simc_fileno(fp); }
ssize_t simc_preadv(int fd, const struct iovec *v, int n, off_t o)
{
	ssize_t t = 0;
	for (int i = 0; i < n; i++) {
		ssize_t r = simc_pread(fd, v[i].iov_base, v[i].iov_len, o + t);
		if (r < 0)
			return t ? t : r;
		t += r;
		if ((size_t) r < v[i].iov_len)
			break;
	}
	return t;
}
ssize_t simc_pwritev(int fd, const struct iovec *v, int n, off_t o)
{
	ssize_t t = 0;
	for (int i = 0; i < n; i++) {
		ssize_t r = simc_pwrite(fd, v[i].iov_base, v[i].iov_len, o + t);
		if (r < 0)
			return t ? t : r;
		t += r;
		if ((size_t) r < v[i].iov_len)
			break;
	}
	return t;
}
ssize_t simc_preadv64(int fd, const struct iovec *v, int n, off_t o) { return simc_preadv(fd, v, n, o); }
ssize_t simc_pwritev64(int fd, const struct iovec *v, int n, off_t o) { return simc_pwritev(fd, v, n, o); }
void *simc_memccpy(void *d, const void *s, int c, size_t n)
{
	char *o = (char *) d;
	const char *p = (const char *) s;
	for (size_t i = 0; i < n; i++) {
		touch(p + i, 1, false);
		touch(o + i, 1, true);
		o[i] = p[i];
		if (p[i] == (char) c)
			return o + i + 1;
	}
	return nullptr;
}
void *simc_memalign(size_t, size_t n) { return simc_malloc(n); }
void *simc_valloc(size_t n) { return simc_malloc(n); }

// ---- sockets
int simc_sendmmsg(int fd, struct mmsghdr *m, unsigned n, int flags)
{
	unsigned i;
	for (i = 0; i < n; i++) {
		ssize_t r = simc_sendmsg(fd, &m[i].msg_hdr, flags);
		if (r < 0)
			break;
		m[i].msg_len = (unsigned) r;
	}
	return i || !n ? (int) i : -1;
}
int simc_recvmmsg(int fd, struct mmsghdr *m, unsigned n, int flags, struct timespec *)
{
	unsigned i;
	for (i = 0; i < n; i++) {
		ssize_t r = simc_recvmsg(fd, &m[i].msg_hdr, flags);
		if (r < 0)
			break;
		m[i].msg_len = (unsigned) r;
	}
	return i || !n ? (int) i : -1;
}
int simc_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *ts, const sigset_t *)
{
	struct timeval tv;
	if (ts) {
		tv.tv_sec = ts->tv_sec;
		tv.tv_usec = (ts->tv_nsec + 999) / 1000;
	}
	return simc_select(n, r, w, x, ts ? &tv : nullptr);
}
}
