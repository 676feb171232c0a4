// Simulated heap, access checks, data-race detection, instrumentation hooks and
// the checked string functions the code under test is linked against.
#include "internal.h"
#include <cctype>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <strings.h>
#include <sys/mman.h>

namespace sim {

static const size_t ARENA = 96u << 20;
static const size_t RED = 64;
char *arena_base, *arena_end;
char *page_base, *page_end;
static uint8_t *shadow;
static size_t arena_top;
struct Block {
	char *p;
	size_t n;
	bool live, harness;
	const char *by;
};
static std::vector<Block> blocks;
static uint64_t live_tracked;

static void arena_init()
{
	if (arena_base)
		return;
	arena_base = (char *) mmap((void *) 0x510000000000ull, ARENA,
				   PROT_READ | PROT_WRITE,
				   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
					   MAP_FIXED_NOREPLACE,
				   -1, 0);
	shadow = (uint8_t *) mmap((void *) 0x520000000000ull, ARENA,
				  PROT_READ | PROT_WRITE,
				  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
					  MAP_FIXED_NOREPLACE,
				  -1, 0);
	if (arena_base == MAP_FAILED || shadow == MAP_FAILED)
		abort();
	arena_end = arena_base + ARENA;
}

// ------------------------------------------------------------ race detector
struct Slot {
	uint8_t fiber;
	uint8_t mask;
	uint8_t fl; // 1 valid, 2 write, 4 atomic
	uint8_t pad;
	uint32_t clk;
};
struct Gran {
	uint64_t key;
	uint32_t epoch;
	uint32_t rr;
	Slot s[4];
};
static const size_t NG = 1u << 17;
static Gran *grans;
static uint32_t race_epoch;
static uint32_t race_count;
static std::map<const void *, VC> *atomic_vc;

void race_on(bool on) { g.race = on; }

static void race_report(uint64_t addr, const Slot &o, bool write)
{
	char w[64] = "";
	if (addr >= (uint64_t) arena_base && addr < (uint64_t) arena_end)
		snprintf(w, sizeof(w), "heap block");
	else if (addr >= 0x500000000000ull && addr < 0x510000000000ull)
		snprintf(w, sizeof(w), "a thread's stack");
	else
		snprintf(w, sizeof(w), "static data");
	trace("racing address %p", (void *) addr);
	fail("race:data",
	     "fiber %d %s memory (%s) that fiber %d %s with no ordering between "
	     "them",
	     g.cur->id, write ? "writes" : "reads", w, o.fiber,
	     (o.fl & 2) ? "wrote" : "read");
}

static void race_gran(uint64_t key, uint8_t mask, bool write, bool atomic)
{
	size_t h = (size_t) ((key * 0x9e3779b97f4a7c15ull) >> 40) & (NG - 1);
	Gran *e;
	for (;;) {
		e = &grans[h];
		if (e->epoch != race_epoch) {
			if (race_count > NG / 2)
				return;
			race_count++;
			memset(e, 0, sizeof(*e));
			e->epoch = race_epoch;
			e->key = key;
			break;
		}
		if (e->key == key)
			break;
		h = (h + 1) & (NG - 1);
	}
	int me = g.cur->id;
	Slot *put = nullptr;
	for (auto &s : e->s) {
		if (!(s.fl & 1)) {
			if (!put)
				put = &s;
			continue;
		}
		if (s.fiber == me) {
			if (s.mask == mask && ((s.fl & 2) == 0 || write) &&
			    ((s.fl & 4) != 0) == atomic)
				put = &s;
			continue;
		}
		if ((s.mask & mask) && ((s.fl & 2) || write) &&
		    !((s.fl & 4) && atomic) &&
		    s.clk > g.cur->vc.get(s.fiber))
			race_report(key << 3, s, write);
	}
	if (!put)
		put = &e->s[e->rr++ & 3];
	put->fiber = (uint8_t) me;
	put->mask = mask;
	put->fl = (uint8_t) (1 | (write ? 2 : 0) | (atomic ? 4 : 0));
	put->clk = g.cur->vc.get(me);
}

static void race_range(const void *p, size_t n, bool write, bool atomic)
{
	uint64_t a = (uint64_t) p, e = a + n;
	// errno is per thread; here every fiber shares the host thread's
	if (p == (const void *) &errno)
		return;
	if (n > 65536)
		e = a + 65536;
	while (a < e) {
		uint64_t k = a >> 3;
		unsigned lo = a & 7;
		unsigned hi = (unsigned) ((e - (k << 3)) < 8 ? e - (k << 3) : 8);
		uint8_t mask = (uint8_t) ((0xff << lo) & (0xff >> (8 - hi)));
		race_gran(k, mask, write, atomic);
		a = (k + 1) << 3;
	}
}

// The harness got this memory from its own allocator: earlier accesses were to
// another object.
static void race_forget(const void *p, size_t n)
{
	for (uint64_t key = (uint64_t) p >> 3, end = ((uint64_t) p + n + 7) >> 3; key < end; key++) {
		size_t h = (size_t) ((key * 0x9e3779b97f4a7c15ull) >> 40) & (NG - 1);
		for (Gran *e = &grans[h]; e->epoch == race_epoch; e = &grans[h = (h + 1) & (NG - 1)])
			if (e->key == key) {
				memset(e->s, 0, sizeof(e->s));
				break;
			}
	}
}

void hb_acquire(const VC &v)
{
	if (g.cur)
		g.cur->vc.join(v);
}
void hb_release(VC &v)
{
	if (!g.cur)
		return;
	v.join(g.cur->vc);
	g.cur->vc.set(g.cur->id, g.cur->vc.get(g.cur->id) + 1);
}

// ------------------------------------------------------------ access checks
static void bad_access(const char *p, size_t n, bool write)
{
	size_t off = (size_t) (p - arena_base);
	size_t i = 0;
	while (i < n && off + i < ARENA && shadow[off + i] == 1)
		i++;
	int k = off + i < ARENA ? shadow[off + i] : 0;
	std::string d;
	for (size_t b = blocks.size(); b-- > 0;) {
		Block &x = blocks[b];
		if (p + i >= x.p - RED && p + i < x.p + x.n + RED) {
			char t[128];
			snprintf(t, sizeof(t),
				 "byte %ld of a %zu byte block (%s%s)",
				 (long) (p + i - x.p), x.n,
				 x.harness ? "caller's " : "", x.by);
			d = t;
			break;
		}
	}
	if (d.empty())
		d = "no block";
	fail(k == 2 ? "mem:uaf" : "mem:oob", "%s of %zu bytes reaches %s%s",
	     write ? "write" : "read", n, k == 2 ? "released " : "", d.c_str());
}

static inline void check_mem(const void *vp, size_t n, bool write)
{
	const char *p = (const char *) vp;
	if (p >= arena_base && p < arena_end) {
		size_t off = (size_t) (p - arena_base);
		if (off + n > ARENA)
			bad_access(p, n, write);
		const uint8_t *s = shadow + off;
		for (size_t i = 0; i < n; i++)
			if (s[i] != 1)
				bad_access(p, n, write);
	} else if (p >= page_base && p < page_end) {
		if (!page_addressable(p, n, write))
			fail("mem:map", "%s of %zu bytes outside any mapping",
			     write ? "write" : "read", n);
	}
}

bool addressable(const void *vp, size_t n)
{
	const char *p = (const char *) vp;
	if (p >= arena_base && p < arena_end) {
		size_t off = (size_t) (p - arena_base);
		if (off + n > ARENA)
			return false;
		for (size_t i = 0; i < n; i++)
			if (shadow[off + i] != 1)
				return false;
		return true;
	}
	if (p >= page_base && p < page_end)
		return page_addressable(p, n, false);
	return (uint64_t) p > 65536;
}

static inline void hook(const void *p, size_t n, bool write)
{
	if (!g.running || !g.cur)
		return;
	if (--g.countdown <= 0)
		hook_slow();
	check_mem(p, n, write);
	if (g.race && g.fibers.size() > 1)
		race_range(p, n, write, false);
}

// used by the seams for ranges they touch on behalf of the program
void touch(const void *p, size_t n, bool write)
{
	if (!g.running || !g.cur || n == 0)
		return;
	g.countdown -= (int64_t) (n / 16);
	if (--g.countdown <= 0)
		hook_slow();
	if ((uint64_t) p < 65536)
		fail("mem:crash", "%s of %zu bytes at NULL",
		     write ? "write" : "read", n);
	check_mem(p, n, write);
	if (g.race && g.fibers.size() > 1)
		race_range(p, n, write, false);
}

// the same without a chance for others to run
void touch_now(const void *p, size_t n, bool write)
{
	if (!g.running || !g.cur || n == 0)
		return;
	check_mem(p, n, write);
	if (g.race && g.fibers.size() > 1)
		race_range(p, n, write, false);
}

void unsafe_call(const char *what)
{
	if (g.running && g.cur && g.cur->sig_depth > 0)
		fail("sig:unsafe",
		     "%s called in a signal handler (not async-signal-safe)",
		     what);
}

// ------------------------------------------------------------------- heap
void mem_reset()
{
	arena_init();
	if (!grans) {
		grans = (Gran *) mmap(nullptr, NG * sizeof(Gran),
				      PROT_READ | PROT_WRITE,
				      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		atomic_vc = new std::map<const void *, VC>();
	}
	if (arena_top > (8u << 20)) {
		madvise(arena_base, arena_top, MADV_DONTNEED);
		madvise(shadow, arena_top, MADV_DONTNEED);
	} else {
		memset(shadow, 0, arena_top);
	}
	arena_top = 4096;
	blocks.clear();
	live_tracked = 0;
	race_epoch++;
	race_count = 0;
	atomic_vc->clear();
}

static char *carve(size_t n, bool harness, const char *by)
{
	size_t start = arena_top + RED;
	start = (start + 15) & ~(size_t) 15;
	if (n > ARENA || start + n + RED > ARENA)
		return nullptr;
	char *p = arena_base + start;
	uint64_t idx = blocks.size();
	memcpy(p - 16, &idx, 8);
	blocks.push_back(Block{p, n, true, harness, by});
	memset(shadow + start, 1, n);
	arena_top = start + n + RED / 2;
	if (!harness)
		live_tracked++;
	return p;
}

static Block *find_block(void *vp)
{
	char *p = (char *) vp;
	if (p < arena_base + 64 || p >= arena_end || ((uint64_t) p & 15))
		return nullptr;
	if ((size_t) (p - arena_base) > arena_top)
		return nullptr;
	uint64_t idx;
	memcpy(&idx, p - 16, 8);
	if (idx >= blocks.size() || blocks[idx].p != p)
		return nullptr;
	return &blocks[idx];
}

bool heap_block(const void *p, size_t *size)
{
	Block *b = find_block((void *) p);
	if (!b || !b->live || b->harness)
		return false;
	if (size)
		*size = b->n;
	return true;
}

static void *sim_alloc(size_t n, const char *by)
{
	unsafe_call(by);
	if (fault(F_MALLOC)) {
		g.refused++;
		if (g.cur)
			g.cur->refused++;
		errno = ENOMEM;
		return nullptr;
	}
	char *p = carve(n, false, by);
	if (!p) {
		g.refused++;
		if (g.cur)
			g.cur->refused++;
		event(0x3e, n);
		errno = ENOMEM;
		return nullptr;
	}
	memset(p, 0xbe, n);
	event(0x3a, n);
	return p;
}

static void sim_release(void *p, const char *by)
{
	unsafe_call(by);
	if (!p)
		return;
	Block *b = find_block(p);
	if (!b)
		fail("mem:badfree",
		     "%s of a pointer that is not the start of a heap block",
		     by);
	if (b->harness)
		fail("mem:badfree", "%s of memory the caller owns", by);
	if (!b->live)
		fail("mem:doublefree", "%s of a block released before", by);
	if (g.race && g.fibers.size() > 1)
		race_range(p, b->n < 4096 ? b->n : 4096, true, false);
	b->live = false;
	live_tracked--;
	memset(shadow + (b->p - arena_base), 2, b->n);
	memset(b->p, 0xdd, b->n < 4096 ? b->n : 4096);
	event(0x3f, b->n);
}

void *harness_alloc(size_t n)
{
	char *p = carve(n, true, "object");
	if (!p)
		abandon("arena full");
	memset(p, 0xbe, n);
	return p;
}
void harness_free(void *p)
{
	Block *b = find_block(p);
	if (!b || !b->harness)
		abort();
	b->live = false;
	memset(shadow + (b->p - arena_base), 2, b->n);
}
uint64_t mallocs_refused() { return g.cur ? g.cur->refused : g.refused; }
uint64_t live_blocks() { return live_tracked; }

void mem_leaks(std::string &out)
{
	if (!live_tracked)
		return;
	for (auto &b : blocks)
		if (b.live && !b.harness) {
			char t[96];
			snprintf(t, sizeof(t), " %lu heap block(s), e.g. %zu bytes;",
				 (unsigned long) live_tracked, b.n);
			out += t;
			return;
		}
}
} // namespace sim

using namespace sim;

// --------------------------------------------------------- instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                  \
	void __tsan_read##n(void *p) { hook(p, n, false); }                    \
	void __tsan_write##n(void *p) { hook(p, n, true); }                    \
	void __tsan_unaligned_read##n(void *p) { hook(p, n, false); }          \
	void __tsan_unaligned_write##n(void *p) { hook(p, n, true); }          \
	void __tsan_volatile_read##n(void *p) { hook(p, n, false); }           \
	void __tsan_volatile_write##n(void *p) { hook(p, n, true); }           \
	void __tsan_read_write##n(void *p) { hook(p, n, true); }               \
	void __tsan_unaligned_read_write##n(void *p) { hook(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, false); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
	if (n) {
		touch(s, n, false);
		touch(d, n, true);
	}
	return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
	return __tsan_memcpy(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
	touch(d, n, true);
	return memset(d, c, n);
}

static void atomic_op(const volatile void *p, size_t n, bool write)
{
	if (!g.running || !g.cur)
		return;
	sched_point(5);
	check_mem((const void *) p, n, write);
	if (g.race && g.fibers.size() > 1)
		race_range((const void *) p, n, write, true);
	VC &v = (*atomic_vc)[(const void *) p];
	hb_acquire(v);
	if (write)
		hb_release(v);
}
#define AT(bits, T)                                                            \
	T __tsan_atomic##bits##_load(const volatile T *p, int)                 \
	{                                                                      \
		atomic_op(p, sizeof(T), false);                                \
		return *p;                                                     \
	}                                                                      \
	void __tsan_atomic##bits##_store(volatile T *p, T v, int)              \
	{                                                                      \
		atomic_op(p, sizeof(T), true);                                 \
		*p = v;                                                        \
	}                                                                      \
	T __tsan_atomic##bits##_exchange(volatile T *p, T v, int)              \
	{                                                                      \
		atomic_op(p, sizeof(T), true);                                 \
		T o = *p;                                                      \
		*p = v;                                                        \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int)             \
	{                                                                      \
		atomic_op(p, sizeof(T), true);                                 \
		T o = *p;                                                      \
		*p = (T) (o + v);                                              \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int)             \
	{                                                                      \
		atomic_op(p, sizeof(T), true);                                 \
		T o = *p;                                                      \
		*p = (T) (o - v);                                              \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int)             \
	{                                                                      \
		atomic_op(p, sizeof(T), true);                                 \
		T o = *p;                                                      \
		*p = (T) (o & v);                                              \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int)              \
	{                                                                      \
		atomic_op(p, sizeof(T), true);                                 \
		T o = *p;                                                      \
		*p = (T) (o | v);                                              \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int)             \
	{                                                                      \
		atomic_op(p, sizeof(T), true);                                 \
		T o = *p;                                                      \
		*p = (T) (o ^ v);                                              \
		return o;                                                      \
	}                                                                      \
	int __tsan_atomic##bits##_compare_exchange_strong(                     \
		volatile T *p, T *e, T v, int, int)                            \
	{                                                                      \
		atomic_op(p, sizeof(T), true);                                 \
		if (*p == *e) {                                                \
			*p = v;                                                \
			return 1;                                              \
		}                                                              \
		*e = *p;                                                       \
		return 0;                                                      \
	}                                                                      \
	int __tsan_atomic##bits##_compare_exchange_weak(                       \
		volatile T *p, T *e, T v, int a, int b)                        \
	{                                                                      \
		return __tsan_atomic##bits##_compare_exchange_strong(p, e, v,  \
								     a, b);    \
	}                                                                      \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v,  \
						     int a, int b)             \
	{                                                                      \
		__tsan_atomic##bits##_compare_exchange_strong(p, &e, v, a, b); \
		return e;                                                      \
	}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sched_point(5); }
void __tsan_atomic_signal_fence(int) {}

struct EmuTls {
	size_t size, align;
	union {
		uintptr_t off;
		void *ptr;
	} u;
	void *value;
};
void *__emutls_get_address(EmuTls *c)
{
	if (!g.cur)
		abort();
	void *&p = g.cur->tls[c];
	if (!p) {
		// keep it in the guarded arena, owned by the harness
		p = harness_alloc(c->size);
		if (c->value)
			memcpy(p, c->value, c->size);
		else
			memset(p, 0, c->size);
	}
	return p;
}

void simc___stack_chk_fail(void)
{
	fail("mem:stack", "a function wrote past a local array");
}
void simc___assert_fail(const char *e, const char *, unsigned, const char *fn)
{
	fail("assert", "assertion %s failed in %s", e, fn);
}

// ------------------------------------------------------------------ malloc
void *simc_malloc(size_t n) { return sim_alloc(n, "malloc"); }
void *simc_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		g.refused++;
		if (g.cur)
			g.cur->refused++;
		errno = ENOMEM;
		return nullptr;
	}
	void *p = sim_alloc(n, "calloc");
	if (p)
		memset(p, 0, n);
	return p;
}
void *simc_realloc(void *p, size_t n)
{
	if (!p)
		return sim_alloc(n, "realloc");
	Block *b = find_block(p);
	if (!b || b->harness)
		fail("mem:badfree", "realloc of memory that is not a heap block");
	if (!b->live)
		fail("mem:doublefree", "realloc of a released block");
	size_t old = b->n;
	if (n == 0) {
		sim_release(p, "realloc");
		return nullptr;
	}
	void *q = sim_alloc(n, "realloc");
	if (!q)
		return nullptr;
	memcpy(q, p, old < n ? old : n);
	sim_release(p, "realloc");
	return q;
}
void *simc_reallocarray(void *p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		g.refused++;
		if (g.cur)
			g.cur->refused++;
		errno = ENOMEM;
		return nullptr;
	}
	return simc_realloc(p, n);
}
void *simc_aligned_alloc(size_t, size_t n) { return sim_alloc(n, "aligned_alloc"); }
int simc_posix_memalign(void **out, size_t, size_t n)
{
	void *p = sim_alloc(n, "posix_memalign");
	if (!p)
		return ENOMEM;
	*out = p;
	return 0;
}
size_t simc_malloc_usable_size(void *p)
{
	Block *b = find_block(p);
	return b ? b->n : 0;
}
void simc_free(void *p)
{
	ErrnoGuard eg;
	sim_release(p, "free");
}

// ----------------------------------------------------------------- strings
static size_t slen(const char *s)
{
	touch(s, 1, false);
	const char *p = s;
	bool arena = s >= arena_base && s < arena_end;
	for (;; p++) {
		if (arena) {
			if (p >= arena_end ||
			    shadow[p - arena_base] != 1)
				check_mem(s, (size_t) (p - s) + 1, false);
		} else if (p >= page_base && p < page_end) {
			check_mem(p, 1, false);
		}
		if (!*p)
			break;
	}
	touch(s, (size_t) (p - s) + 1, false);
	return (size_t) (p - s);
}
static size_t snlen(const char *s, size_t n)
{
	size_t i = 0;
	bool arena = s >= arena_base && s < arena_end;
	for (; i < n; i++) {
		if (arena || (s >= page_base && s < page_end))
			check_mem(s + i, 1, false);
		if (!s[i])
			break;
	}
	if (n)
		touch(s, i < n ? i + 1 : n, false);
	return i;
}

}
namespace sim {
size_t checked_strlen(const char *s, size_t max)
{
	return max == ~(size_t) 0 ? slen(s) : snlen(s, max);
}
} // namespace sim
extern "C" {
size_t simc_strlen(const char *s) { return slen(s); }
size_t simc_strnlen(const char *s, size_t n) { return snlen(s, n); }
void *simc_memcpy(void *d, const void *s, size_t n)
{
	if (n) {
		touch(s, n, false);
		touch(d, n, true);
		const char *a = (const char *) s;
		char *b = (char *) d;
		if (a != b && a < b + n && b < a + n)
			fail("mem:overlap", "memcpy between overlapping ranges");
	}
	return memmove(d, s, n);
}
void *simc_memmove(void *d, const void *s, size_t n)
{
	if (n) {
		touch(s, n, false);
		touch(d, n, true);
	}
	return memmove(d, s, n);
}
void *simc_mempcpy(void *d, const void *s, size_t n)
{
	return (char *) simc_memcpy(d, s, n) + n;
}
void *simc_memset(void *d, int c, size_t n)
{
	touch(d, n, true);
	return memset(d, c, n);
}
int simc_memcmp(const void *a, const void *b, size_t n)
{
	touch(a, n, false);
	touch(b, n, false);
	return memcmp(a, b, n);
}
int simc_bcmp(const void *a, const void *b, size_t n)
{
	return simc_memcmp(a, b, n);
}
void *simc_memchr(const void *s, int c, size_t n)
{
	const char *p = (const char *) s;
	size_t i = 0;
	for (; i < n; i++) {
		check_mem(p + i, 1, false);
		if (p[i] == (char) c)
			break;
	}
	if (n)
		touch(s, i < n ? i + 1 : n, false);
	return i < n ? (void *) (p + i) : nullptr;
}
void *simc_memrchr(const void *s, int c, size_t n)
{
	touch(s, n, false);
	return memrchr((void *) s, c, n);
}
char *simc_strcpy(char *d, const char *s)
{
	size_t n = slen(s);
	touch(d, n + 1, true);
	return (char *) memmove(d, s, n + 1);
}
char *simc_stpcpy(char *d, const char *s)
{
	size_t n = slen(s);
	touch(d, n + 1, true);
	memmove(d, s, n + 1);
	return d + n;
}
char *simc_strncpy(char *d, const char *s, size_t n)
{
	size_t l = snlen(s, n);
	touch(d, n, true);
	memmove(d, s, l);
	memset(d + l, 0, n - l);
	return d;
}
char *simc_strcat(char *d, const char *s)
{
	size_t a = slen(d), b = slen(s);
	touch(d + a, b + 1, true);
	memmove(d + a, s, b + 1);
	return d;
}
char *simc_strncat(char *d, const char *s, size_t n)
{
	size_t a = slen(d), b = snlen(s, n);
	touch(d + a, b + 1, true);
	memmove(d + a, s, b);
	d[a + b] = 0;
	return d;
}
int simc_strcmp(const char *a, const char *b)
{
	size_t i = 0;
	for (;; i++) {
		check_mem(a + i, 1, false);
		check_mem(b + i, 1, false);
		if (a[i] != b[i] || !a[i])
			break;
	}
	touch(a, i + 1, false);
	touch(b, i + 1, false);
	return (unsigned char) a[i] - (unsigned char) b[i];
}
int simc_strncmp(const char *a, const char *b, size_t n)
{
	snlen(a, n);
	snlen(b, n);
	return strncmp(a, b, n);
}
int simc_strcasecmp(const char *a, const char *b)
{
	slen(a);
	slen(b);
	return strcasecmp(a, b);
}
int simc_strncasecmp(const char *a, const char *b, size_t n)
{
	snlen(a, n);
	snlen(b, n);
	return strncasecmp(a, b, n);
}
char *simc_strchr(const char *s, int c)
{
	size_t i = 0;
	for (;; i++) {
		check_mem(s + i, 1, false);
		if (s[i] == (char) c || !s[i])
			break;
	}
	touch(s, i + 1, false);
	return s[i] == (char) c ? (char *) s + i : nullptr;
}
char *simc_strchrnul(const char *s, int c)
{
	char *p = simc_strchr(s, c);
	return p ? p : (char *) s + strlen(s);
}
char *simc_strrchr(const char *s, int c)
{
	slen(s);
	return (char *) strrchr(s, c);
}
char *simc_strstr(const char *a, const char *b)
{
	size_t nb = slen(b);
	touch(a, 1, false);
	const char *r = strstr(a, b);
	touch(a, r ? (size_t) (r - a) + nb : strlen(a) + 1, false);
	return (char *) r;
}
size_t simc_strspn(const char *a, const char *b)
{
	slen(b);
	touch(a, 1, false);
	size_t r = strspn(a, b);
	touch(a, r + 1, false);
	return r;
}
size_t simc_strcspn(const char *a, const char *b)
{
	slen(b);
	touch(a, 1, false);
	size_t r = strcspn(a, b);
	touch(a, r + 1, false);
	return r;
}
char *simc_strpbrk(const char *a, const char *b)
{
	slen(a);
	slen(b);
	return (char *) strpbrk(a, b);
}
char *simc_strtok_r(char *s, const char *d, char **sv)
{
	slen(s ? s : *sv);
	slen(d);
	return strtok_r(s, d, sv);
}
char *simc_strdup(const char *s)
{
	size_t n = slen(s);
	char *p = (char *) sim_alloc(n + 1, "strdup");
	if (p)
		memcpy(p, s, n + 1);
	return p;
}
char *simc_strndup(const char *s, size_t n)
{
	n = snlen(s, n);
	char *p = (char *) sim_alloc(n + 1, "strndup");
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}

int simc_vsnprintf(char *buf, size_t size, const char *fmt, va_list va)
{
	unsafe_call("vsnprintf");
	slen(fmt);
	touch_format(fmt, va);
	if (size > INT32_MAX) {
		errno = EOVERFLOW;
		// glibc caps silently at INT_MAX; keep going with what fits
	}
	va_list cp;
	va_copy(cp, va);
	std::string tmp;
	tmp.resize(1024);
	int rc = vsnprintf(&tmp[0], tmp.size(), fmt, cp);
	va_end(cp);
	if (rc >= (int) tmp.size()) {
		va_copy(cp, va);
		tmp.resize((size_t) rc + 1);
		rc = vsnprintf(&tmp[0], tmp.size(), fmt, cp);
		va_end(cp);
	}
	if (rc < 0)
		return rc;
	if (size) {
		size_t n = (size_t) rc < size - 1 ? (size_t) rc : size - 1;
		touch(buf, n + 1, true);
		memcpy(buf, tmp.data(), n);
		buf[n] = 0;
	}
	return rc;
}
int simc_snprintf(char *buf, size_t size, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int rc = simc_vsnprintf(buf, size, fmt, va);
	va_end(va);
	return rc;
}
int simc_vsprintf(char *buf, const char *fmt, va_list va)
{
	return simc_vsnprintf(buf, (size_t) INT32_MAX, fmt, va);
}
int simc_sprintf(char *buf, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int rc = simc_vsnprintf(buf, (size_t) INT32_MAX, fmt, va);
	va_end(va);
	return rc;
}
int simc_vasprintf(char **out, const char *fmt, va_list va)
{
	unsafe_call("vasprintf");
	touch_format(fmt, va);
	va_list cp;
	va_copy(cp, va);
	int n = vsnprintf(nullptr, 0, fmt, cp);
	va_end(cp);
	if (n < 0)
		return -1;
	char *p = (char *) sim_alloc((size_t) n + 1, "asprintf");
	if (!p)
		return -1;
	vsnprintf(p, (size_t) n + 1, fmt, va);
	*out = p;
	return n;
}
int simc_asprintf(char **out, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int rc = simc_vasprintf(out, fmt, va);
	va_end(va);
	return rc;
}
char *simc_strerror(int e)
{
	unsafe_call("strerror");
	return strerror(e);
}
void simc_qsort(void *base, size_t n, size_t sz,
		int (*cmp)(const void *, const void *))
{
	// stable: insertion for few elements, merging for many
	if (n)
		touch(base, n * sz, true);
	char *b = (char *) base;
	std::vector<char> t(n > 64 ? n * sz : sz);
	const size_t run = n > 64 ? 16 : n;
	for (size_t lo = 0; lo < n; lo += run)
		for (size_t i = lo + 1; i < n && i < lo + run; i++) {
			memcpy(t.data(), b + i * sz, sz);
			size_t j = i;
			while (j > lo && cmp(b + (j - 1) * sz, t.data()) > 0) {
				memcpy(b + j * sz, b + (j - 1) * sz, sz);
				j--;
			}
			memcpy(b + j * sz, t.data(), sz);
		}
	for (size_t w = run; w < n; w *= 2)
		for (size_t lo = 0; lo + w < n; lo += 2 * w) {
			size_t mid = lo + w, hi = std::min(n, mid + w), i = lo, j = mid, k = lo;
			memcpy(t.data() + lo * sz, b + lo * sz, w * sz);
			while (i < mid && j < hi)
				if (cmp(t.data() + i * sz, b + j * sz) <= 0)
					memcpy(b + k++ * sz, t.data() + i++ * sz, sz);
				else
					memcpy(b + k++ * sz, b + j++ * sz, sz);
			memcpy(b + k * sz, t.data() + i * sz, (mid - i) * sz);
		}
}
}

void *operator new(size_t n)
{
	void *p = malloc(n ? n : 1);
	if (!p)
		abort();
	if (sim::g.running && sim::g.race)
		sim::race_forget(p, n);
	return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
