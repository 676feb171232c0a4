// C06: buffer histories against a reference byte string; C07: decoding damaged
// bytes.
#include "sim.h"
#include <algorithm>
extern "C" {
#include "sc_buf.h"
void *simc_malloc(size_t n);
}
using namespace sim;

ACCEPT(C06, "mem:", "leak", "hang:", "assert", "exit:")
ACCEPT(C07, "mem:", "leak", "hang:", "assert", "exit:")

namespace {
struct Arg { // exact-size guarded copy of the caller's bytes
	char *p;
	explicit Arg(const std::string &t, bool nul = true)
	{
		size_t n = t.size() + (nul ? 1 : 0);
		p = (char *) harness_alloc(n ? n : 1);
		memcpy(p, t.c_str(), n);
	}
	~Arg() { harness_free(p); }
};

struct B {
	struct sc_buf *b;
	char *wrapped = nullptr; // memory of the caller
	std::vector<int> m;	 // known bytes, -1 unknown; indices below cap
	uint64_t r = 0, w = 0;
	uint64_t limit = UINT64_MAX;
	bool ref = false;
	bool bad = false;
	int byte(uint64_t i) { return i < m.size() ? m[i] : -1; }
	void put(uint64_t pos, const void *p, size_t n)
	{
		if (m.size() < pos + n)
			m.resize(pos + n, -1);
		for (size_t i = 0; i < n; i++)
			m[pos + i] = ((const unsigned char *) p)[i];
	}
	void put(uint64_t pos, uint64_t v, int n)
	{
		unsigned char t[8];
		for (int i = 0; i < 8; i++)
			t[i] = (unsigned char) (v >> (8 * i));
		put(pos, t, (size_t) n);
	}
	bool num(uint64_t pos, int n, uint64_t *v)
	{
		*v = 0;
		for (int i = 0; i < n; i++) {
			if (byte(pos + (uint64_t) i) < 0)
				return false;
			*v |= (uint64_t) byte(pos + (uint64_t) i) << (8 * i);
		}
		return true;
	}
};
} // namespace

static std::string blob(uint32_t maxlen)
{
	uint32_t len = choose(4) ? choose(maxlen > 20 ? 20 : maxlen + 1) : choose(maxlen + 1);
	std::string s;
	uint32_t b = choose(256);
	for (uint32_t i = 0; i < len; i++)
		s += (char) (b + i * 31 + i / 200);
	return s;
}
static std::string textual(uint32_t maxlen)
{
	std::string s = blob(maxlen);
	for (auto &c : s)
		c = (char) ('!' + (unsigned char) c % 90);
	return s;
}

static void verify(B &x, const char *op)
{
	struct sc_buf *b = x.b;
	uint64_t cap = sc_buf_cap(b);
	CHECK("C06:pos", sc_buf_wpos(b) == x.w, "after %s the write position is %lu, expected %lu", op,
	      (unsigned long) sc_buf_wpos(b), (unsigned long) x.w);
	CHECK("C06:pos", sc_buf_rpos(b) == x.r, "after %s the read position is %lu, expected %lu", op,
	      (unsigned long) sc_buf_rpos(b), (unsigned long) x.r);
	CHECK("C06:size", sc_buf_size(b) == x.w - x.r && sc_buf_quota(b) == cap - x.w && x.w <= cap,
	      "after %s size %lu quota %lu capacity %lu with positions %lu/%lu", op, (unsigned long) sc_buf_size(b),
	      (unsigned long) sc_buf_quota(b), (unsigned long) cap, (unsigned long) x.r, (unsigned long) x.w);
	CHECK("C06:valid", sc_buf_valid(b) == !x.bad, "after %s valid is %d, expected %d", op, sc_buf_valid(b), !x.bad);
	if (x.ref)
		CHECK("C06:wrapped", sc_buf_at(b, 0) == (void *) x.wrapped, "after %s the wrapped memory was replaced", op);
	if (x.w == 0)
		return;
	unsigned char *p = (unsigned char *) sc_buf_at(b, 0);
	CHECK("C06:content", addressable(p, x.w), "after %s the written bytes are not in one block", op);
	uint64_t n = std::min<uint64_t>(x.w, x.m.size());
	for (uint64_t i = 0; i < n; i++)
		CHECK("C06:content", x.m[i] < 0 || p[i] == x.m[i], "after %s byte %lu is %d, expected %d", op,
		      (unsigned long) i, p[i], x.m[i]);
}

// after a failed put: bytes below the write position are as they were
static void went_bad(B &x, uint64_t keep, const char *op)
{
	CHECK("C06:valid", !sc_buf_valid(x.b), "%s did not fit but the buffer stays valid", op);
	x.bad = true;
	unsigned char *p = (unsigned char *) sc_buf_at(x.b, 0);
	for (uint64_t i = 0; i < keep && i < x.m.size(); i++)
		CHECK("C06:content", x.m[i] < 0 || p[i] == x.m[i], "a failed %s changed byte %lu", op, (unsigned long) i);
	probe("buffer put that did not fit");
}

// what may happen to a put of len bytes: 0 must fail, 1 must work, 2 either
static int fate(B &x, uint64_t len, uint64_t cap, bool refused)
{
	if (len <= cap - x.w)
		return 1;
	if (x.ref || refused)
		return 0;
	if (len > x.limit || x.w + len > x.limit)
		return 0;
	if ((cap + len + 4095) / 4096 * 4096 <= x.limit)
		return 1;
	return 2;
}

static void forget_tail(B &x)
{
	if (x.m.size() > x.w)
		x.m.resize(x.w);
}

// runs a put of len bytes whose image is img
template <typename F> static void do_put(B &x, const char *name, const std::string &img, F call)
{
	uint64_t cap = sc_buf_cap(x.b), r0 = mallocs_refused();
	call();
	bool refused = mallocs_refused() != r0;
	int f = fate(x, img.size(), cap, refused);
	bool ok = sc_buf_valid(x.b);
	trace("%s %zu bytes = %d%s", name, img.size(), ok, refused ? " (refused)" : "");
	if (sc_buf_cap(x.b) != cap) {
		CHECK("C06:limit", sc_buf_cap(x.b) <= x.limit, "%s grew the buffer to %lu, limit %lu", name,
		      (unsigned long) sc_buf_cap(x.b), (unsigned long) x.limit);
		forget_tail(x);
		probe("buffer grew");
	}
	if (!ok) {
		CHECK("C06:put", f != 1, "%s of %zu bytes at %lu fits capacity %lu or limit %lu but made the buffer invalid",
		      name, img.size(), (unsigned long) x.w, (unsigned long) cap, (unsigned long) x.limit);
		went_bad(x, x.w, name);
		return;
	}
	CHECK("C06:put", f != 0, "%s of %zu bytes at %lu exceeds capacity %lu and limit %lu but the buffer is valid", name,
	      img.size(), (unsigned long) x.w, (unsigned long) cap, (unsigned long) x.limit);
	x.put(x.w, img.data(), img.size());
	x.w += img.size();
}

static std::string le(uint64_t v, int n)
{
	std::string s;
	for (int i = 0; i < n; i++)
		s += (char) (v >> (8 * i));
	return s;
}

static const uint64_t NULLLEN = UINT64_MAX - 4096;

static void put_any(B &x, uint32_t maxlen)
{
	uint64_t v = choose64();
	// sometimes aim at the exact end of the capacity
	uint64_t quota = sc_buf_quota(x.b);
	auto aim = [&](std::string s, uint64_t extra) {
		if (choose(4) == 0 && quota >= extra && quota - extra < 5000) {
			size_t want = (size_t) (quota - extra);
			uint32_t d = choose(4);
			if (d == 1)
				want++;
			else if (d == 2 && want)
				want--;
			char c = s.empty() ? 'q' : s[0];
			s.resize(want, c);
		}
		return s;
	};
	switch (choose(12)) {
	case 0:
		do_put(x, "put_8", le(v, 1), [&]() { sc_buf_put_8(x.b, (uint8_t) v); });
		break;
	case 1:
		do_put(x, "put_16", le(v, 2), [&]() { sc_buf_put_16(x.b, (uint16_t) v); });
		break;
	case 2:
		do_put(x, "put_32", le(v, 4), [&]() { sc_buf_put_32(x.b, (uint32_t) v); });
		break;
	case 3:
		do_put(x, "put_64", le(v, 8), [&]() { sc_buf_put_64(x.b, v); });
		break;
	case 4:
		v &= 1;
		do_put(x, "put_bool", le(v, 1), [&]() { sc_buf_put_bool(x.b, v); });
		break;
	case 5: {
		double d = (double) (int64_t) v / 3;
		memcpy(&v, &d, 8);
		do_put(x, "put_double", le(v, 8), [&]() { sc_buf_put_double(x.b, d); });
		break;
	}
	case 6: {
		if (choose(8) == 0) {
			do_put(x, "put_str(NULL)", le(NULLLEN, 8), [&]() { sc_buf_put_str(x.b, nullptr); });
			break;
		}
		std::string s = aim(textual(maxlen), 9);
		Arg a(s);
		uint64_t w = x.w;
		if (fate(x, 8, sc_buf_cap(x.b), false) == 1 || true) {
			uint64_t cap = sc_buf_cap(x.b), r0 = mallocs_refused();
			sc_buf_put_str(x.b, a.p);
			bool refused = mallocs_refused() != r0;
			trace("put_str %zu bytes = %d", s.size(), sc_buf_valid(x.b));
			if (sc_buf_cap(x.b) != cap)
				forget_tail(x);
			bool fits = s.size() + 9 <= cap - w;
			if (!sc_buf_valid(x.b)) {
				CHECK("C06:put", !fits, "put_str that fits made the buffer invalid");
				if (!x.ref && !refused && x.limit > 200000)
					fail("C06:put", "put_str failed with memory available");
				went_bad(x, w, "put_str");
				break;
			}
			CHECK("C06:put", fits || (!x.ref && sc_buf_cap(x.b) <= x.limit),
			      "put_str of %zu bytes does not fit but the buffer is valid", s.size());
			std::string img = le(s.size(), 8) + s + std::string(1, '\0');
			x.put(w, img.data(), img.size());
			x.w += img.size();
		}
		break;
	}
	case 7: {
		std::string s = aim(blob(maxlen), 9);
		bool isnull = choose(8) == 0;
		Arg a(s, false);
		uint64_t w = x.w, cap = sc_buf_cap(x.b);
		uint64_t r0 = mallocs_refused();
		sc_buf_put_str_len(x.b, isnull ? nullptr : a.p, s.size());
		bool refused = mallocs_refused() != r0;
		trace("put_str_len %zu bytes = %d", s.size(), sc_buf_valid(x.b));
		if (sc_buf_cap(x.b) != cap)
			forget_tail(x);
		std::string img = isnull ? le(NULLLEN, 8) : le(s.size(), 8) + s + std::string(1, '\0');
		if (!sc_buf_valid(x.b)) {
			CHECK("C06:put", img.size() > cap - w, "put_str_len that fits made the buffer invalid");
			if (!x.ref && !refused && x.limit > 200000)
				fail("C06:put", "put_str_len failed with memory available");
			went_bad(x, w, "put_str_len");
			break;
		}
		CHECK("C06:put", img.size() <= cap - w || !x.ref, "put_str_len does not fit but the buffer is valid");
		x.put(w, img.data(), img.size());
		x.w += img.size();
		break;
	}
	case 8: {
		std::string s = aim(textual(maxlen), 10);
		Arg a(s);
		if (choose(4) == 0) {
			do_put(x, "put_fmt", le(s.size(), 8) + s + std::string(1, '\0'),
			       [&]() { sc_buf_put_fmt(x.b, "%s", a.p); });
		} else if (x.ref || choose(2)) {
			do_put(x, "put_fmt", le(s.size() + 1, 8) + "<" + s + std::string(1, '\0'),
			       [&]() { sc_buf_put_fmt(x.b, "<%s", a.p); });
		} else {
			int d = (int) choose(100000);
			std::string t = s + "=" + std::to_string(d);
			do_put(x, "put_fmt", le(t.size(), 8) + t + std::string(1, '\0'),
			       [&]() { sc_buf_put_fmt(x.b, "%s=%d", a.p, d); });
		}
		break;
	}
	case 9: {
		std::string s = aim(blob(maxlen), 0);
		Arg a(s, false);
		do_put(x, "put_raw", s, [&]() { sc_buf_put_raw(x.b, a.p, s.size()); });
		break;
	}
	case 10: {
		std::string s = aim(blob(maxlen), 8);
		Arg a(s, false);
		uint64_t w = x.w, cap = sc_buf_cap(x.b), r0 = mallocs_refused();
		sc_buf_put_blob(x.b, a.p, s.size());
		bool refused = mallocs_refused() != r0;
		trace("put_blob %zu bytes = %d", s.size(), sc_buf_valid(x.b));
		if (sc_buf_cap(x.b) != cap)
			forget_tail(x);
		if (!sc_buf_valid(x.b)) {
			CHECK("C06:put", s.size() + 8 > cap - w, "put_blob that fits made the buffer invalid");
			if (!x.ref && !refused && x.limit > 200000)
				fail("C06:put", "put_blob failed with memory available");
			went_bad(x, w, "put_blob");
			break;
		}
		CHECK("C06:put", s.size() + 8 <= cap - w || !x.ref, "put_blob does not fit but the buffer is valid");
		std::string img = le(s.size(), 8) + s;
		x.put(w, img.data(), img.size());
		x.w += img.size();
		break;
	}
	default: { // text: appends to the text before it
		std::string s = aim(textual(maxlen), 1);
		Arg a(s);
		uint64_t w = x.w, cap = sc_buf_cap(x.b), r0 = mallocs_refused();
		uint64_t off = x.w - x.r > 0 ? 1 : 0;
		if (off && x.byte(w - 1) != 0)
			break; // no text there to append to
		sc_buf_put_text(x.b, "%s", a.p);
		bool refused = mallocs_refused() != r0;
		trace("put_text %zu bytes = %d", s.size(), sc_buf_valid(x.b));
		if (sc_buf_cap(x.b) != cap)
			forget_tail(x);
		if (!sc_buf_valid(x.b)) {
			CHECK("C06:put", s.size() + 1 > cap - w, "put_text that fits made the buffer invalid");
			if (!x.ref && !refused && x.limit > 200000)
				fail("C06:put", "put_text failed with memory available");
			went_bad(x, w - off, "put_text");
			break;
		}
		CHECK("C06:put", s.size() + 1 - off <= cap - w || (!x.ref && !refused),
		      "put_text does not fit but the buffer is valid");
		x.put(w - off, s.c_str(), s.size() + 1);
		x.w += s.size() + 1 - off;
		break;
	}
	}
}

static void get_any(B &x)
{
	uint64_t left = x.w - x.r, v;
	struct sc_buf *b = x.b;
	auto num = [&](int n, uint64_t got, bool adv, const char *name) {
		trace("%s = %lu", name, (unsigned long) got);
		if ((uint64_t) n > left) {
			CHECK("C06:get", got == 0 && !sc_buf_valid(b), "%s with %lu bytes left yields %lu, valid %d", name,
			      (unsigned long) left, (unsigned long) got, sc_buf_valid(b));
			x.bad = true;
			return;
		}
		if (x.num(x.r, n, &v))
			CHECK("C06:get", got == v, "%s yields %lu, %lu was written", name, (unsigned long) got,
			      (unsigned long) v);
		if (adv)
			x.r += (uint64_t) n;
	};
	switch (choose(14)) {
	case 0:
		num(1, sc_buf_get_8(b), true, "get_8");
		break;
	case 1:
		num(2, sc_buf_get_16(b), true, "get_16");
		break;
	case 2:
		num(4, sc_buf_get_32(b), true, "get_32");
		break;
	case 3:
		num(8, sc_buf_get_64(b), true, "get_64");
		break;
	case 4: {
		double d = sc_buf_get_double(b);
		memcpy(&v, &d, 8);
		uint64_t got = v;
		num(8, got, true, "get_double");
		break;
	}
	case 5: {
		bool want = left && x.byte(x.r) != 0, known = left && x.byte(x.r) >= 0;
		bool got = sc_buf_get_bool(b);
		if (!left) {
			CHECK("C06:get", !got && !sc_buf_valid(b), "get_bool of an empty buffer");
			x.bad = true;
		} else {
			CHECK("C06:get", !known || got == want, "get_bool yields %d", got);
			x.r++;
		}
		break;
	}
	case 6:
		num(1, sc_buf_peek_8(b), false, "peek_8");
		break;
	case 7:
		num(2, sc_buf_peek_16(b), false, "peek_16");
		break;
	case 8:
		num(4, sc_buf_peek_32(b), false, "peek_32");
		break;
	case 9:
		num(8, sc_buf_peek_64(b), false, "peek_64");
		break;
	case 10: {
		uint64_t len;
		bool known = left >= 8 && x.num(x.r, 8, &len);
		if (left >= 8 && !known)
			break;
		const char *s = sc_buf_get_str(b);
		if (left < 8) {
			CHECK("C06:get", !s && !sc_buf_valid(b), "get_str with %lu bytes left", (unsigned long) left);
			x.bad = true;
			break;
		}
		if (len == NULLLEN) {
			CHECK("C06:get", !s && sc_buf_valid(b), "get_str of a NULL string");
			x.r += 8;
			break;
		}
		if (len > left - 8 || len + 1 > left - 8) {
			CHECK("C06:get", !s && !sc_buf_valid(b), "get_str of %lu bytes with %lu left yields a string",
			      (unsigned long) len, (unsigned long) left - 8);
			x.bad = true;
			x.r = sc_buf_rpos(b) == x.r + 8 ? x.r + 8 : x.r;
			break;
		}
		CHECK("C06:get", s == (char *) sc_buf_at(b, x.r + 8), "get_str yields another place");
		x.r += 8 + len + 1;
		trace("get_str %lu bytes", (unsigned long) len);
		break;
	}
	case 11: {
		uint64_t len = choose((uint32_t) std::min<uint64_t>(left, 5000) + 2);
		void *p = sc_buf_get_blob(b, len);
		if (len == 0) {
			CHECK("C06:get", !p, "get_blob of nothing yields memory");
		} else if (len > left) {
			CHECK("C06:get", !p && !sc_buf_valid(b), "get_blob of %lu bytes with %lu left", (unsigned long) len,
			      (unsigned long) left);
			x.bad = true;
		} else {
			CHECK("C06:get", p == sc_buf_at(b, x.r), "get_blob yields another place");
			x.r += len;
		}
		break;
	}
	case 12:
	default: {
		uint64_t len = choose((uint32_t) std::min<uint64_t>(left, 5000) + 2);
		bool peek = choose(2);
		unsigned char *d = (unsigned char *) harness_alloc(len ? len : 1);
		if (peek)
			sc_buf_peek_data(b, x.r, d, len);
		else
			sc_buf_get_data(b, d, len);
		if (len > left) {
			CHECK("C06:get", !sc_buf_valid(b), "get_data of %lu bytes with %lu left", (unsigned long) len,
			      (unsigned long) left);
			for (uint64_t i = 0; i < len; i++)
				CHECK("C06:get", d[i] == 0, "get_data that does not fit yields data");
			x.bad = true;
		} else {
			for (uint64_t i = 0; i < len; i++)
				CHECK("C06:get", x.byte(x.r + i) < 0 || d[i] == x.byte(x.r + i),
				      "get_data byte %lu is %d, %d was written", (unsigned long) i, d[i], x.byte(x.r + i));
			if (!peek)
				x.r += len;
		}
		harness_free(d);
		break;
	}
	}
}

static void init(B &x)
{
	x.m.clear();
	x.r = x.w = 0;
	x.bad = false;
	x.limit = UINT64_MAX;
	x.ref = false;
	static const uint32_t caps[] = {0, 0, 1, 7, 8, 9, 10, 16, 64, 100, 4095, 4096, 5000};
	uint32_t cap = caps[choose(13)];
	switch (choose(4)) {
	case 0: { // the caller's memory
		x.ref = true;
		bool data = choose(3) == 0;
		std::string s = blob(cap ? cap - 1 : 0);
		if (cap == 0)
			cap = 1;
		x.wrapped = (char *) harness_alloc(cap);
		if (data) {
			s.resize(cap, 'd');
			memcpy(x.wrapped, s.data(), cap);
			x.put(0, s.data(), cap);
			x.w = cap;
		}
		*x.b = sc_buf_wrap(x.wrapped, cap, data ? SC_BUF_READ : SC_BUF_REF);
		trace("wrap %u bytes%s", cap, data ? " of data" : "");
		break;
	}
	case 1: { // memory handed over
		if (cap == 0)
			cap = 1;
		char *p = (char *) simc_malloc(cap);
		if (!p) {
			init(x);
			return;
		}
		bool data = choose(2);
		if (data) {
			std::string s = blob(cap);
			s.resize(cap, 'e');
			memcpy(p, s.data(), cap);
			x.put(0, s.data(), cap);
			x.w = cap;
		}
		*x.b = sc_buf_wrap(p, cap, data ? SC_BUF_DATA : 0);
		trace("wrap owned %u bytes%s", cap, data ? " of data" : "");
		break;
	}
	default: {
		uint64_t r0 = mallocs_refused();
		bool ok = sc_buf_init(x.b, cap);
		bool refused = mallocs_refused() != r0;
		trace("init %u = %d", cap, ok);
		CHECK("C06:init", ok == !refused, "init returned %d, memory %s", ok, refused ? "refused" : "given");
		if (!ok) {
			if (choose(2))
				sc_buf_term(x.b);
			init(x);
			return;
		}
	}
	}
	CHECK("C06:init", sc_buf_cap(x.b) >= cap, "capacity is %lu, asked for %u", (unsigned long) sc_buf_cap(x.b), cap);
	if (!x.ref && choose(3) == 0) {
		static const uint64_t lim[] = {0, 50, 4095, 4096, 8192, 10000, 16384, 65536};
		x.limit = lim[choose(8)];
		sc_buf_limit(x.b, x.limit);
		trace("limit %lu", (unsigned long) x.limit);
	}
}

static void finish(B &x)
{
	sc_buf_term(x.b);
	if (x.ref) {
		size_t n = x.m.size() < x.w ? x.m.size() : (size_t) x.w;
		if (!x.bad)
			for (size_t i = 0; i < n; i++)
				CHECK("C06:wrapped", x.m[i] < 0 || (unsigned char) x.wrapped[i] == x.m[i],
				      "terminating the buffer changed the caller's memory");
		harness_free(x.wrapped);
	}
	CHECK("C06:term", sc_buf_cap(x.b) == 0 && sc_buf_size(x.b) == 0 && sc_buf_valid(x.b),
	      "a terminated buffer is not empty");
	x.ref = false;
}

// Callers check for validity once, after many operations: each of them must be
// harmless on a buffer that has become invalid before.
static void on_invalid(B &x)
{
	struct sc_buf *b = x.b;
	std::string t = textual(choose(3) ? 60 : 6000);
	Arg a(t);
	char out[64];
	trace("on the invalid buffer (%lu..%lu of %lu)", (unsigned long) sc_buf_rpos(b), (unsigned long) sc_buf_wpos(b),
	      (unsigned long) sc_buf_cap(b));
	switch (choose(16)) {
	case 0:
		sc_buf_put_text(b, "%s", a.p);
		break;
	case 1:
		sc_buf_put_fmt(b, "%s", a.p);
		break;
	case 2:
		sc_buf_put_str(b, a.p);
		break;
	case 3:
		sc_buf_put_str_len(b, a.p, t.size());
		break;
	case 4:
		sc_buf_put_raw(b, a.p, t.size());
		break;
	case 5:
		sc_buf_put_blob(b, a.p, t.size());
		break;
	case 6:
		sc_buf_put_64(b, choose64());
		break;
	case 7:
		sc_buf_compact(b);
		break;
	case 8:
		sc_buf_shrink(b, choose(9000));
		break;
	case 9:
		sc_buf_reserve(b, choose(9000));
		break;
	case 10:
		CHECK("C06:get", sc_buf_get_str(b) == nullptr, "an invalid buffer yields a string");
		break;
	case 11: {
		uint64_t n = choose(64);
		void *p = sc_buf_get_blob(b, n);
		CHECK("C06:get", !p || addressable(p, n), "a blob outside the buffer");
		break;
	}
	case 12:
		sc_buf_get_data(b, out, choose(64));
		break;
	case 13:
		sc_buf_peek_64_at(b, choose(9000));
		sc_buf_set_32_at(b, choose(9000), 5);
		break;
	case 14:
		// the bytes the positions speak of must exist
		CHECK("C06:position", !sc_buf_size(b) || addressable(sc_buf_rbuf(b), sc_buf_size(b)), "unread bytes outside the buffer");
		CHECK("C06:position", !sc_buf_quota(b) || addressable(sc_buf_wbuf(b), sc_buf_quota(b)), "room outside the buffer");
		break;
	default: {
		struct sc_buf d;
		if (!sc_buf_init(&d, 100))
			break;
		if (choose(2))
			sc_buf_move(&d, b);
		else
			sc_buf_put_str(&d, "other"), sc_buf_move(b, &d);
		sc_buf_term(&d);
	}
	}
	CHECK("C06:valid", !sc_buf_valid(b), "an operation made an invalid buffer valid");
	CHECK("C06:position", sc_buf_rpos(b) <= sc_buf_wpos(b) && sc_buf_wpos(b) <= sc_buf_cap(b),
	      "an invalid buffer is at %lu..%lu of %lu bytes", (unsigned long) sc_buf_rpos(b), (unsigned long) sc_buf_wpos(b),
	      (unsigned long) sc_buf_cap(b));
}

HISTORY(C06, buffer)
{
	int nb = choose(3) == 0 ? 2 : 1;
	B v[2];
	for (int i = 0; i < nb; i++) {
		v[i].b = (struct sc_buf *) harness_alloc(sizeof(struct sc_buf));
		init(v[i]);
	}
	int n = (int) range(1, 40);
	uint32_t maxlen = choose(3) ? 40 : 6000;
	uint32_t bp = range(2, 8), bg = range(1, 8);
	for (int s = 0; s < n; s++) {
		B &x = v[choose((uint32_t) nb)];
		struct sc_buf *b = x.b;
		const char *name = "?";
		if (x.bad) {
			// anything may be tried, only the memory rules hold; then clear
			for (int i = 0, k = (int) choose(8); i < k; i++)
				on_invalid(x);
			sc_buf_put_32(b, 7);
			CHECK("C06:valid", !sc_buf_valid(b), "a put made an invalid buffer valid");
			CHECK("C06:get", sc_buf_get_32(b) == 0, "a read of an invalid buffer yields a value");
			sc_buf_clear(b);
			CHECK("C06:valid", sc_buf_valid(b), "a cleared buffer is invalid");
			x.bad = false;
			x.m.clear();
			x.r = x.w = 0;
			trace("clear an invalid buffer");
			verify(x, "clear");
			continue;
		}
		uint32_t op = weighted({bp * 4, bg * 4, 2, 2, 2, 1, 1, 2, 1, 1, 2, 2});
		switch (op) {
		case 0:
			name = "put";
			put_any(x, maxlen);
			break;
		case 1:
			name = "get";
			get_any(x);
			break;
		case 2: { // in-place set
			uint64_t cap = sc_buf_cap(b), pos = choose((uint32_t) cap + 9), val = choose64();
			int sz = 1 << choose(4);
			bool at_w = choose(3) == 0;
			if (at_w)
				pos = x.w;
			name = "set";
			if (sz == 1)
				at_w ? sc_buf_set_8(b, (uint8_t) val) : sc_buf_set_8_at(b, pos, (uint8_t) val);
			else if (sz == 2)
				at_w ? sc_buf_set_16(b, (uint16_t) val) : sc_buf_set_16_at(b, pos, (uint16_t) val);
			else if (sz == 4)
				at_w ? sc_buf_set_32(b, (uint32_t) val) : sc_buf_set_32_at(b, pos, (uint32_t) val);
			else
				at_w ? sc_buf_set_64(b, val) : sc_buf_set_64_at(b, pos, val);
			trace("set %d bytes at %lu of %lu", sz, (unsigned long) pos, (unsigned long) cap);
			if (pos + (uint64_t) sz > cap)
				x.bad = true;
			else
				x.put(pos, val, sz);
			break;
		}
		case 3: {
			uint64_t cap = sc_buf_cap(b), pos = choose((uint32_t) cap + 2);
			std::string d = blob(20);
			Arg a(d, false);
			name = "set_data";
			uint64_t rc = sc_buf_set_data(b, pos, a.p, d.size());
			if (pos + d.size() > cap) {
				CHECK("C06:set", rc == 0, "set_data past the capacity returned %lu", (unsigned long) rc);
				x.bad = true;
			} else {
				CHECK("C06:set", rc == d.size(), "set_data returned %lu of %zu", (unsigned long) rc, d.size());
				x.put(pos, d.data(), d.size());
			}
			break;
		}
		case 4:
			name = "compact";
			trace("compact %lu..%lu", (unsigned long) x.r, (unsigned long) x.w);
			sc_buf_compact(b);
			forget_tail(x);
			if (x.r == x.w)
				x.m.clear();
			else
				x.m.erase(x.m.begin(), x.m.begin() + (long) std::min<uint64_t>(x.r, x.m.size()));
			x.w -= x.r;
			x.r = 0;
			break;
		case 5: {
			name = "shrink";
			static const uint32_t lens[] = {0, 1, 50, 4096, 4097, 8192, 9000};
			uint64_t len = lens[choose(7)], r0 = mallocs_refused();
			bool ok = sc_buf_shrink(b, len);
			bool refused = mallocs_refused() != r0;
			trace("shrink %lu = %d (capacity %lu)", (unsigned long) len, ok, (unsigned long) sc_buf_cap(b));
			forget_tail(x);
			x.m.erase(x.m.begin(), x.m.begin() + (long) std::min<uint64_t>(x.r, x.m.size()));
			x.w -= x.r;
			x.r = 0;
			CHECK("C06:shrink", ok == !refused, "shrink returned %d, memory %s", ok,
			      refused ? "refused" : "given");
			if (!ok) {
				x.bad = true;
				probe("buffer shrink refused");
			}
			break;
		}
		case 6: {
			name = "reserve";
			uint64_t len = choose(3) ? choose(10000) : choose(2) ? UINT64_MAX - choose(20000) : choose64() | 1ull << 44;
			uint64_t cap = sc_buf_cap(b), r0 = mallocs_refused();
			bool ok = sc_buf_reserve(b, len);
			bool refused = mallocs_refused() != r0;
			trace("reserve %lu = %d", (unsigned long) len, ok);
			if (sc_buf_cap(b) != cap)
				forget_tail(x);
			if (len > 1ull << 40)
				CHECK("C06:reserve", !ok, "reserve of %lu bytes succeeded", (unsigned long) len);
			else {
				int f = fate(x, len, cap, refused);
				CHECK("C06:reserve", f == 2 || ok == f, "reserve(%lu) at %lu of %lu returned %d", (unsigned long) len,
				      (unsigned long) x.w, (unsigned long) cap, ok);
			}
			if (ok)
				CHECK("C06:reserve", sc_buf_quota(b) >= len, "reserve(%lu) leaves room for %lu", (unsigned long) len,
				      (unsigned long) sc_buf_quota(b));
			x.bad = !ok;
			break;
		}
		case 7: {
			name = "write through the pointer";
			uint64_t q = sc_buf_quota(b);
			std::string d = blob((uint32_t) std::min<uint64_t>(q, 200));
			if (d.size() > q)
				d.resize(q);
			if (d.empty())
				break;
			memcpy(sc_buf_wbuf(b), d.data(), d.size());
			sc_buf_mark_write(b, d.size());
			x.put(x.w, d.data(), d.size());
			x.w += d.size();
			break;
		}
		case 8: {
			name = "read through the pointer";
			uint64_t len = choose((uint32_t) std::min<uint64_t>(x.w - x.r, 300) + 1);
			unsigned char *p = (unsigned char *) sc_buf_rbuf(b);
			for (uint64_t i = 0; i < len; i++)
				CHECK("C06:content", x.byte(x.r + i) < 0 || p[i] == x.byte(x.r + i), "byte %lu at the read pointer",
				      (unsigned long) i);
			sc_buf_mark_read(b, len);
			x.r += len;
			break;
		}
		case 9: {
			if (nb < 2)
				break;
			B &y = &x == &v[0] ? v[1] : v[0];
			if (y.bad)
				break;
			name = "move";
			uint64_t want = std::min(sc_buf_quota(b), sc_buf_size(y.b));
			sc_buf_move(b, y.b);
			trace("move %lu bytes", (unsigned long) want);
			for (uint64_t i = 0; i < want; i++) {
				if (x.m.size() <= x.w + i)
					x.m.resize(x.w + i + 1, -1);
				x.m[x.w + i] = y.byte(y.r + i);
			}
			x.w += want;
			y.r += want;
			verify(y, "move (source)");
			break;
		}
		case 10: {
			name = "set_rpos/wpos";
			bool rp = choose(2);
			uint64_t cap = sc_buf_cap(b);
			if (rp) {
				uint64_t pos = choose(6) ? choose((uint32_t) x.w + 1) : x.w + 1 + choose(3);
				sc_buf_set_rpos(b, pos);
				if (pos > x.w)
					x.bad = true;
				else
					x.r = pos;
				trace("set_rpos %lu", (unsigned long) pos);
			} else {
				uint64_t pos = choose(6) ? x.r + choose((uint32_t) (cap - x.r) + 1) : cap + 1 + choose(3);
				sc_buf_set_wpos(b, pos);
				if (pos > cap)
					x.bad = true;
				else
					x.w = pos;
				trace("set_wpos %lu", (unsigned long) pos);
			}
			break;
		}
		default: {
			uint32_t k = choose(12);
			if (k == 0) {
				name = "clear";
				sc_buf_clear(b);
				x.m.clear();
				x.r = x.w = 0;
				trace("clear");
			} else if (k == 1) {
				name = "term";
				finish(x);
				if (choose(3) == 0)
					sc_buf_term(x.b);
				init(x);
			} else {
				// read it all back
				name = "read back";
				uint64_t len = x.w - x.r, i = 0;
				while (i < len && !x.bad) {
					uint64_t c = x.w - x.r;
					if (c == 0)
						break;
					uint64_t got = c >= 8 && choose(2) ? (sc_buf_get_64(b), 8) : (sc_buf_get_8(b), 1);
					x.r += got;
					i += got;
					if (i > 400)
						break;
				}
			}
			break;
		}
		}
		if (x.bad)
			CHECK("C06:valid", !sc_buf_valid(b), "%s does not fit but the buffer is valid", name);
		else
			verify(x, name);
		state_hash(op * 7919 + x.w * 31 + x.r);
	}
	for (int i = 0; i < nb; i++) {
		finish(v[i]);
		harness_free(v[i].b);
	}
}

SCENARIO(C06, histories, 1500)
{
	swarm_malloc();
	hist_buffer();
	check_leaks();
}

// ---------------------------------------------------------------- C07
namespace {
struct D { // a buffer of damaged bytes and what is in it
	struct sc_buf *b;
	std::string bytes; // all bytes up to the capacity
	uint64_t w = 0;
	char *wrapped = nullptr;
};
} // namespace

static uint64_t nasty(const D &d)
{
	uint64_t r = sc_buf_rpos(d.b), cap = d.bytes.size();
	switch (choose(10)) {
	case 0:
		return choose(20);
	case 1:
		return d.w - r + choose(3);
	case 2:
		return d.w - choose(10);
	case 3:
		return cap - choose(10);
	case 4:
		return cap + choose(4);
	case 5:
		return UINT64_MAX - choose(24);
	case 6:
		return 0 - r - choose(20);
	case 7:
		return NULLLEN - 2 + choose(5);
	case 8:
		return (1ull << (31 + choose(33))) - choose(16);
	default:
		return choose((uint32_t) cap + 1);
	}
}

static uint64_t leread(const D &d, uint64_t pos, int n)
{
	uint64_t v = 0;
	for (int i = 0; i < n; i++)
		v |= (uint64_t) (unsigned char) d.bytes[pos + (uint64_t) i] << (8 * i);
	return v;
}

HISTORY(C07, decode)
{
	D d;
	d.b = (struct sc_buf *) harness_alloc(sizeof(struct sc_buf));
	// a message as a writer would produce it
	std::string msg;
	int items = (int) range(0, 8);
	for (int i = 0; i < items; i++) {
		switch (choose(5)) {
		case 0:
			msg += le(choose64(), 1 << choose(4));
			break;
		case 1:
			msg += le(NULLLEN, 8);
			break;
		case 2: {
			std::string s = textual(20);
			msg += le(s.size(), 8) + s + std::string(1, '\0');
			break;
		}
		default: {
			std::string s = blob(20);
			msg += le(s.size(), 8) + s;
		}
		}
	}
	// damage
	uint32_t slack = choose(3) ? choose(40) : 0;
	int hits = (int) choose(4);
	d.w = msg.size();
	d.bytes = msg;
	for (uint32_t i = 0; i < slack; i++)
		d.bytes += (char) choose(256);
	if (d.bytes.empty())
		d.bytes = "x";
	char *mem;
	bool owned = choose(2);
	if (owned) {
		mem = (char *) simc_malloc(d.bytes.size());
		if (!mem) {
			harness_free(d.b);
			return;
		}
	} else
		mem = d.wrapped = (char *) harness_alloc(d.bytes.size());
	*d.b = sc_buf_wrap(mem, d.bytes.size(), owned ? 0 : SC_BUF_REF);
	for (int i = 0; i < hits; i++) {
		fault_fired(F_CORRUPT);
		switch (choose(3)) {
		case 0:
			d.bytes[choose((uint32_t) d.bytes.size())] ^= (char) (1 << choose(8));
			break;
		case 1: // a length field
			if (d.w >= 8) {
				uint64_t p = choose((uint32_t) d.w - 7), v = nasty(d);
				std::string t = le(v, 8);
				d.bytes.replace(p, 8, t);
				trace("8 bytes at %lu become %lu", (unsigned long) p, (unsigned long) v);
			}
			break;
		default:
			d.w -= choose((uint32_t) d.w + 1); // truncated
			break;
		}
	}
	memcpy(mem, d.bytes.data(), d.bytes.size());
	sc_buf_set_wpos(d.b, d.w);
	CHECK("C07:valid", sc_buf_valid(d.b) && sc_buf_size(d.b) == d.w, "setting the write position failed");
	trace("%lu bytes of %zu written", (unsigned long) d.w, d.bytes.size());

	int n = (int) range(1, 16);
	unsigned char *dst = (unsigned char *) harness_alloc(64);
	struct sc_buf *b = d.b;
	for (int s = 0; s < n; s++) {
		if (!sc_buf_valid(b)) {
			uint64_t r = sc_buf_rpos(b);
			CHECK("C07:invalid", sc_buf_get_8(b) == 0 && sc_buf_get_16(b) == 0 && sc_buf_get_32(b) == 0 &&
						     sc_buf_get_64(b) == 0,
			      "a read of an invalid buffer yields a value");
			CHECK("C07:pos", sc_buf_rpos(b) == r, "a read of an invalid buffer moved the read position");
			sc_buf_clear(b);
			sc_buf_set_wpos(b, d.w);
			sc_buf_set_rpos(b, r);
			CHECK("C07:valid", sc_buf_valid(b) && sc_buf_rpos(b) == r, "clearing did not make the buffer usable");
		}
		uint64_t r = sc_buf_rpos(b), left = d.w - r;
		bool fits = true, chk = true;
		uint64_t used = 0;
		const char *what = "?";
		uint64_t pos = choose(2) ? r : nasty(d);
		switch (choose(12)) {
		case 0:
		case 1: {
			int sz = 1 << choose(4);
			uint64_t v = sz == 1 ? sc_buf_get_8(b) : sz == 2 ? sc_buf_get_16(b) : sz == 4 ? sc_buf_get_32(b) :
												  sc_buf_get_64(b);
			what = "get";
			trace("get %d bytes = %lu", sz, (unsigned long) v);
			fits = left >= (uint64_t) sz;
			CHECK("C07:value", v == (fits ? leread(d, r, sz) : 0), "reading %d bytes at %lu of %lu yields %lu", sz,
			      (unsigned long) r, (unsigned long) d.w, (unsigned long) v);
			used = (uint64_t) sz;
			break;
		}
		case 2:
		case 3: {
			int sz = 1 << choose(4);
			uint64_t v = sz == 1   ? sc_buf_peek_8_at(b, pos)
				     : sz == 2 ? sc_buf_peek_16_at(b, pos)
				     : sz == 4 ? sc_buf_peek_32_at(b, pos)
					       : sc_buf_peek_64_at(b, pos);
			what = "peek_at";
			trace("peek %d bytes at %lu = %lu", sz, (unsigned long) pos, (unsigned long) v);
			fits = pos <= d.w && d.w - pos >= (uint64_t) sz;
			CHECK("C07:value", v == (fits ? leread(d, pos, sz) : 0), "peeking %d bytes at %lu of %lu yields %lu", sz,
			      (unsigned long) pos, (unsigned long) d.w, (unsigned long) v);
			break;
		}
		case 4: {
			uint64_t len = choose(64);
			what = "peek_data";
			memset(dst, 0x77, 64);
			uint64_t rc = sc_buf_peek_data(b, pos, dst, len);
			trace("peek_data %lu bytes at %lu = %lu", (unsigned long) len, (unsigned long) pos, (unsigned long) rc);
			fits = pos <= d.w && d.w - pos >= len;
			CHECK("C07:value", rc == (fits ? len : 0), "peek_data of %lu bytes at %lu of %lu returned %lu",
			      (unsigned long) len, (unsigned long) pos, (unsigned long) d.w, (unsigned long) rc);
			for (uint64_t i = 0; i < len; i++)
				CHECK("C07:value", dst[i] == (fits ? (unsigned char) d.bytes[pos + i] : 0), "peek_data byte %lu",
				      (unsigned long) i);
			break;
		}
		case 5: {
			uint64_t len = choose(64);
			what = "get_data";
			sc_buf_get_data(b, dst, len);
			trace("get_data %lu", (unsigned long) len);
			fits = left >= len;
			used = len;
			for (uint64_t i = 0; i < len; i++)
				CHECK("C07:value", dst[i] == (fits ? (unsigned char) d.bytes[r + i] : 0), "get_data byte %lu",
				      (unsigned long) i);
			break;
		}
		case 6:
		case 7: {
			uint64_t len = choose(2) ? nasty(d) : (left >= 8 ? sc_buf_get_64(b) : choose(9));
			r = sc_buf_rpos(b);
			left = d.w - r;
			what = "get_blob";
			void *p = sc_buf_get_blob(b, len);
			trace("get_blob %lu at %lu of %lu = %s", (unsigned long) len, (unsigned long) r, (unsigned long) d.w,
			      p ? "memory" : "NULL");
			fits = len <= left;
			used = len;
			CHECK("C07:value", p == (fits && len ? mem + r : nullptr), "get_blob of %lu bytes with %lu left yields %s",
			      (unsigned long) len, (unsigned long) left, p ? "memory" : "NULL");
			break;
		}
		case 8:
		case 9: {
			what = "get_str";
			const char *p = sc_buf_get_str(b);
			uint64_t len = left >= 8 ? leread(d, r, 8) : 0;
			trace("get_str (length field %lu) at %lu of %lu = %s", (unsigned long) len, (unsigned long) r,
			      (unsigned long) d.w, p ? "memory" : "NULL");
			if (left < 8) {
				fits = false;
			} else if (len == NULLLEN) {
				used = 8;
				CHECK("C07:value", !p, "get_str of NULL yields memory");
				break;
			} else {
				fits = len < left - 8;
				used = len + 9;
				if (!fits) {
					CHECK("C07:pos", sc_buf_rpos(b) == r || sc_buf_rpos(b) == r + 8,
					      "a failed get_str moved the read position from %lu to %lu", (unsigned long) r,
					      (unsigned long) sc_buf_rpos(b));
					chk = false;
				}
			}
			CHECK("C07:value", p == (fits ? mem + r + 8 : nullptr), "get_str of %lu bytes with %lu left yields %s",
			      (unsigned long) len, (unsigned long) left, p ? "memory" : "NULL");
			break;
		}
		case 10: {
			int sz = 1 << choose(4);
			uint64_t v = choose64();
			what = "set_at";
			if (sz == 1)
				sc_buf_set_8_at(b, pos, (uint8_t) v);
			else if (sz == 2)
				sc_buf_set_16_at(b, pos, (uint16_t) v);
			else if (sz == 4)
				sc_buf_set_32_at(b, pos, (uint32_t) v);
			else
				sc_buf_set_64_at(b, pos, v);
			trace("set %d bytes at %lu", sz, (unsigned long) pos);
			fits = pos <= d.bytes.size() && d.bytes.size() - pos >= (uint64_t) sz;
			if (fits)
				d.bytes.replace(pos, (size_t) sz, le(v, sz));
			break;
		}
		default: {
			std::string t = blob(20);
			Arg a(t, false);
			what = "set_data";
			uint64_t rc = sc_buf_set_data(b, pos, a.p, t.size());
			trace("set_data %zu bytes at %lu = %lu", t.size(), (unsigned long) pos, (unsigned long) rc);
			fits = pos <= d.bytes.size() && d.bytes.size() - pos >= t.size();
			CHECK("C07:value", rc == (fits ? t.size() : 0), "set_data returned %lu", (unsigned long) rc);
			if (fits && t.size())
				d.bytes.replace(pos, t.size(), t);
			break;
		}
		}
		CHECK("C07:valid", sc_buf_valid(b) == fits, "%s that %s left valid=%d", what, fits ? "fits" : "does not fit",
		      sc_buf_valid(b));
		if (!fits)
			probe("read or write that does not fit");
		if (chk)
			CHECK("C07:pos", sc_buf_rpos(b) == r + (fits ? used : 0), "%s moved the read position from %lu to %lu",
			      what, (unsigned long) r, (unsigned long) sc_buf_rpos(b));
		CHECK("C07:pos", sc_buf_rpos(b) >= r && sc_buf_rpos(b) <= d.w && sc_buf_wpos(b) == d.w,
		      "%s left positions %lu/%lu, written %lu", what, (unsigned long) sc_buf_rpos(b),
		      (unsigned long) sc_buf_wpos(b), (unsigned long) d.w);
		CHECK("C07:bytes", !memcmp(mem, d.bytes.data(), d.bytes.size()), "%s changed other bytes", what);
		state_hash(sc_buf_rpos(b) * 131 + d.w + (fits ? 0 : 1000000));
	}
	sc_buf_term(b);
	if (d.wrapped)
		harness_free(d.wrapped);
	harness_free(dst);
	harness_free(d.b);
}

SCENARIO(C07, damaged, 1)
{
	hist_decode();
	check_leaks();
}
