// C05: length-prefixed strings against reference strings, with refused
// allocations.
#include "sim.h"
extern "C" {
#include "sc_str.h"
bool w_str_append_fmt_s(char **s, const char *a);
bool w_str_append_fmt_sd(char **s, const char *a, int d);
char *w_str_va(const char *fmt, ...);
}
using namespace sim;

ACCEPT(C05, "mem:", "leak", "hang:", "assert", "exit:")

namespace {
struct S {
	char *s;
	bool null;
	std::string m;
};
} // namespace

static std::string text(uint32_t maxlen)
{
	static const char *alpha[] = {"ab", "a-;", "abcdefgh -;:", "\x80\xff%sd\\", " \t\na"};
	const char *al = alpha[choose(5)];
	size_t na = strlen(al);
	uint32_t len;
	switch (choose(8)) {
	case 0:
		len = 0;
		break;
	case 1:
		len = maxlen > 900 ? range(1015, 1030) : choose(5);
		break;
	case 2:
		len = maxlen;
		break;
	default:
		len = choose(maxlen > 24 ? 24 : maxlen + 1);
	}
	std::string t;
	for (uint32_t i = 0; i < len; i++)
		t += len > 100 ? al[(i * 7 + i / 13) % na] : al[choose((uint32_t) na)];
	return t;
}

// a NUL-terminated copy in a guarded block, so that overreads are seen
struct Arg {
	char *p;
	explicit Arg(const std::string &t)
	{
		p = (char *) harness_alloc(t.size() + 1);
		memcpy(p, t.c_str(), t.size() + 1);
	}
	~Arg() { harness_free(p); }
};

static void verify(const S &x, const char *op)
{
	if (x.null) {
		CHECK("C05:content", x.s == nullptr, "after %s the string is not NULL", op);
		CHECK("C05:content", sc_str_len(x.s) == -1, "length of NULL is %ld", (long) sc_str_len(x.s));
		return;
	}
	CHECK("C05:content", x.s != nullptr, "after %s the string is NULL, expected %zu bytes", op, x.m.size());
	CHECK("C05:content", sc_str_len(x.s) == (int64_t) x.m.size(), "after %s the length is %ld, expected %zu", op,
	      (long) sc_str_len(x.s), x.m.size());
	CHECK("C05:content", addressable(x.s, x.m.size() + 1), "after %s the string is not inside its block", op);
	CHECK("C05:content", !memcmp(x.s, x.m.data(), x.m.size()), "after %s the bytes differ: '%.60s', expected '%.60s'",
	      op, x.s, x.m.c_str());
	CHECK("C05:content", x.s[x.m.size()] == '\0', "after %s the string is not terminated", op);
}

static bool has_nul(const std::string &m) { return m.find('\0') != std::string::npos; }

static std::string ref_replace(const std::string &m, const std::string &r, const std::string &w)
{
	std::string o;
	size_t i = 0;
	if (r.empty())
		return m;
	for (;;) {
		size_t j = m.find(r, i);
		if (j == std::string::npos)
			break;
		o.append(m, i, j - i);
		o += w;
		i = j + r.size();
	}
	o.append(m, i, std::string::npos);
	return o;
}

static std::vector<std::string> ref_split(const std::string &m, const std::string &d)
{
	std::vector<std::string> t(1);
	for (char c : m) {
		if (d.find(c) != std::string::npos)
			t.emplace_back();
		else
			t.back() += c;
	}
	return t;
}

static void tokenize(S &x)
{
	std::string d = choose(3) ? std::string("-") : text(3);
	Arg da(d);
	auto want = ref_split(x.m, d);
	char *save = nullptr;
	size_t i = 0, stop = choose(3) == 0 ? choose((uint32_t) want.size() + 1) : want.size() + 1;
	bool change = choose(5) == 0 && !d.empty(); // another delimiter for the rest
	trace("tokenize by '%s' stop %zu", d.c_str(), stop);
	while (i < stop) {
		const char *t = sc_str_token_begin(x.s, &save, da.p);
		if (!t) {
			CHECK("C05:token", i == want.size(), "tokenizing ended after %zu of %zu tokens", i, want.size());
			break;
		}
		CHECK("C05:token", i < want.size(), "tokenizing yields more than the %zu tokens", want.size());
		CHECK("C05:token", want[i] == t, "token %zu is '%.40s', expected '%.40s'", i, t, want[i].c_str());
		i++;
		(void) change;
	}
	if (choose(8) == 0 && i == want.size() && stop > want.size())
		CHECK("C05:token", !sc_str_token_begin(x.s, &save, da.p), "a token after the end");
	sc_str_token_end(x.s, &save);
	verify(x, "tokenizing");
	if (i < want.size())
		probe("tokenizing stopped early");
}

HISTORY(C05, string)
{
	int ns = (int) range(1, 3);
	std::vector<S> v((size_t) ns, S{nullptr, true, ""});
	int n = (int) range(1, 30);
	uint32_t maxlen = choose(4) ? 24 : choose(2) ? 1100 : 4000;
	for (int step = 0; step < n; step++) {
		S &x = v[choose((uint32_t) ns)];
		uint32_t op = choose(16);
		uint64_t r0 = mallocs_refused();
		auto refused = [&]() { return mallocs_refused() != r0; };
		switch (op) {
		case 0:
		case 1:
		case 2: { // create
			char *s;
			std::string t = text(maxlen);
			bool isnull = false;
			if (op == 0) {
				Arg a(t);
				isnull = choose(12) == 0;
				s = sc_str_create(isnull ? nullptr : a.p);
			} else if (op == 1) {
				if (choose(3) == 0 && t.size())
					t[choose((uint32_t) t.size())] = '\0';
				char *raw = (char *) harness_alloc(t.size() ? t.size() : 1);
				memcpy(raw, t.data(), t.size());
				isnull = choose(12) == 0;
				s = sc_str_create_len(isnull ? nullptr : raw, (uint32_t) t.size());
				harness_free(raw);
			} else {
				Arg a(t);
				int d = (int) choose(1000);
				if (choose(2))
					s = sc_str_create_fmt("%s/%d", a.p, d);
				else
					s = w_str_va("%s/%d", a.p, d);
				t += "/" + std::to_string(d);
			}
			trace("create %zu bytes%s", t.size(), refused() ? " (refused)" : "");
			bool want = !isnull && !refused();
			CHECK("C05:create", (s != nullptr) == want, "create returned %s, expected %s", s ? "a string" : "NULL",
			      want ? "a string" : "NULL");
			if (s) {
				sc_str_destroy(&x.s);
				x = S{s, false, t};
			}
			break;
		}
		case 3: {
			S &y = v[choose((uint32_t) ns)];
			char *s = sc_str_dup(y.s);
			CHECK("C05:create", (s != nullptr) == (!y.null && !refused()), "dup of %s returned %s",
			      y.null ? "NULL" : "a string", s ? "a string" : "NULL");
			trace("dup%s", refused() ? " (refused)" : "");
			if (s) {
				std::string t = y.m;
				verify(S{s, false, t}, "dup");
				CHECK("C05:cmp", sc_str_cmp(s, y.s), "a duplicate compares as different");
				if (t.size()) {
					// one byte makes a difference, wherever it is
					char *b = s + choose((uint32_t) t.size());
					*b ^= 1;
					CHECK("C05:cmp", !sc_str_cmp(s, y.s) && !sc_str_cmp(y.s, s), "strings that differ compare as equal");
					*b ^= 1;
				}
				sc_str_destroy(&x.s);
				x = S{s, false, t};
			}
			break;
		}
		case 4:
		case 5: { // set
			std::string t = text(maxlen);
			Arg a(t);
			bool ok;
			if (op == 4) {
				bool isnull = choose(12) == 0;
				ok = sc_str_set(&x.s, isnull ? nullptr : a.p);
				CHECK("C05:set", ok == (!isnull && !refused()), "set returned %d", ok);
			} else {
				bool self = !x.null && !has_nul(x.m) && choose(3) == 0;
				if (self) {
					ok = sc_str_set_fmt(&x.s, "%s+%s", x.s, a.p);
					t = x.m + "+" + t;
				} else {
					ok = sc_str_set_fmt(&x.s, "[%s]", a.p);
					t = "[" + t + "]";
				}
				CHECK("C05:set", ok == !refused(), "set_fmt returned %d, memory %s", ok,
				      refused() ? "refused" : "given");
			}
			trace("set = %d", ok);
			if (ok) {
				x.null = false;
				x.m = t;
			}
			break;
		}
		case 6:
		case 7:
		case 8: { // append
			std::string t = text(maxlen);
			Arg a(t);
			bool ok;
			if (op == 8 && !has_nul(x.m)) {
				if (choose(2)) {
					ok = w_str_append_fmt_s(&x.s, a.p);
				} else {
					int d = (int) choose(1000);
					ok = w_str_append_fmt_sd(&x.s, a.p, d);
					t = "<" + t + ":" + std::to_string(d) + ">";
				}
			} else {
				ok = sc_str_append(&x.s, a.p);
			}
			trace("append %zu bytes = %d", t.size(), ok);
			CHECK("C05:append", ok == !refused(), "append returned %d, memory %s", ok,
			      refused() ? "refused" : "given");
			if (ok) {
				x.m = (x.null ? "" : x.m) + t;
				x.null = false;
			}
			break;
		}
		case 9: {
			if (has_nul(x.m))
				break;
			std::string l = choose(2) ? std::string(" \t\n") : text(3);
			Arg a(l);
			bool ok = sc_str_trim(&x.s, a.p);
			trace("trim = %d", ok);
			CHECK("C05:trim", ok == (x.null || !refused()), "trim returned %d", ok);
			if (ok && !x.null) {
				size_t b = x.m.find_first_not_of(l), e = x.m.find_last_not_of(l);
				x.m = b == std::string::npos ? "" : x.m.substr(b, e - b + 1);
			}
			break;
		}
		case 10: {
			uint32_t len = (uint32_t) x.m.size();
			uint32_t a = choose(len + 2), b = choose(4) ? a + choose(len + 2) : choose(len + 2);
			if (choose(20) == 0)
				b = UINT32_MAX - choose(3);
			if (choose(20) == 0)
				a = UINT32_MAX - choose(3);
			bool ok = sc_str_substring(&x.s, a, b);
			trace("substring %u..%u = %d", a, b, ok);
			bool in = !x.null && a <= len && b <= len && a <= b;
			CHECK("C05:substring", ok == (in && !refused()), "substring(%u,%u) of %u bytes returned %d", a, b, len,
			      ok);
			if (ok)
				x.m = x.m.substr(a, b - a);
			break;
		}
		case 11:
		case 12: {
			if (has_nul(x.m))
				break;
			std::string r = text(4), w = text(choose(4) ? 5 : maxlen / 4);
			if (op == 12 && x.m.size() > 2) { // something that is there
				size_t i = choose((uint32_t) x.m.size() - 1);
				r = x.m.substr(i, 1 + choose(4));
			}
			if (choose(3) == 0)
				w = std::string(r.size(), 'Z');
			Arg ra(r), wa(w);
			std::string want = ref_replace(x.m, r, w);
			if (want.size() > 40000)
				break;
			bool ok = sc_str_replace(&x.s, ra.p, wa.p);
			trace("replace '%.20s' by %zu bytes = %d", r.c_str(), w.size(), ok);
			CHECK("C05:replace", ok == (x.null || !refused()), "replace returned %d, memory %s", ok,
			      refused() ? "refused" : "given");
			if (ok && !x.null)
				x.m = want;
			break;
		}
		case 13:
			if (x.null || has_nul(x.m))
				break;
			tokenize(x);
			break;
		case 14: {
			S &y = v[choose((uint32_t) ns)];
			if (x.null || y.null)
				break;
			CHECK("C05:cmp", sc_str_cmp(x.s, y.s) == (x.m == y.m), "compare of %zu and %zu bytes is wrong",
			      x.m.size(), y.m.size());
			break;
		}
		default:
			if (choose(3))
				break;
			sc_str_destroy(&x.s);
			x.null = true;
			x.m.clear();
			trace("destroy");
			break;
		}
		if (refused())
			probe("string operation refused memory");
		for (auto &y : v)
			verify(y, "an operation");
		if (x.m.size() > 20000) {
			sc_str_destroy(&x.s);
			x = S{nullptr, true, ""};
		}
		state_hash(op * 1000003 + x.m.size());
	}
	for (auto &y : v)
		sc_str_destroy(&y.s);
}

SCENARIO(C05, histories, 400)
{
	swarm_malloc();
	hist_string();
	check_leaks();
}
