// F01-F03: file mappings, durability of synced bytes, INI files.
#include "../sim/kernel.h"
#include <cerrno>
#include <cstdlib>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
extern "C" {
#include "sc_ini.h"
#include "sc_mmap.h"
int simc_open(const char *, int, ...);
}
using namespace sim;
ACCEPT(F01, "mem:", "leak", "hang:", "map:", "fd:", "assert", "exit:")
ACCEPT(F02, "mem:", "leak", "hang:", "map:", "fd:", "assert", "exit:")
ACCEPT(F03, "mem:", "leak", "hang:", "stream:", "fd:", "assert", "exit:")

static const size_t PG = 4096;

static std::string bytes(size_t n)
{
	std::string s(n, 0);
	uint32_t seed = choose(1000);
	for (size_t i = 0; i < n; i++)
		s[i] = (char) (1 + (i * 31 + (i >> 8) * 7 + seed) % 251);
	return s;
}

static size_t pick_len()
{
	static const size_t l[] = {0, 1, 100, 511, 4095, 4096, 4097, 8192, 10000, 20480};
	return choose(4) ? l[choose(10)] : choose(24000);
}

// ------------------------------------------------------------------- F01
struct Map {
	struct sc_mmap m;
	std::string file;
	size_t off, len;
	bool shared, writable;
	std::string priv; // what a private mapping holds
	bool live = false;
};

// what the mapping must show: the file, or the private copy
static void check_bytes(Map &x)
{
	std::string f = file_get(x.file);
	size_t end = x.off + x.len < f.size() ? x.off + x.len : f.size();
	if (x.off >= end)
		return;
	if (x.shared)
		CHECK("F01:bytes", memcmp(x.m.ptr, f.data() + x.off, end - x.off) == 0,
		      "the mapping of [%zu,%zu) differs from the file", x.off, end);
	else
		CHECK("F01:bytes", memcmp(x.m.ptr, x.priv.data(), x.priv.size()) == 0,
		      "a private mapping of [%zu,%zu) lost what was stored in it", x.off, end);
}

SCENARIO(F01, mapping, 4)
{
	swarm({F_OPEN_ERR, F_SYSCALL_ERR, F_EINTR, F_DISK_FULL, F_CLOSE_ERR}, 30);
	static const char *names[] = {"/data/a", "/data/b", "/nodir/c"};
	for (int i = 0; i < 2; i++)
		if (choose(4))
			file_put(names[i], bytes(pick_len()));
	if (choose(5) == 0)
		disk_limit((int64_t) choose(30000));
	bool limited = false;
	std::vector<Map> maps(3);
	int ops = (int) range(1, 10);
	for (int op = 0; op < ops; op++) {
		Map &x = maps[choose(3)];
		if (!x.live && choose(8) == 0) {
			// an object that maps nothing
			struct sc_mmap z;
			memset(&z, 0, sizeof(z));
			z.fd = -1;
			CHECK("F01:term", sc_mmap_term(&z) == 0, "terminating an unmapped object failed");
			continue;
		}
		if (!x.live) {
			x.file = names[choose(20) ? choose(2) : 2];
			bool exists = file_exists(x.file);
			std::string before = file_get(x.file);
			int acc = choose(4) ? O_RDWR : choose(2) ? O_RDONLY : O_WRONLY;
			int fl = acc;
			if (choose(2))
				fl |= O_CREAT;
			if (choose(10) == 0)
				fl |= O_EXCL | O_CREAT;
			bool others = false;
			for (auto &o : maps)
				others |= o.live && o.file == x.file;
			if (!others && acc != O_RDONLY && choose(8) == 0)
				fl |= O_TRUNC;
			int prot = choose(4) ? PROT_READ | PROT_WRITE : PROT_READ;
			x.shared = choose(4) != 0;
			x.writable = (prot & PROT_WRITE) != 0;
			x.off = choose(3) ? 0 : choose(8) ? PG * choose(5) : choose(9000);
			size_t len = choose(3) ? pick_len() : 0;
			bool trunc = (fl & O_TRUNC) && exists;
			size_t size = trunc ? 0 : before.size();
			std::string kept = trunc ? std::string() : before;
			// what must happen when nothing fails
			bool can = x.file != names[2] && (exists ? !(fl & O_EXCL) : (fl & O_CREAT) != 0);
			if (len == 0) {
				can &= x.off < size;
				x.len = can ? size - x.off : 0;
			} else {
				x.len = len;
			}
			can &= x.off % PG == 0 && acc != O_WRONLY;
			bool maybe = false;
			if (x.writable && acc != O_RDWR) {
				maybe = can && !x.shared; // the library may refuse
				can = false;
			}
			size_t fds = open_fds(), nm = open_mappings();
			uint64_t f0 = my_faults();
			memset(&x.m, 0xa5, sizeof(x.m));
			errors_mark();
			int rc = sc_mmap_init(&x.m, x.file.c_str(), fl, prot, x.shared ? MAP_SHARED : MAP_PRIVATE, x.off, len);
			bool hit = my_faults() != f0;
			trace("init(%s, flags %o, prot %d, %s, off %zu, len %zu) = %d, size was %zu", x.file.c_str(), fl, prot,
			      x.shared ? "shared" : "private", x.off, len, rc, size);
			std::string after = file_get(x.file);
			size_t need = x.off + x.len;
			if (x.writable && can && need > size)
				limited = true; // may have run out of space
			if (rc != 0) {
				CHECK("F01:rc", rc < 0, "a failed map returned %d", rc);
				CHECK("F01:refused", !can || hit || limited, "the map failed with nothing wrong: %s",
				      sc_mmap_err(&x.m));
				CHECK("F01:text", sc_mmap_err(&x.m)[0] != 0 && memchr(x.m.err, 0, sizeof(x.m.err)),
				      "a failed map leaves no error text");
				CHECK("F01:text", errors_named(sc_mmap_err(&x.m)), "the error text is \"%s\", no call failed that way",
				      sc_mmap_err(&x.m));
				CHECK("F01:nothing", open_fds() == fds, "a failed map left a descriptor open:%s",
				      fd_list().c_str());
				CHECK("F01:nothing", open_mappings() == nm, "a failed map left something mapped");
				// opened with O_TRUNC the file may be empty, else it is intact
				bool intact = after.compare(0, before.size(), before) == 0 && after.size() >= before.size();
				bool truncated = trunc && after.find_first_not_of('\0') == std::string::npos;
				CHECK("F01:kept", intact || truncated, "a failed map changed the file (%zu bytes, now %zu)",
				      before.size(), after.size());
				probe("map failed");
				if (choose(2)) {
					CHECK("F01:term", sc_mmap_term(&x.m) == 0, "terminating after a failed map failed");
					CHECK("F01:nothing", open_fds() == fds && open_mappings() == nm,
					      "terminating after a failed map released something");
				}
				continue;
			}
			CHECK("F01:accepted", can || maybe, "a map that cannot work reported success");
			CHECK("F01:range", x.m.ptr && x.m.len == x.len, "the mapping covers %zu bytes instead of %zu", x.m.len,
			      x.len);
			CHECK("F01:range", open_mappings() == nm + 1, "%zu mappings were created", open_mappings() - nm);
			for (size_t p = 0; p < x.len; p += PG)
				CHECK("F01:range", page_mapped(x.m.ptr + p), "byte %zu of the range is not mapped", p);
			CHECK("F01:range", page_mapped(x.m.ptr + x.len - 1), "the end of the range is not mapped");
			if (x.writable)
				CHECK("F01:size", after.size() >= need, "the file has %zu bytes, the mapping ends at %zu",
				      after.size(), need);
			CHECK("F01:size", after.size() >= size, "the file was shortened from %zu to %zu bytes", size, after.size());
			CHECK("F01:size", after.size() == size || (x.writable && after.size() == need),
			      "the file has %zu bytes instead of %zu", after.size(), need > size ? need : size);
			CHECK("F01:kept", after.compare(0, size, kept) == 0, "mapping changed the file's bytes");
			CHECK("F01:kept", after.find_first_not_of('\0', size) == std::string::npos, "the new part is not zero");
			if (x.writable && x.shared && disk_free() >= 0)
				CHECK("F01:full", file_holes(x.file, x.off, x.len) * PG <= (size_t) disk_free(),
				      "the disk is full and the map succeeds: there is no room for what is stored in it");
			x.live = true;
			size_t end = need < after.size() ? need : after.size();
			x.priv = x.off < end ? after.substr(x.off, end - x.off) : "";
			check_bytes(x);
			if (!x.shared)
				CHECK("F01:bytes", x.priv.empty() || memcmp(x.m.ptr, x.priv.data(), x.priv.size()) == 0,
				      "a private mapping differs from the file");
			probe(x.shared ? "shared mapping" : "private mapping");
			if (after.size() > size)
				probe("file extended");
			continue;
		}
		switch (choose(4)) {
		case 0:
		case 1: { // store
			if (!x.writable || x.len == 0)
				break;
			size_t fsz = file_get(x.file).size();
			size_t lim = x.off < fsz ? fsz - x.off : 0;
			if (lim > x.len)
				lim = x.len;
			if (lim == 0)
				break;
			size_t o = choose((uint32_t) lim), n = 1 + choose(6000);
			if (n > lim - o)
				n = lim - o;
			std::string b = bytes(n), f = file_get(x.file);
			memcpy(x.m.ptr + o, b.data(), n);
			if (x.shared) {
				f.replace(x.off + o, n, b);
				CHECK("F01:store", file_get(x.file) == f, "stores at [%zu,%zu) did not reach the file as they are",
				      x.off + o, x.off + o + n);
			} else {
				if (o + n <= x.priv.size())
					x.priv.replace(o, n, b);
				CHECK("F01:store", file_get(x.file) == f, "stores to a private mapping changed the file");
			}
			for (auto &y : maps)
				if (y.live && y.file == x.file && y.shared)
					check_bytes(y);
			break;
		}
		case 2:
			if (x.shared)
				check_bytes(x);
			break;
		default: {
			size_t fds = open_fds(), nm = open_mappings();
			std::string f = file_get(x.file);
			uint64_t f0 = my_faults(F_SYSCALL_ERR);
			int rc = sc_mmap_term(&x.m);
			bool hit = my_faults(F_SYSCALL_ERR) != f0;
			CHECK("F01:term", (rc != 0) == hit || (rc != 0 && my_faults()), "term returned %d", rc);
			CHECK("F01:term", open_fds() == fds - 1, "term left the descriptor open");
			CHECK("F01:term", hit || open_mappings() == nm - 1, "term left the range mapped");
			CHECK("F01:kept", file_get(x.file) == f, "term changed the file");
			if (hit) {
				CHECK("F01:text", sc_mmap_err(&x.m)[0] != 0, "a failed term leaves no error text");
				// gone for the library: closing again would close somebody else's
				int other = simc_open(names[0], O_RDWR | O_CREAT, 0644);
				size_t now = open_fds();
				(void) sc_mmap_term(&x.m);
				CHECK("F01:again", open_fds() == now, "after a failed term the descriptor is closed once more");
				(void) other;
				// the range stays mapped: not the library's to leak
				state_hash(1);
				faults_off();
				return;
			}
			fds = open_fds(), nm = open_mappings();
			CHECK("F01:again", sc_mmap_term(&x.m) == 0, "a second term failed");
			CHECK("F01:again", open_fds() == fds && open_mappings() == nm, "a second term released something");
			x.live = false;
			break;
		}
		}
	}
	faults_off();
	for (auto &x : maps)
		if (x.live) {
			CHECK("F01:term", sc_mmap_term(&x.m) == 0, "term failed with nothing wrong");
			x.live = false;
		}
	state_hash(file_get(names[0]).size() * 100003 + file_get(names[1]).size() + faults_fired_total() * 7);
	check_leaks();
}

// ------------------------------------------------------------------- F02
struct Durable {
	std::map<size_t, std::vector<unsigned char>> may; // byte -> values a crash may leave
	std::string cur;
	void store(size_t o, unsigned char v)
	{
		auto &m = may[o];
		if (m.empty())
			m.push_back((unsigned char) cur[o]);
		bool in = false;
		for (auto c : m)
			in |= c == v;
		if (!in)
			m.push_back(v);
		cur[o] = (char) v;
	}
	void synced(size_t o, size_t n)
	{
		may.erase(may.lower_bound(o), may.lower_bound(o + n));
	}
};

static void check_file(Durable &d, const std::string &f)
{
	CHECK("F02:size", f.size() == d.cur.size(), "the file has %zu bytes after the crash instead of %zu", f.size(),
	      d.cur.size());
	for (size_t i = 0; i < f.size(); i++) {
		if (i % PG == 0)
			while (i + PG <= f.size() && memcmp(f.data() + i, d.cur.data() + i, PG) == 0)
				i += PG;
		if (i >= f.size() || f[i] == d.cur[i])
			continue;
		auto it = d.may.find(i);
		CHECK("F02:lost", it != d.may.end(),
		      "byte %zu was synced (or never stored) as %u and is %u after the crash", i, (unsigned char) d.cur[i],
		      (unsigned char) f[i]);
		bool in = false;
		for (auto c : it->second)
			in |= c == (unsigned char) f[i];
		CHECK("F02:invented", in, "byte %zu holds %u after the crash, which was never stored there", i,
		      (unsigned char) f[i]);
	}
	d.cur = f;
	d.may.clear();
}

SCENARIO(F02, sync, 4)
{
	swarm({F_MSYNC_ERR, F_WRITEBACK, F_EINTR}, 25);
	const char *name = "/data/journal";
	size_t off = choose(3) ? 0 : PG * choose(3);
	size_t len = choose(3) ? PG * range(1, 6) : range(1, 24000);
	Durable d;
	d.cur = bytes(choose(2) ? off + len : choose((uint32_t) (off + len)));
	file_put(name, d.cur);
	if (d.cur.size() < off + len)
		d.cur.resize(off + len, 0);
	int lives = (int) range(1, 3);
	for (int life = 0; life < lives; life++) {
		struct sc_mmap m;
		int rc;
		do {
			rc = sc_mmap_init(&m, name, O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, off, len);
		} while (rc != 0 && my_faults() && (faults_off(), true));
		CHECK("F02:map", rc == 0, "the file cannot be mapped: %s", sc_mmap_err(&m));
		CHECK("F02:map", m.len == len && memcmp(m.ptr, d.cur.data() + off, len) == 0,
		      "the mapping does not show the file");
		bool synced = false;
		int ops = (int) range(2, 14);
		for (int i = 0; i < ops; i++) {
			if (choose(5) < 3) {
				size_t o = choose((uint32_t) len), n = choose(3) ? 1 + choose(40) : 1 + choose(9000);
				if (choose(3) == 0)
					o = o / PG * PG + (choose(2) ? 0 : PG - 3);
				if (o >= len)
					o = len - 1;
				if (n > len - o)
					n = len - o;
				unsigned char v = (unsigned char) choose(256);
				trace("store [%zu,%zu)", o, o + n);
				for (size_t j = 0; j < n; j++) {
					unsigned char c = (unsigned char) (v + j);
					m.ptr[o + j] = c;
					d.store(off + o + j, c);
				}
			} else {
				size_t o = choose(3) ? choose((uint32_t) len) : PG * choose((uint32_t) (len / PG + 1));
				if (o >= len)
					o = len - 1;
				size_t n = choose(4) ? 1 + choose((uint32_t) (len - o)) : 1 + choose(100);
				if (choose(3) == 0)
					n = len - o;
				if (n > len - o)
					n = len - o;
				uint64_t f0 = my_faults(F_MSYNC_ERR) + my_faults(F_EINTR);
				rc = sc_mmap_msync(&m, o, n);
				bool hit = my_faults(F_MSYNC_ERR) + my_faults(F_EINTR) != f0;
				trace("msync [%zu,%zu) = %d", o, o + n, rc);
				if (rc == 0) {
					d.synced(off + o, n);
					synced = true;
				} else {
					CHECK("F02:rc", hit, "a sync failed with nothing wrong: %s", sc_mmap_err(&m));
					CHECK("F02:rc", rc < 0 && sc_mmap_err(&m)[0], "a failed sync returned %d or left no error text",
					      rc);
				}
				if (hit && rc == 0)
					probe("sync retried");
			}
		}
		if (choose(8) == 0) {
			CHECK("F02:term", sc_mmap_term(&m) == 0 || my_faults(), "term failed");
			if (choose(2))
				continue; // no crash: everything is in the file
		}
		trace("crash");
		disk_crash();
		check_file(d, file_get(name));
		if (synced)
			probe("crash after a sync");
		state_hash(d.cur.size() + (uint64_t) ops * 31 + life);
	}
}

SCENARIO(F02, lock, 1)
{
	swarm({F_MSYNC_ERR}, 40);
	size_t pages = range(1, 7);
	size_t len = PG * pages - (choose(2) ? choose(PG - 1) : 0);
	struct sc_mmap m;
	CHECK("F02:map", sc_mmap_init(&m, "/data/locked", O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 0, len) == 0,
	      "cannot map");
	std::vector<bool> want(pages, false);
	int ops = (int) range(1, 10);
	for (int i = 0; i < ops; i++) {
		size_t o = choose(2) ? PG * choose((uint32_t) pages) : choose((uint32_t) len);
		if (o >= len)
			o = len - 1;
		size_t n = choose(2) ? 1 + choose((uint32_t) (len - o)) : 1 + choose(PG);
		if (n > len - o)
			n = len - o;
		bool on = choose(2);
		uint64_t f0 = my_faults();
		int rc = on ? sc_mmap_mlock(&m, o, n) : sc_mmap_munlock(&m, o, n);
		bool hit = my_faults() != f0;
		trace("%s [%zu,%zu) = %d", on ? "mlock" : "munlock", o, o + n, rc);
		CHECK("F02:lockrc", (rc != 0) == hit && rc <= 0, "%s returned %d, %s", on ? "mlock" : "munlock", rc,
		      hit ? "the call failed" : "nothing failed");
		if (rc == 0)
			for (size_t p = o / PG; p <= (o + n - 1) / PG; p++)
				want[p] = on;
		else
			CHECK("F02:lockrc", sc_mmap_err(&m)[0], "a failed %s leaves no error text", on ? "mlock" : "munlock");
		for (size_t p = 0; p < pages; p++)
			CHECK("F02:lock", page_locked(m.ptr + p * PG) == want[p], "page %zu is %slocked", p, want[p] ? "not " : "");
	}
	uint64_t h = 0;
	for (bool b : want)
		h = h * 2 + b;
	state_hash(h * 10 + pages);
	CHECK("F02:term", sc_mmap_term(&m) == 0, "term failed");
	check_leaks();
}

// ------------------------------------------------------------------- F03
struct Item {
	int line;
	std::string section, key, value;
	bool operator==(const Item &o) const
	{
		return line == o.line && section == o.section && key == o.key && value == o.value;
	}
};
struct Doc {
	std::string text;
	std::vector<Item> items;
	int bad_line = 0;   // parse error there, items end there
	bool exact = true;  // items is the full expectation
	size_t longest = 0; // line length
};
struct Seen {
	std::vector<Item> items;
	size_t stop_at = ~(size_t) 0;
	int stop_rc = 0;
	bool stopped = false;
};
static int on_item(void *arg, int line, const char *section, const char *key, const char *value)
{
	Seen *s = (Seen *) arg;
	CHECK("F03:stop", !s->stopped, "an item was reported after the callback returned non-zero");
	s->items.push_back(Item{line, section, key, value});
	if (s->items.size() > s->stop_at) {
		s->stopped = true;
		return s->stop_rc;
	}
	return 0;
}

static std::string word(size_t lo, size_t hi)
{
	static const char a[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-./\xc3\xa9";
	std::string s;
	size_t n = range((uint32_t) lo, (uint32_t) hi);
	for (size_t i = 0; i < n; i++)
		s += a[choose(sizeof(a) - 1)];
	return s;
}
static std::string blanks(uint32_t max)
{
	std::string s;
	for (uint32_t n = choose(max + 1); n; n--)
		s += choose(3) ? ' ' : '\t';
	return s;
}
static std::string tail()
{
	switch (choose(5)) {
	case 0:
		return " ;" + word(0, 8);
	case 1:
		return " # " + word(0, 8) + " = x";
	case 2:
		return blanks(3);
	default:
		return "";
	}
}
static std::string val()
{
	static const char *sp[] = {"a=b", "a:b c", "x;y", "p#q", "[z]", "1 2  3", "=", ":", "a\t;b", "c\t# d", "\"quoted # not\""};
	switch (choose(4)) {
	case 0:
		return "";
	case 1:
		return choose(8) ? sp[choose(10)] : "v";
	default:
		return word(1, 20);
	}
}

static Doc make_doc()
{
	Doc d;
	std::string section, key;
	int n = (int) choose(14);
	bool crlf = choose(5) == 0;
	if (choose(6) == 0)
		d.text += "\xEF\xBB\xBF";
	for (int i = 1; i <= n && !d.bad_line; i++) {
		std::string l;
		switch (weighted({12, 4, 3, 3, 4, 2, 1})) {
		case 0: {
			std::string k = choose(12) ? word(1, 12) : word(240, 300), v = val();
			// a value must not start like a comment; without a key before it
			// even an indented line is one of its own
			l = (key.empty() && choose(4) == 0 ? " " + blanks(3) : "") + k + blanks(2) + (choose(2) ? "=" : ":") + blanks(2) + v + tail();
			key = k;
			d.items.push_back(Item{i, section, k, v});
			break;
		}
		case 1:
			section = choose(12) ? word(0, 12) : word(240, 300);
			key.clear();
			l = "[" + section + "]" + tail();
			break;
		case 2:
			l = (choose(2) ? "#" : ";") + word(0, 20) + (choose(2) ? " = [x" : "");
			break;
		case 3:
			l = blanks(4);
			if (choose(3) == 0)
				l += " " + std::string(choose(2) ? "#" : ";") + word(0, 9);
			break;
		case 4: {
			if (key.empty()) {
				l = "";
				break;
			}
			std::string v = word(1, 16);
			l = (choose(2) ? " " : "\t") + blanks(3) + v + tail();
			d.items.push_back(Item{i, section, key, v});
			break;
		}
		case 5: { // near and beyond the longest line
			static const int around[] = {1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2045, 2046, 2047, 2048, 3000};
			size_t len = (size_t) around[choose(13)];
			uint32_t kind = choose(4);
			std::string body(len, 'y');
			if (kind == 0) {
				l = "#" + body.substr(1);
			} else if (kind == 1) {
				l = "k=" + body.substr(2);
				key = "k";
				d.exact = d.exact && len <= 1000;
				d.items.push_back(Item{i, section, "k", body.substr(2)});
			} else if (kind == 2) {
				// what looks like an item lies beyond the cut
				l = "k2=" + std::string(len - 3, 'z') + "\t\tq=w [s] # c";
				key = "k2";
				d.exact = false;
				d.items.push_back(Item{i, section, "k2", std::string(len - 3, 'z')});
			} else {
				l = std::string(len, ' ') + "x=1";
				if (len <= 1000) {
					// a continuation, or an indented first key
					l = "";
				}
				d.exact = false;
			}
			break;
		}
		default: // not an item at all
			l = choose(2) ? "no separator here" : "[unclosed";
			key.clear();
			d.bad_line = i;
			// after an item an unindented line is still no value
			break;
		}
		if (l.size() > d.longest)
			d.longest = l.size();
		d.text += l;
		if (i < n || choose(2))
			d.text += crlf ? "\r\n" : "\n";
	}
	return d;
}
static std::string garbage()
{
	static const char *bits[] = {"[", "]", "=", ":", "\n", "\n", "\r\n", " ", "\t", "#", ";", "key", "v", " ;", " #", "\xEF\xBB\xBF", "\x01", "\xff", "\n\n", "[s]\n", "a=b\n"};
	std::string s;
	int n = (int) choose(40);
	for (int i = 0; i < n; i++) {
		if (choose(40) == 0)
			s += std::string(choose(2100), "x =;[ "[choose(6)]);
		else
			s += bits[choose(21)];
	}
	return s;
}

static std::string show(const std::vector<Item> &v, size_t i)
{
	if (i >= v.size())
		return "nothing";
	return "line " + std::to_string(v[i].line) + " [" + v[i].section.substr(0, 40) + "] " + v[i].key.substr(0, 40) + "=" +
	       v[i].value.substr(0, 40) + " (" + std::to_string(v[i].value.size()) + " bytes)";
}
// names far longer than usual may be cut, never changed or run together with anything else
static bool named(const std::string &got, const std::string &want)
{
	return got == want || (got.size() >= 200 && got.size() < want.size() && want.compare(0, got.size(), got) == 0);
}
static void same_doc(const std::vector<Item> &got, const std::vector<Item> &want)
{
	size_t n = got.size() > want.size() ? got.size() : want.size();
	for (size_t i = 0; i < n; i++)
		CHECK("F03:items",
		      i < got.size() && i < want.size() && got[i].line == want[i].line && got[i].value == want[i].value &&
			      named(got[i].section, want[i].section) && named(got[i].key, want[i].key),
		      "the text: item %zu is %s instead of %s", i, show(got, i).c_str(), show(want, i).c_str());
}
static void same_items(const char *cls, const std::vector<Item> &got, const std::vector<Item> &want, const char *what)
{
	size_t n = got.size() > want.size() ? got.size() : want.size();
	for (size_t i = 0; i < n; i++)
		CHECK(cls, i < got.size() && i < want.size() && got[i] == want[i], "%s: item %zu is %s instead of %s", what, i,
		      show(got, i).c_str(), show(want, i).c_str());
}

// from memory, against the generator
static Seen parse_text(const Doc &d, size_t stop_at, int stop_rc, int *rc)
{
	Seen s;
	s.stop_at = stop_at;
	s.stop_rc = stop_rc;
	char *t = (char *) harness_alloc(d.text.size() + 1);
	memcpy(t, d.text.c_str(), d.text.size() + 1);
	*rc = sc_ini_parse_string(&s, on_item, t);
	CHECK("F03:input", memcmp(t, d.text.c_str(), d.text.size() + 1) == 0, "the parser changed the text it parses");
	harness_free(t);
	return s;
}

static void check_items(const Doc &d, const Seen &s, int rc)
{
	if (s.stopped) {
		CHECK("F03:stop", rc != 0, "the callback stopped the parser, which returned 0");
		CHECK("F03:stop", rc == s.items.back().line || rc == s.stop_rc,
		      "the callback stopped at line %d with %d, the parser returned %d", s.items.back().line, s.stop_rc, rc);
	}
	if (!d.exact) {
		// lines beyond the limit are cut, not split
		for (auto &it : s.items) {
			bool found = false;
			for (auto &w : d.items)
				found |= it.line == w.line && named(it.key, w.key) && named(it.section, w.section) &&
					 w.value.compare(0, it.value.size(), it.value) == 0 &&
					 (it.value == w.value || it.value.size() + 100 > 1000);
			if (found)
				continue;
			// an indented overlong line may leave a piece
			CHECK("F03:split", it.line <= 14 && d.longest > 1000, "an item was made up at line %d", it.line);
		}
		return;
	}
	size_t stop = s.stopped ? s.items.size() : d.items.size();
	std::vector<Item> want(d.items.begin(), d.items.begin() + (long) (stop < d.items.size() ? stop : d.items.size()));
	same_doc(s.items, want);
	if (!s.stopped)
		CHECK("F03:rc", rc == d.bad_line, "the parser returned %d instead of %d", rc, d.bad_line);
}

static void ini_file(bool wild)
{
	swarm({F_READ_ERR, F_OPEN_ERR, F_SHORT_READ, F_EINTR, F_CLOSE_ERR, F_MALLOC}, 35);
	Doc d;
	if (wild)
		d.text = garbage();
	else
		d = make_doc();
	size_t stop_at = choose(4) == 0 ? choose(6) : ~(size_t) 0;
	static const int rcs[] = {1, -1, 77, -99};
	int stop_rc = rcs[choose(4)];
	int mrc = 0, frc;
	Seen mem;
	{
		NoFaults nf;
		mem = parse_text(d, stop_at, stop_rc, &mrc);
	}
	if (!wild)
		check_items(d, mem, mrc);
	bool missing = choose(12) == 0;
	const char *name = missing ? "/data/none.ini" : "/data/conf.ini";
	if (!missing)
		file_put(name, d.text);
	int times = (int) range(1, 3);
	for (int i = 0; i < times; i++) {
		Seen f;
		f.stop_at = stop_at;
		f.stop_rc = stop_rc;
		size_t fds = open_fds(), st = open_streams();
		uint64_t o0 = my_faults(F_OPEN_ERR) + my_faults(F_MALLOC), r0 = my_faults(F_READ_ERR) + my_faults(F_EINTR);
		frc = sc_ini_parse_file(&f, on_item, name);
		bool nopen = missing || my_faults(F_OPEN_ERR) + my_faults(F_MALLOC) != o0;
		bool rerr = my_faults(F_READ_ERR) + my_faults(F_EINTR) != r0;
		trace("parse file = %d, %zu items%s", frc, f.items.size(), nopen ? ", not opened" : rerr ? ", read failed" : "");
		CHECK("F03:closed", open_fds() == fds && open_streams() == st, "the file is still open");
		if (nopen) {
			CHECK("F03:open", frc == -1 && f.items.empty(), "the file cannot be opened: returned %d and %zu items", frc,
			      f.items.size());
			probe("file not opened");
			continue;
		}
		if (!rerr) {
			same_items("F03:same", f.items, mem.items, "the file");
			CHECK("F03:same", frc == mrc, "parsing the file returned %d, its text %d", frc, mrc);
			continue;
		}
		probe("read failed");
		// a prefix, and no success
		CHECK("F03:prefix", f.items.size() <= mem.items.size(), "a failing read produced %zu items, the text %zu",
		      f.items.size(), mem.items.size());
		std::vector<Item> pre(mem.items.begin(), mem.items.begin() + (long) f.items.size());
		same_items("F03:prefix", f.items, pre, "a file whose read fails");
		CHECK("F03:readerr", frc != 0, "a read failed and parsing returned 0");
		if (frc != -1)
			CHECK("F03:readerr", frc == mrc && f.items.size() == mem.items.size(),
			      "a read failed and parsing returned %d, the text %d", frc, mrc);
	}
	state_hash(d.items.size() * 1000 + (uint64_t) (frc + 500) + mem.items.size() * 77);
	check_leaks();
}
SCENARIO(F03, document, 4)
{
	ini_file(false);
}
SCENARIO(F03, garbage, 2)
{
	ini_file(true);
}
HISTORY(F03, ini)
{
	int n = (int) range(1, 3);
	for (int i = 0; i < n; i++) {
		Doc d = make_doc();
		int rc;
		Seen s = parse_text(d, choose(4) == 0 ? choose(5) : ~(size_t) 0, 9, &rc);
		check_items(d, s, rc);
	}
}
