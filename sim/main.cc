// Search, replay, shrinking and reporting.
#include "internal.h"
#include <algorithm>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>

namespace sim {
static std::map<std::string, std::set<std::string>> &acc()
{
	static std::map<std::string, std::set<std::string>> m;
	return m;
}
void accept(const char *prop, std::initializer_list<const char *> c)
{
	for (auto x : c)
		acc()[prop].insert(x);
}
static bool accepted(const std::string &prop, const std::string &cls)
{
	if (cls.compare(0, prop.size(), prop) == 0)
		return true;
	for (auto &p : acc()[prop])
		if (cls.compare(0, p.size(), p) == 0)
			return true;
	return false;
}
} // namespace sim
using namespace sim;

static double mono()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double) ts.tv_sec + (double) ts.tv_nsec / 1e9;
}

static uint64_t splitmix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

static std::vector<const Scenario *> pool;
static uint32_t pool_w;

// R01 runs every scenario there is, its own more often.
static uint32_t share(const std::string &prop, const Scenario &s)
{
	return prop == "R01" && prop != s.prop ? 1 : s.weight;
}

static void make_pool(const std::string &prop, const std::string &only)
{
	auto &all = scenarios();
	std::sort(all.begin(), all.end(),
		  [](const Scenario &a, const Scenario &b) {
			  std::string x = std::string(a.prop) + a.name;
			  std::string y = std::string(b.prop) + b.name;
			  return x < y;
		  });
	for (auto &s : all) {
		if (prop != "R01" && prop != s.prop)
			continue;
		if (!only.empty() && only != s.name)
			continue;
		pool.push_back(&s);
		pool_w += share(prop, s);
	}
	if (pool.empty()) {
		fprintf(stderr, "no scenario for %s\n", prop.c_str());
		exit(3);
	}
}
static const Scenario *pick(uint64_t seed, const std::string &prop)
{
	uint32_t v = (uint32_t) (splitmix(seed ^ 0x5ce4a210) % pool_w);
	for (auto s : pool) {
		uint32_t w = share(prop, *s);
		if (v < w)
			return s;
		v -= w;
	}
	return pool[0];
}
static const Scenario *by_name(const std::string &p, const std::string &n)
{
	for (auto &s : scenarios())
		if (p == s.prop && n == s.name)
			return &s;
	return nullptr;
}

static std::string esc(const std::string &s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += (char) c;
		} else if (c < 32 || c > 126) {
			char t[8];
			snprintf(t, sizeof(t), "\\u%04x", c);
			o += t;
		} else {
			o += (char) c;
		}
	}
	return o;
}

struct Case {
	std::string prop, sprop, scen, cls, msg;
	uint64_t seed = 0, index = 0;
	uint64_t hash = 0;
	std::vector<uint32_t> tape;
};

static void save(const Case &c, const std::string &path)
{
	FILE *f = fopen(path.c_str(), "w");
	if (!f)
		exit(3);
	fprintf(f, "property %s\nscenario %s %s\nseed %" PRIu64 "\nindex %" PRIu64
		   "\nclass %s\nhash %016" PRIx64 "\nmessage %s\ntape %zu\n",
		c.prop.c_str(), c.sprop.c_str(), c.scen.c_str(), c.seed, c.index,
		c.cls.c_str(), c.hash, esc(c.msg).c_str(), c.tape.size());
	for (size_t i = 0; i < c.tape.size(); i++)
		fprintf(f, "%u%c", c.tape[i], i % 20 == 19 ? '\n' : ' ');
	fputc('\n', f);
	fclose(f);
}
static Case load(const std::string &path)
{
	Case c;
	std::ifstream in(path);
	std::string line;
	while (std::getline(in, line)) {
		std::istringstream l(line);
		std::string kw;
		l >> kw;
		if (kw == "property")
			l >> c.prop;
		else if (kw == "scenario")
			l >> c.sprop >> c.scen;
		else if (kw == "seed")
			l >> c.seed;
		else if (kw == "index")
			l >> c.index;
		else if (kw == "class")
			l >> c.cls;
		else if (kw == "hash") {
			std::string h;
			l >> h;
			c.hash = strtoull(h.c_str(), nullptr, 16);
		} else if (kw == "message") {
			std::getline(l, c.msg);
		} else if (kw == "tape") {
			size_t n;
			l >> n;
			c.tape.resize(n);
			for (auto &v : c.tape)
				in >> v;
		}
	}
	return c;
}

static void account(const Scenario *s, const Result &r)
{
	tot.runs++;
	tot.abandoned += r.abandoned;
	tot.steps += r.steps;
	tot.switches += r.switches;
	tot.sim_s += (double) r.sim_ns / 1e9;
	for (int i = 0; i < F_COUNT; i++)
		tot.fired[i] += g.ffired[i];
	tot.runs_with_fault += r.faults > 0;
	std::string id = std::string(s->prop) + "/" + s->name;
	tot.scen_runs[id]++;
	uint64_t &w = tot.worst[id];
	w = std::max(w, r.worst);
	bool nontrivial = r.faults > 0 || r.switches > 2;
	if (nontrivial && tot.hashes.size() < 400000)
		tot.hashes.insert(r.hash);
	if (r.fibers > 1 && tot.scheds.size() < 400000)
		tot.scheds.insert(r.sched_hash);
}

static void dump_set(const std::string &path,
		     const std::unordered_set<uint64_t> &s)
{
	FILE *f = fopen(path.c_str(), "wb");
	for (auto v : s)
		fwrite(&v, 8, 1, f);
	fclose(f);
}

static std::vector<uint32_t> cut(std::vector<uint32_t> t)
{
	while (!t.empty() && t.back() == 0)
		t.pop_back();
	return t;
}

int main(int argc, char **argv)
{
	// fixed addresses, so that nothing depends on the loader's choices
	int pers = personality(0xffffffff);
	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE)) {
		if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) >= 0)
			execv("/proc/self/exe", argv);
	}
	std::map<std::string, std::string> a;
	std::string mode = argc > 1 ? argv[1] : "";
	for (int i = 2; i + 1 < argc; i += 2)
		a[argv[i]] = argv[i + 1];
	std::string prop = a["--prop"];
	g_trace_fp = stdout;

	if (mode == "list") {
		for (auto &s : scenarios())
			printf("%s %s\n", s.prop, s.name);
		return 0;
	}
	if (mode == "search") {
		make_pool(prop, a["--scenario"]);
		uint64_t base = strtoull(a["--seed"].c_str(), nullptr, 10);
		uint64_t w = strtoull(a["--worker"].c_str(), nullptr, 10);
		uint64_t n = strtoull(a["--workers"].c_str(), nullptr, 10);
		double limit = atof(a["--time"].c_str());
		uint64_t max = a.count("--runs")
				       ? strtoull(a["--runs"].c_str(), nullptr, 10)
				       : UINT64_MAX;
		uint64_t start = a.count("--start")
					 ? strtoull(a["--start"].c_str(),
						    nullptr, 10)
					 : 0;
		std::set<std::string> known;
		{
			std::ifstream in(a["--known"]);
			std::string l;
			while (std::getline(in, l))
				if (!l.empty())
					known.insert(l);
		}
		double t0 = mono();
		bool found = false;
		Case c;
		uint64_t known_hits = 0, ndet = 0, detbad = 0;
		uint64_t digest = 0;
		std::string known_msg;
		for (uint64_t i = w + start; i - start < max; i += n) {
			if ((tot.runs & 15) == 0 && mono() - t0 > limit)
				break;
			uint64_t seed = splitmix(splitmix(base) ^ i);
			const Scenario *s = pick(seed, prop);
			Result r = run_one(*s, nullptr, seed);
			account(s, r);
			digest = splitmix(digest ^ r.hash);
			if (!r.violated && (i - w) / n < 40) {
				// same seed again: must be the same execution
				Result r2 = run_one(*s, nullptr, seed);
				ndet++;
				if (r2.hash != r.hash || r2.violated)
					detbad++;
			}
			if (!r.violated)
				continue;
			if (!accepted(prop, r.cls)) {
				tot.foreign[r.cls + ": " + r.msg]++;
				continue;
			}
			std::string key = r.cls + ": " + r.msg;
			bool is_known = false;
			for (auto &k : known)
				if (key.find(k) != std::string::npos)
					is_known = true;
			if (is_known) {
				known_hits++;
				known_msg = key;
				continue;
			}
			found = true;
			c.prop = prop;
			c.sprop = s->prop;
			c.scen = s->name;
			c.seed = seed;
			c.index = i;
			c.cls = r.cls;
			c.msg = r.msg;
			c.hash = r.hash;
			c.tape = g.tape_out;
			break;
		}
		double wall = mono() - t0;
		std::string out = a["--out"];
		if (found)
			save(c, out + ".case");
		dump_set(out + ".runs", tot.hashes);
		dump_set(out + ".scheds", tot.scheds);
		dump_set(out + ".states", tot.states);
		FILE *f = fopen((out + ".json").c_str(), "w");
		fprintf(f,
			"{\"runs\":%" PRIu64 ",\"abandoned\":%" PRIu64
			",\"steps\":%" PRIu64 ",\"switches\":%" PRIu64
			",\"sim_s\":%.6f,\"wall_s\":%.3f,\"runs_with_fault\":%" PRIu64
			",\"known\":%" PRIu64 ",\"det_runs\":%" PRIu64
			",\"det_bad\":%" PRIu64 ",\"digest\":\"%016" PRIx64 "\",",
			tot.runs, tot.abandoned, tot.steps, tot.switches,
			tot.sim_s, wall, tot.runs_with_fault, known_hits, ndet,
			detbad, digest);
		fprintf(f, "\"known_msg\":\"%s\",", esc(known_msg).c_str());
		fprintf(f, "\"faults\":{");
		bool first = true;
		for (int i = 0; i < F_COUNT; i++)
			if (tot.fired[i]) {
				fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",",
					fault_names[i], tot.fired[i]);
				first = false;
			}
		auto dump = [&](const char *k,
				const std::map<std::string, uint64_t> &m) {
			fprintf(f, "},\"%s\":{", k);
			bool fi = true;
			for (auto &x : m) {
				fprintf(f, "%s\"%s\":%" PRIu64, fi ? "" : ",",
					esc(x.first).c_str(), x.second);
				fi = false;
			}
		};
		dump("probes", tot.probes);
		dump("scenarios", tot.scen_runs);
		dump("foreign", tot.foreign);
		dump("worst", tot.worst);
		fprintf(f, "},\"found\":%s}\n", found ? "true" : "false");
		fclose(f);
		_exit(found ? 1 : 0);
	}
	if (mode == "replay" || mode == "check") {
		// check: quiet; replay: with the execution trace
		Case c = load(a["--file"]);
		const Scenario *s = by_name(c.sprop, c.scen);
		if (!s) {
			fprintf(stderr, "unknown scenario\n");
			return 3;
		}
		g_trace = mode == "replay";
		Result r = run_one(*s, &c.tape, c.seed);
		if (r.violated && accepted(c.prop, r.cls)) {
			printf("REPRODUCED property=%s class=%s hash=%016" PRIx64
			       "\n%s\n",
			       c.prop.c_str(), r.cls.c_str(), r.hash,
			       r.msg.c_str());
			fflush(stdout);
			_exit(r.cls == c.cls && r.hash == c.hash ? 1 : 4);
		}
		printf("NOT REPRODUCED (%s %s)\n", r.cls.c_str(), r.msg.c_str());
		fflush(stdout);
		_exit(0);
	}
	if (mode == "seed") {
		// regenerate a case from its seed and index
		make_pool(prop, a["--scenario"]);
		uint64_t seed = strtoull(a["--runseed"].c_str(), nullptr, 10);
		const Scenario *s = pick(seed, prop);
		g_trace = true;
		Result r = run_one(*s, nullptr, seed);
		printf("%s/%s violated=%d abandoned=%d %s %s hash=%016" PRIx64
		       " steps=%" PRIu64 "\n",
		       s->prop, s->name, r.violated, r.abandoned, r.cls.c_str(),
		       r.msg.c_str(), r.hash, r.steps);
		fflush(stdout);
		_exit(0);
	}
	if (mode == "sample") {
		// one traced, non-trivial run of the search
		make_pool(prop, a["--scenario"]);
		uint64_t base = strtoull(a["--seed"].c_str(), nullptr, 10);
		uint64_t best = 0, bestf = 0;
		const Scenario *bs = nullptr;
		for (uint64_t i = 0; i < 60; i++) {
			uint64_t seed = splitmix(splitmix(base) ^ i);
			const Scenario *s = pick(seed, prop);
			Result r = run_one(*s, nullptr, seed);
			if (r.violated || r.steps > 60000)
				continue;
			uint64_t v = r.faults * 10 + r.switches + 1;
			if (v > 400)
				v = 400 - v / 100;
			if (v > bestf) {
				bestf = v;
				best = seed;
				bs = s;
			}
		}
		if (!bs)
			_exit(0);
		g_trace = true;
		printf("scenario %s/%s seed %" PRIu64 "\n", bs->prop, bs->name,
		       best);
		run_one(*bs, nullptr, best);
		fflush(stdout);
		_exit(0);
	}
	if (mode == "shrink") {
		Case c = load(a["--file"]);
		const Scenario *s = by_name(c.sprop, c.scen);
		double limit = atof(a["--time"].c_str());
		double t0 = mono();
		std::vector<uint32_t> best = cut(c.tape);
		uint64_t tries = 0;
		Result last;
		auto test = [&](const std::vector<uint32_t> &t) {
			tries++;
			Result r = run_one(*s, &t, c.seed);
			if (r.violated && r.cls == c.cls) {
				last = r;
				// what was really consumed is the new tape
				std::vector<uint32_t> u = cut(g.tape_out);
				if (u.size() <= t.size())
					best = u;
				else
					best = t;
				return true;
			}
			return false;
		};
		if (!test(best)) {
			fprintf(stderr, "case does not reproduce\n");
			_exit(4);
		}
		bool again = true;
		while (again && mono() - t0 < limit) {
			again = false;
			size_t before = best.size();
			uint64_t sum0 = 0;
			for (auto v : best)
				sum0 += v;
			// delete chunks
			for (size_t len = best.size() / 2; len >= 1; len /= 2) {
				for (size_t i = 0; i + len <= best.size();) {
					if (mono() - t0 > limit)
						break;
					auto t = best;
					t.erase(t.begin() + (long) i,
						t.begin() + (long) (i + len));
					if (!test(cut(t)))
						i += len;
				}
			}
			// zero chunks
			for (size_t len = best.size() / 2; len >= 1; len /= 2) {
				for (size_t i = 0; i + len <= best.size();
				     i += len) {
					if (mono() - t0 > limit)
						break;
					auto t = best;
					bool any = false;
					for (size_t j = i; j < i + len; j++) {
						any |= t[j] != 0;
						t[j] = 0;
					}
					if (any)
						test(cut(t));
				}
			}
			// smaller values
			for (size_t i = 0; i < best.size(); i++) {
				while (i < best.size() && best[i] > 0 &&
				       mono() - t0 < limit) {
					auto t = best;
					t[i] /= 2;
					if (test(t))
						continue;
					t = best;
					if (t.size() <= i || t[i] == 0)
						break;
					t[i] -= 1;
					if (!test(t))
						break;
				}
			}
			uint64_t sum1 = 0;
			for (auto v : best)
				sum1 += v;
			again = best.size() < before || sum1 < sum0;
		}
		// final state of the winner
		Result r = run_one(*s, &best, c.seed);
		if (!r.violated || r.cls != c.cls)
			_exit(4);
		c.tape = best;
		c.hash = r.hash;
		c.msg = r.msg;
		save(c, a["--out"]);
		printf("shrunk in %" PRIu64 " runs to %zu choices\n", tries,
		       best.size());
		fflush(stdout);
		_exit(0);
	}
	fprintf(stderr, "usage: search|replay|check|seed|sample|shrink|list\n");
	return 3;
}
