// Bounded-exhaustive explorer: case enumeration, sharding, crash attribution, counters, replay.
// A harness defines families of cases; a case is "family/index", the index being a mixed-radix code of
// every choice made in that execution.  Every index of every family of the tier is executed.
#ifndef H_HPP
#define H_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#ifdef MC_VALGRIND   // run under memcheck: an execution that uses a value which was never written fails
#include <valgrind/memcheck.h>
#endif

namespace H
{
	// mixed radix decoder of a case index: the sequence of choices of one execution
	struct Choices
	{
		uint64_t v;
		explicit Choices(uint64_t idx) : v(idx) {}
		uint64_t operator()(uint64_t n) { const auto r = v % n; v /= n; return r; }
	};

	inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
	inline std::string fmt(const char* f, ...)
	{
		char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
	}

	struct Hash
	{
		uint64_t h = 1469598103934665603ull;
		void bytes(const void* p, size_t n) { auto c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } h ^= h >> 29; }
		void u(uint64_t x) { bytes(&x, sizeof x); }
		void d(double x) { if (x == 0) x = 0; bytes(&x, sizeof x); }
		void s(const std::string& x) { bytes(x.data(), x.size()); }
	};

	struct Ctx
	{
		bool failed = false;
		bool verbose = false;
		std::string msg;
		std::string desc;      // description of the case (set by the case)
		uint64_t evaluations = 0, transitions = 0, nontrivial = 0;
		std::map<std::string, uint64_t> counters;
		std::unordered_set<uint64_t> states, outcomes;
		std::vector<std::string> samples;
		bool nt = false;

		void state(const Hash& h) { states.insert(h.h); }
		void outcome(const Hash& h) { outcomes.insert(h.h); }
		void outcome(uint64_t h) { outcomes.insert(h); }
		void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
		void interesting() { nt = true; }
		bool fail(const std::string& m) { if (!failed) { failed = true; msg = m; } return false; }
		bool expect(bool ok, const std::string& m) { return ok ? true : fail(m); }
		bool near(double got, double want, double tol, const std::string& what)
		{
			if (std::abs(got - want) <= tol) return true; // NaN fails
			return fail(fmt("%s: got %.17g, expected %.17g (tolerance %.3g)", what.c_str(), got, want, tol));
		}
	};

	struct Family
	{
		std::string name;
		uint64_t count;
		std::function<void(uint64_t, Ctx&)> run;
	};

	inline std::string jstr(const std::string& s)
	{
		std::string o = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
			else if (c < 32) o += fmt("\\u%04x", c);
			else o += (char)c;
		}
		return o + "\"";
	}

	inline void Defined(const void* p, size_t n)
	{
#ifdef MC_VALGRIND
		(void)VALGRIND_CHECK_MEM_IS_DEFINED(p, n);   // counted as an error
#else
		(void)p; (void)n;
#endif
	}
	inline void RunCase(const Family& f, uint64_t i, Ctx& c)
	{
#ifdef MC_VALGRIND
		const auto before = VALGRIND_COUNT_ERRORS;
#endif
		try { f.run(i, c); }
		catch (const std::exception& e) { c.fail(std::string("unexpected exception: ") + e.what()); }
#ifdef MC_VALGRIND
		if (VALGRIND_COUNT_ERRORS != before) { c.failed = false; c.fail("a value that was never written is used, or memory that is not the program's (memcheck)"); }
#endif
	}

	// args: --shard i n --progress FILE --out FILE [--family NAME,NAME] | --case FAM/IDX
	inline int Main(int argc, char** argv, const std::function<std::vector<Family>(bool thorough)>& make)
	{
		uint64_t shard = 0, nshards = 1; std::string progress, out, one, only; bool thorough = false, list = false;
		for (int i = 1; i < argc; i++)
		{
			const std::string a = argv[i];
			if (a == "--shard") { shard = strtoull(argv[i + 1], 0, 10); nshards = strtoull(argv[i + 2], 0, 10); i += 2; }
			else if (a == "--progress") progress = argv[++i];
			else if (a == "--out") out = argv[++i];
			else if (a == "--case") one = argv[++i];
			else if (a == "--family") only = argv[++i];
			else if (a == "--thorough") thorough = true;
			else if (a == "--list") list = true;
		}
		auto fams = make(thorough);
		if (list) { for (auto& f : fams) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.count); return 0; }
		Ctx c;
		if (!one.empty())
		{
			const auto sl = one.rfind('/');
			const auto fam = one.substr(0, sl); const auto idx = strtoull(one.c_str() + sl + 1, 0, 10);
			for (auto& f : fams) if (f.name == fam)
			{
				c.verbose = true;
				RunCase(f, idx, c);
				printf("case %s: %s\n", one.c_str(), c.desc.c_str());
				printf("%s%s\n", c.failed ? "FAIL: " : "ok", c.msg.c_str());
				return c.failed ? 1 : 0;
			}
			fprintf(stderr, "no such case %s\n", one.c_str()); return 3;
		}
		char* prog = nullptr;
		if (!progress.empty())
		{
			const int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
			if (fd < 0 || ftruncate(fd, 4096)) return 3;
			prog = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			close(fd);
		}
		for (std::size_t b = 0, e; b < only.size(); b = e + 1)   // a family asked for that is not there would be a check of nothing
		{
			e = std::min(only.find(',', b), only.size()); bool known = false;
			for (auto& f : fams) known |= f.name == only.substr(b, e - b);
			if (!known) { fprintf(stderr, "no such family %s\n", only.substr(b, e - b).c_str()); return 4; }
		}
		std::vector<std::pair<std::string, std::string>> fails;
		std::map<std::string, uint64_t> per, live;
		bool capped = false;
		uint64_t n = 0;
		for (auto& f : fams)
		{
			if (!only.empty() && ("," + only + ",").find("," + f.name + ",") == std::string::npos) continue;
			for (uint64_t i = shard; i < f.count; i += nshards)
			{
				if (prog) snprintf(prog, 4096, "%llu %s/%llu\n", (unsigned long long)++n, f.name.c_str(), (unsigned long long)i);
				c.failed = false; c.msg.clear(); c.desc.clear(); c.nt = false;
				RunCase(f, i, c);
				c.evaluations++; per[f.name]++;
				if (c.nt) { c.nontrivial++; live[f.name]++; }
				if (c.samples.size() < 4 && (i / nshards) % 1009 == 7 && !c.desc.empty()) c.samples.push_back(f.name + "/" + std::to_string(i) + ": " + c.desc);
				if (c.failed)
				{
					fails.emplace_back(f.name + "/" + std::to_string(i), c.msg + " | case: " + c.desc);
					if (fails.size() >= 5) { capped = true; break; }
				}
			}
			if (capped) break;
			if (c.samples.empty() && !c.desc.empty()) c.samples.push_back(f.name + ": " + c.desc);
		}
		FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
		if (!o) return 3;
		fprintf(o, "{\"evaluations\":%llu,\"transitions\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"outcomes\":%llu,\"stopped_early\":%s,",
			(unsigned long long)c.evaluations, (unsigned long long)c.transitions, (unsigned long long)c.nontrivial,
			(unsigned long long)c.states.size(), (unsigned long long)c.outcomes.size(), capped ? "true" : "false");
		fprintf(o, "\"counters\":{"); bool first = true;
		for (auto& k : c.counters) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
		fprintf(o, "},\"families\":{"); first = true;
		for (auto& k : per) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
		fprintf(o, "},\"live\":{"); first = true;
		for (auto& k : per) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)live[k.first]); first = false; }
		fprintf(o, "},\"samples\":["); first = true;
		for (auto& s : c.samples) { fprintf(o, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
		fprintf(o, "],\"fails\":["); first = true;
		for (auto& s : fails) { fprintf(o, "%s{\"case\":%s,\"msg\":%s}", first ? "" : ",", jstr(s.first).c_str(), jstr(s.second).c_str()); first = false; }
		fprintf(o, "]}\n");
		if (o != stdout)
		{
			fclose(o);
			FILE* b = fopen((out + ".states").c_str(), "wb");
			if (b) { for (auto h : c.states) fwrite(&h, 8, 1, b); fclose(b); }
			b = fopen((out + ".outcomes").c_str(), "wb");
			if (b) { for (auto h : c.outcomes) fwrite(&h, 8, 1, b); fclose(b); }
		}
		return 0;
	}
}
#endif
