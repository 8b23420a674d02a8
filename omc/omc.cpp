#include "omc.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <link.h>
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <memory>
#include <new>
#include <vector>
#include <unistd.h>
#include <time.h>

struct Eh { void* caught; unsigned uncaught; };
extern "C" Eh* __cxa_get_globals() noexcept;

namespace
{
	using u64 = std::uint64_t; using uptr = std::uintptr_t;
	constexpr int MAXT = 64;
	constexpr std::size_t STACK = 256 * 1024;

	[[noreturn]] void Die(const char* why) { std::fprintf(stderr, "omc: %s\n", why); std::fflush(stderr); _exit(70); }

	enum OpKind { NONE, ATOMIC_RD, ATOMIC_RW, LOCK, BARRIER, CHUNK };
	struct Op { OpKind kind = NONE; uptr obj = 0; };
	bool Dependent(const Op& a, const Op& b)
	{
		if (a.kind == BARRIER || b.kind == BARRIER) return false;
		if (a.obj != b.obj) return false;
		return !(a.kind == ATOMIC_RD && b.kind == ATOMIC_RD);
	}

	struct Clock { unsigned c[MAXT] = {}; };
	void Join(Clock& a, const Clock& b, int n) { for (int i = 0; i < n; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

	struct Thread
	{
		ucontext_t ctx; char* stack = nullptr; Clock vc; Op op; bool done = false, started = false; Eh eh{nullptr, 0};
		std::vector<char> tls; unsigned loops = 0, singles = 0, nested = 0; u64 barrier = 0;
	};
	struct Lock { int owner = -1; int depth = 0; Clock vc; bool used = false; };
	struct Work { long next, end, incr, chunk; bool init = false; Clock vc; bool guided = false; };
	struct Team
	{
		int n; void (*fn)(void*); void* data; std::vector<Thread> th; ucontext_t main; int cur = -1;
		std::map<uptr, Lock> locks; std::map<uptr, Clock> atomics; std::vector<std::unique_ptr<Work>> work; std::vector<int> singles;
		u64 barriersDone = 0; std::vector<char> mainTls; Eh mainEh{nullptr, 0};
	};
	Team* team = nullptr;          // the active team (nullptr: serial)
	bool watching = false;         // an instrumented thread of a team is running
	int nthreads = 1;              // team size for the next parallel region

	// ---- memory of finished stacks is kept
	std::vector<char*> stackPool;
	char* GetStack()
	{
		if (!stackPool.empty()) { auto s = stackPool.back(); stackPool.pop_back(); return s; }
		auto p = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) Die("no stack");
		return static_cast<char*>(p);
	}

	// ---- thread-local storage of the program itself: every thread of a team has its own copy, kept from region to region
	char* tlsAt = nullptr; std::size_t tlsSize = 0; std::vector<char> tlsInit; std::map<int, std::vector<char>> tlsOf;
	int FindTls(dl_phdr_info* i, std::size_t, void*)
	{
		for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS)
		{
			tlsAt = static_cast<char*>(i->dlpi_tls_data); tlsSize = i->dlpi_phdr[k].p_memsz; tlsInit.assign(tlsSize, 0);
			std::memcpy(tlsInit.data(), reinterpret_cast<char*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz);
		}
		return 1; // the main program comes first
	}
	struct TlsFinder { TlsFinder() { dl_iterate_phdr(FindTls, nullptr); } } tlsFinder;

	// ---- deferred frees: no address is reused while a team runs
	struct Graveyard
	{
		void** at = nullptr; std::size_t n = 0, cap = 0;
		void push_back(void* p)
		{
			if (n == cap) { cap = cap ? 2 * cap : 4096; at = static_cast<void**>(std::realloc(at, cap * sizeof *at)); if (!at) Die("no memory"); }
			at[n++] = p;
		}
	} graveyard;

	// ---- results of the exploration
	omc::Stats* stats = nullptr; std::string problem; struct Race { int a, b; bool aw, bw; void *apc, *bpc; uptr at; } race; bool raced = false;
	struct Node { u64 enabled, sleep, done; int chosen; };
	std::vector<Node> nodes; std::size_t depth = 0; bool redundant = false; u64 carrySleep = 0; bool exploring = false;

	// ---- shadow memory: per 8 bytes, the accesses seen in this region
	struct Acc { unsigned char tid, mask, write, atomic; unsigned clk; void* pc; };
	struct Cell { uptr key; unsigned gen; unsigned n; Acc a[4]; std::vector<Acc>* more; };
	std::vector<Cell> table; std::size_t tableUsed = 0; unsigned gen = 0;
	void TableReset() { if (table.empty()) table.resize(1 << 16); gen++; tableUsed = 0; }
	Cell& Find(uptr key)
	{
		for (;;)
		{
			const std::size_t m = table.size() - 1;
			for (std::size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20 & m;; h = (h + 1) & m)
			{
				auto& c = table[h];
				if (c.gen == gen) { if (c.key == key) return c; continue; }
				if (tableUsed * 2 > m) break;
				tableUsed++; c.key = key; c.gen = gen; c.n = 0; if (c.more) c.more->clear();
				return c;
			}
			std::vector<Cell> old(table.size() * 2); old.swap(table); tableUsed = 0;
			for (auto& c : old) if (c.gen == gen)
			{
				const std::size_t m2 = table.size() - 1;
				for (std::size_t h = (c.key * 0x9E3779B97F4A7C15ull) >> 20 & m2;; h = (h + 1) & m2) if (table[h].gen != gen) { table[h] = c; tableUsed++; break; }
			}
			else delete c.more;
		}
	}
	std::string Where(void* pc)
	{
		char cmd[256], b[600]; std::string r;
		std::snprintf(cmd, sizeof cmd, "addr2line -Cs -e /proc/%d/exe %p 2>/dev/null", (int)getpid(), (void*)((char*)pc - 1));
		if (FILE* f = popen(cmd, "r")) { while (std::fgets(b, sizeof b, f)) { r += b; if (!r.empty() && r.back() == '\n') r.pop_back(); } pclose(f); }
		return r.empty() ? "?" : r;
	}
	void Report(const Acc& a, int tid, bool write, void* pc)
	{
		if (!problem.empty()) return;
		problem = "data race"; raced = true; race = {a.tid, tid, (bool)a.write, write, a.pc, pc, 0};
	}
	void Touch(uptr key, unsigned mask, bool write, bool atomic, void* pc)
	{
		auto& c = Find(key); const int t = team->cur; const auto& vc = team->th[t].vc; const unsigned clk = vc.c[t];
		Acc* mine = nullptr;
		const auto look = [&](Acc& a) {
			if (a.tid == t) { if (a.write == write && a.atomic == atomic && a.mask == mask) mine = &a; return; }
			if ((a.mask & mask) && (write || a.write) && !(atomic && a.atomic) && a.clk > vc.c[a.tid]) Report(a, t, write, pc);
		};
		for (unsigned i = 0; i < c.n; i++) look(c.a[i]);
		if (c.more) for (auto& a : *c.more) look(a);
		const Acc n{(unsigned char)t, (unsigned char)mask, write, atomic, clk, pc};
		if (mine) { *mine = n; return; }
		if (c.n < 4) c.a[c.n++] = n;
		else { if (!c.more) c.more = new std::vector<Acc>; c.more->push_back(n); }
	}
	void Access(const void* p, std::size_t n, bool write, bool atomic, void* pc)
	{
		if (!watching || n == 0) return;
		const auto a = reinterpret_cast<uptr>(p);
		const auto st = reinterpret_cast<uptr>(team->th[team->cur].stack);
		if (a >= st && a < st + STACK) return;
		if (tlsAt && a >= reinterpret_cast<uptr>(tlsAt) && a < reinterpret_cast<uptr>(tlsAt) + tlsSize) return;
		if (problem.empty() == false) return;
		watching = false; // the shadow's own allocations are not of interest
		stats->accesses++;
		for (uptr k = a >> 3; k <= (a + n - 1) >> 3; k++)
		{
			const uptr lo = k << 3; unsigned mask = 0xff;
			if (a > lo) mask &= 0xff << (a - lo);
			if (a + n < lo + 8) mask &= 0xff >> (lo + 8 - a - n);
			Touch(k, mask, write, atomic, pc);
		}
		watching = true;
	}

	// ---- coroutines
	void SwapIn(int t)
	{
		auto& th = team->th[t];
		auto eh = __cxa_get_globals(); team->mainEh = *eh; *eh = th.eh;
		if (tlsSize) { std::memcpy(team->mainTls.data(), tlsAt, tlsSize); std::memcpy(tlsAt, th.tls.data(), tlsSize); }
		team->cur = t; watching = true;
		swapcontext(&team->main, &th.ctx);
		watching = false; team->cur = -1;
		eh = __cxa_get_globals(); th.eh = *eh; *eh = team->mainEh;
		if (tlsSize) { std::memcpy(th.tls.data(), tlsAt, tlsSize); std::memcpy(tlsAt, team->mainTls.data(), tlsSize); }
	}
	void Yield(Op op)
	{
		auto& th = team->th[team->cur]; th.op = op; watching = false;
		swapcontext(&th.ctx, &team->main);
		watching = true; th.op = Op();
		stats->syncs++;
	}
	void Body()
	{
		team->fn(team->data);
		watching = false; team->th[team->cur].done = true;
		swapcontext(&team->th[team->cur].ctx, &team->main);
		Die("a finished thread was resumed");
	}
	bool Enabled(int t)
	{
		auto& th = team->th[t];
		switch (th.op.kind)
		{
		case LOCK: { auto it = team->locks.find(th.op.obj); return it == team->locks.end() || it->second.owner < 0 || it->second.owner == t; }
		case BARRIER:
			for (auto& o : team->th) if (!o.done && o.op.kind != BARRIER && o.barrier <= th.barrier) return false;
			for (auto& o : team->th) if (o.done && o.barrier <= th.barrier) return false;
			return true;
		default: return true;
		}
	}
	int Choose(u64 enabled)
	{
		if ((enabled & (enabled - 1)) == 0 && !exploring) return __builtin_ctzll(enabled);
		stats->points++;
		if (!exploring || redundant) return __builtin_ctzll(enabled);
		if (depth < nodes.size())
		{
			auto& n = nodes[depth];
			if (n.enabled != enabled) { if (problem.empty()) problem = "the execution diverged while replaying a schedule"; redundant = true; return __builtin_ctzll(enabled); }
		}
		else
		{
			const u64 can = enabled & ~carrySleep;
			if (!can) { redundant = true; return __builtin_ctzll(enabled); }
			nodes.push_back({enabled, carrySleep, 0, __builtin_ctzll(can)});
			if (can & (can - 1)) stats->choices++;
		}
		auto& n = nodes[depth++];
		// what stays asleep: earlier siblings (and inherited ones) whose next operation is independent of the chosen one
		u64 s = 0; const auto asleep = (n.sleep | n.done) & ~(1ull << n.chosen);
		for (int t = 0; t < team->n; t++) if ((asleep >> t & 1) && !team->th[t].done && !Dependent(team->th[t].op, team->th[n.chosen].op)) s |= 1ull << t;
		carrySleep = s;
		return n.chosen;
	}

	void RunTeam(void (*fn)(void*), void* data, int n)
	{
		Team tm; tm.n = n; tm.fn = fn; tm.data = data; tm.th.resize(n); tm.mainTls.resize(tlsSize);
		team = &tm; stats->regions++; if ((u64)n > stats->threads) stats->threads = n;
		TableReset(); carrySleep = 0;
		for (int t = 0; t < n; t++)
		{
			auto& th = tm.th[t]; th.stack = GetStack(); std::memset(&th.vc, 0, sizeof th.vc); th.vc.c[t] = 1;
			if (tlsSize)
			{
				if (t == 0) th.tls.assign(tlsAt, tlsAt + tlsSize);
				else { auto& k = tlsOf[t]; if (k.empty()) { k = tlsInit; } th.tls = k; }
			}
			getcontext(&th.ctx); th.ctx.uc_stack.ss_sp = th.stack; th.ctx.uc_stack.ss_size = STACK; th.ctx.uc_link = nullptr;
			makecontext(&th.ctx, Body, 0);
		}
		for (int t = 0; t < n; t++) SwapIn(t); // up to the first scheduling point
		for (;;)
		{
			u64 enabled = 0; bool live = false;
			for (int t = 0; t < n; t++) if (!tm.th[t].done) { live = true; if (Enabled(t)) enabled |= 1ull << t; }
			if (!live) break;
			if (!enabled) { if (problem.empty()) problem = "deadlock: no thread of the team can continue"; std::fprintf(stderr, "%s\n", problem.c_str()); Die("deadlock"); }
			// threads at a passed barrier go on together: their order does not matter
			bool bar = false;
			for (int t = 0; t < n; t++) if (!tm.th[t].done && tm.th[t].op.kind == BARRIER && Enabled(t)) bar = true;
			if (bar)
			{
				Clock j; std::memset(&j, 0, sizeof j); std::vector<int> who;
				for (int t = 0; t < n; t++) if (!tm.th[t].done) { Join(j, tm.th[t].vc, n); who.push_back(t); }
				for (int t : who) { tm.th[t].vc = j; tm.th[t].vc.c[t]++; tm.th[t].barrier++; }
				carrySleep = 0;
				for (int t : who) SwapIn(t);
				continue;
			}
			SwapIn(Choose(enabled));
		}
		if (tlsSize)
		{
			for (int t = 1; t < n; t++) tlsOf[t] = tm.th[t].tls;
			std::memcpy(tlsAt, tm.th[0].tls.data(), tlsSize);
		}
		for (auto& th : tm.th) stackPool.push_back(th.stack);
		team = nullptr;
		const auto dead = graveyard.n; graveyard.n = 0;
		for (std::size_t k = 0; k < dead; k++) std::free(graveyard.at[k]);
	}

	bool Acquire(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
	bool Release(int mo) { return mo == 3 || mo == 4 || mo == 5; }
	void Sync(uptr obj, bool acq, bool rel)
	{
		auto& th = team->th[team->cur]; const bool w = watching; watching = false;
		auto& vc = team->atomics[obj]; // zero-initialised
		if (acq) Join(th.vc, vc, team->n);
		if (rel) { Join(vc, th.vc, team->n); th.vc.c[team->cur]++; }
		watching = w;
	}
	void AtomicPoint(const volatile void* p, std::size_t n, bool write, int mo, void* pc)
	{
		if (!watching) return;
		const auto a = reinterpret_cast<uptr>(p); const auto st = reinterpret_cast<uptr>(team->th[team->cur].stack);
		if (a >= st && a < st + STACK) return;
		Yield({write ? ATOMIC_RW : ATOMIC_RD, a});
		Access(const_cast<const void*>(p), n, write, true, pc);
		Sync(a, Acquire(mo), write && Release(mo));
	}
	void LockOn(uptr obj, bool nest = false)
	{
		if (!team || !watching) return;
		{
			const int me = team->cur; auto it = team->locks.find(obj);
			if (nest && it != team->locks.end() && it->second.owner == me) { it->second.depth++; return; }
		}
		Yield({LOCK, obj});
		watching = false;
		auto& l = team->locks[obj];
		if (l.owner == team->cur) { if (problem.empty()) problem = "a thread takes a lock it already holds"; std::fprintf(stderr, "%s\n", problem.c_str()); Die("self deadlock"); }
		l.owner = team->cur; l.depth = 1;
		if (l.used) Join(team->th[team->cur].vc, l.vc, team->n);
		watching = true;
	}
	void LockOff(uptr obj)
	{
		if (!team || !watching) return;
		watching = false;
		auto& l = team->locks[obj]; auto& th = team->th[team->cur];
		if (--l.depth <= 0) { l.owner = -1; l.depth = 0; l.vc = th.vc; l.used = true; th.vc.c[team->cur]++; }
		watching = true;
	}
	bool LockTry(uptr obj)
	{
		if (!team || !watching) return true;
		Yield({ATOMIC_RW, obj});
		auto it = team->locks.find(obj);
		if (it != team->locks.end() && it->second.owner >= 0) return false;
		watching = false;
		auto& l = team->locks[obj]; l.owner = team->cur; l.depth = 1; if (l.used) Join(team->th[team->cur].vc, l.vc, team->n);
		watching = true; return true;
	}
	bool InTeam() { return team && watching && !team->th[team->cur].nested; }
	Work& NextWork(long s, long e, long i, long c)
	{
		auto& th = team->th[team->cur]; watching = false;
		while (team->work.size() <= th.loops) team->work.push_back(std::make_unique<Work>());
		auto& w = *team->work[th.loops];
		if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c < 1 ? 1 : c; std::memset(&w.vc, 0, sizeof w.vc); }
		watching = true; return w;
	}
	bool Take(Work& w, long* s, long* e)
	{
		Yield({CHUNK, reinterpret_cast<uptr>(&w)});
		if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
		*s = w.next; long q = w.next + w.chunk * w.incr;
		if (w.incr > 0 ? q > w.end : q < w.end) q = w.end;
		*e = w.next = q; return true;
	}
	struct Serial { long next, end; bool on; } serial{0, 0, false};
	bool LoopStart(long s, long e, long i, long c, long* is, long* ie)
	{
		if (!InTeam()) { if (i > 0 ? s >= e : s <= e) return false; *is = s; *ie = e; return true; }
		return Take(NextWork(s, e, i, c), is, ie);
	}
	bool LoopNext(long* is, long* ie)
	{
		if (!InTeam()) return false;
		return Take(*team->work[team->th[team->cur].loops], is, ie);
	}
	void LoopEnd() { if (InTeam()) team->th[team->cur].loops++; }
	void Barrier() { if (InTeam()) Yield({BARRIER, 0}); }
}

namespace omc
{
	std::string Explore(int threads, std::uint64_t limit, const std::function<bool()>& run, Stats& st)
	{
		if (threads > MAXT) Die("too many threads");
		stats = &st; problem.clear(); nodes.clear(); tlsOf.clear(); nthreads = threads; exploring = true;
		for (u64 k = 0;; k++)
		{
			if (k >= limit) { st.complete = false; break; }
			depth = 0; redundant = false; carrySleep = 0;
			const bool go = run();
			if (redundant) st.redundant++; else st.executions++;
			if (!problem.empty() || !go) break;
			while (!nodes.empty())
			{
				auto& n = nodes.back(); n.done |= 1ull << n.chosen;
				const u64 can = n.enabled & ~n.sleep & ~n.done;
				if (can) { n.chosen = __builtin_ctzll(can); break; }
				nodes.pop_back();
			}
			if (nodes.empty()) break;
		}
		exploring = false; nthreads = 1;
		if (raced)
		{
			problem = "data race: thread " + std::to_string(race.a) + (race.aw ? " writes" : " reads") + " [" + Where(race.apc) + "] and thread " + std::to_string(race.b) +
				(race.bw ? " writes" : " reads") + " [" + Where(race.bpc) + "] the same memory with nothing that orders them";
			raced = false;
		}
		return problem;
	}
}

// ---------------------------------------------------------------- OpenMP
extern "C"
{
	void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
	{
		if (team) { const int me = team->cur; team->th[me].nested++; fn(data); team->th[me].nested--; return; }
		const int k = n ? (int)n : nthreads;
		if (!stats || !exploring || k <= 1) { fn(data); return; }
		if (k > MAXT) Die("too many threads");
		RunTeam(fn, data, k);
	}
	struct LoopArg { void (*fn)(void*); void* data; long s, e, i, c; };
	// combined constructs: the first chunk is asked for with GOMP_loop_*_next only
	static LoopArg combined;
	static void CombinedBody(void*) { auto a = combined; if (InTeam()) NextWork(a.s, a.e, a.i, a.c); a.fn(a.data); }
	static void ParallelLoop(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c)
	{
		combined = {fn, data, s, e, i, c}; serial = {s, e, true};
		GOMP_parallel(CombinedBody, nullptr, n, 0);
	}
#define PL(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ParallelLoop(fn, d, n, s, e, i, c); }
	PL(static) PL(dynamic) PL(guided) PL(nonmonotonic_dynamic) PL(nonmonotonic_guided)
#define PLR(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ParallelLoop(fn, d, n, s, e, i, 1); }
	PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)
	static bool Next(long* s, long* e)
	{
		if (InTeam()) return LoopNext(s, e);
		if (serial.on && serial.next != serial.end) { *s = serial.next; *e = serial.end; serial.on = false; return true; }
		return false;
	}
#define LP(NAME) bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { serial.on = false; return LoopStart(s, e, i, c, is, ie); } bool GOMP_loop_##NAME##_next(long* is, long* ie) { return Next(is, ie); }
	LP(static) LP(dynamic) LP(guided) LP(nonmonotonic_dynamic) LP(nonmonotonic_guided)
#define LPR(NAME) bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { serial.on = false; return LoopStart(s, e, i, 1, is, ie); } bool GOMP_loop_##NAME##_next(long* is, long* ie) { return Next(is, ie); }
	LPR(runtime) LPR(nonmonotonic_runtime) LPR(maybe_nonmonotonic_runtime)
	using ull = unsigned long long;
#define LPU(NAME) bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { serial.on = false; (void)up; return LoopStart((long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie); } bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return Next((long*)is, (long*)ie); }
	LPU(static) LPU(dynamic) LPU(guided) LPU(nonmonotonic_dynamic) LPU(nonmonotonic_guided)
#define LPUR(NAME) bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { serial.on = false; (void)up; return LoopStart((long)s, (long)e, (long)i, 1, (long*)is, (long*)ie); } bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return Next((long*)is, (long*)ie); }
	LPUR(runtime) LPUR(nonmonotonic_runtime) LPUR(maybe_nonmonotonic_runtime)
	void GOMP_loop_end() { LoopEnd(); Barrier(); }
	void GOMP_loop_end_nowait() { LoopEnd(); }
	void GOMP_barrier() { Barrier(); }
	static char criticalDefault, atomicDefault;
	void GOMP_critical_start() { LockOn((uptr)&criticalDefault); }
	void GOMP_critical_end() { LockOff((uptr)&criticalDefault); }
	void GOMP_critical_name_start(void** p) { LockOn((uptr)p); }
	void GOMP_critical_name_end(void** p) { LockOff((uptr)p); }
	void GOMP_atomic_start() { LockOn((uptr)&atomicDefault); }
	void GOMP_atomic_end() { LockOff((uptr)&atomicDefault); }
	bool GOMP_single_start()
	{
		if (!InTeam()) return true;
		Yield({CHUNK, (uptr)&team->singles});
		auto& th = team->th[team->cur]; watching = false;
		if (team->singles.size() <= th.singles) team->singles.resize(th.singles + 1, 0);
		const bool first = !team->singles[th.singles]; team->singles[th.singles++] = 1; watching = true; return first;
	}
	unsigned GOMP_sections_start(unsigned n) { long s, e; return LoopStart(1, (long)n + 1, 1, 1, &s, &e) ? (unsigned)s : 0; }
	unsigned GOMP_sections_next() { long s, e; return LoopNext(&s, &e) ? (unsigned)s : 0; }
	void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { ParallelLoop(fn, d, n, 1, (long)c + 1, 1, 1); }
	void GOMP_sections_end() { LoopEnd(); Barrier(); }
	void GOMP_sections_end_nowait() { LoopEnd(); }
	void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
	{
		if (!cpy) { fn(data); return; }
		std::vector<char> b((std::size_t)(size + align)); char* p = b.data(); if (align > 1) p += (align - ((uptr)p & (uptr)(align - 1))) & (uptr)(align - 1);
		cpy(p, data); fn(p);
	}
	void GOMP_taskwait() {}
	void GOMP_taskyield() {}
	void GOMP_taskgroup_start() {}
	void GOMP_taskgroup_end() {}

	int omp_get_thread_num() { return InTeam() ? team->cur : 0; }
	int omp_get_num_threads() { return InTeam() ? team->n : 1; }
	int omp_get_max_threads() { return team ? 1 : nthreads; }
	void omp_set_num_threads(int) {}
	int omp_get_num_procs() { return 8; }
	int omp_in_parallel() { return team != nullptr; }
	int omp_get_level() { return team ? 1 : 0; }
	int omp_get_active_level() { return team ? 1 : 0; }
	int omp_get_thread_limit() { return MAXT; }
	int omp_get_dynamic() { return 0; }
	void omp_set_dynamic(int) {}
	int omp_get_nested() { return 0; }
	void omp_set_nested(int) {}
	int omp_get_max_active_levels() { return 1; }
	void omp_set_max_active_levels(int) {}
	double omp_get_wtime() { return 0; }
	double omp_get_wtick() { return 1e-9; }
	void omp_init_lock(void*) {}
	void omp_destroy_lock(void*) {}
	void omp_set_lock(void* p) { LockOn((uptr)p); }
	void omp_unset_lock(void* p) { LockOff((uptr)p); }
	int omp_test_lock(void* p) { return LockTry((uptr)p); }
	void omp_init_nest_lock(void*) {}
	void omp_destroy_nest_lock(void*) {}
	void omp_set_nest_lock(void* p) { LockOn((uptr)p, true); }
	void omp_unset_nest_lock(void* p) { LockOff((uptr)p); }

	// mutexes and guards of function-local statics
	int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
	int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (team && watching) { LockOn((uptr)m); return 0; } return __real_pthread_mutex_lock(m); }
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (team && watching) { LockOff((uptr)m); return 0; } return __real_pthread_mutex_unlock(m); }
	int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (team && watching) return LockTry((uptr)m) ? 0 : EBUSY; return __real_pthread_mutex_trylock(m); }
	int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*); void __real___cxa_guard_abort(u64*);
	int __wrap___cxa_guard_acquire(u64* g)
	{
		if (!team || !watching) return __real___cxa_guard_acquire(g);
		LockOn((uptr)g);
		if (*(char*)g) { LockOff((uptr)g); return 0; }
		return 1;
	}
	void __wrap___cxa_guard_release(u64* g) { if (!team || !watching) { __real___cxa_guard_release(g); return; } *(char*)g = 1; Sync((uptr)g, true, true); LockOff((uptr)g); }
	void __wrap___cxa_guard_abort(u64* g) { if (!team || !watching) { __real___cxa_guard_abort(g); return; } LockOff((uptr)g); }

	// ---------------------------------------------------------------- memory accesses
#define PC __builtin_return_address(0)
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void* p) { Access(p, N, false, false, PC); } void __tsan_write##N(void* p) { Access(p, N, true, false, PC); } \
	void __tsan_unaligned_read##N(void* p) { Access(p, N, false, false, PC); } void __tsan_unaligned_write##N(void* p) { Access(p, N, true, false, PC); } \
	void __tsan_volatile_read##N(void* p) { Access(p, N, false, false, PC); } void __tsan_volatile_write##N(void* p) { Access(p, N, true, false, PC); } \
	void __tsan_unaligned_volatile_read##N(void* p) { Access(p, N, false, false, PC); } void __tsan_unaligned_volatile_write##N(void* p) { Access(p, N, true, false, PC); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* p, std::size_t n) { Access(p, n, false, false, PC); }
	void __tsan_write_range(void* p, std::size_t n) { Access(p, n, true, false, PC); }
	void __tsan_vptr_update(void** p, void* v) { if (*p != v) Access(p, 8, true, false, PC); }
	void __tsan_vptr_read(void** p) { Access(p, 8, false, false, PC); }
	void __tsan_atomic_thread_fence(int) {}
	void __tsan_atomic_signal_fence(int) {}
#define AT(BITS, T) \
	T __tsan_atomic##BITS##_load(const volatile T* p, int mo) { AtomicPoint(p, sizeof(T), false, mo, PC); return *p; } \
	void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) { AtomicPoint(p, sizeof(T), true, mo, PC); *p = v; } \
	T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; *p = v; return o; } \
	T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; *p = o + v; return o; } \
	T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; *p = o ^ v; return o; } \
	T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; *p = ~(o & v); return o; } \
	int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
	int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
	T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T c, T v, int mo, int) { AtomicPoint(p, sizeof(T), true, mo, PC); T o = *p; if (o == c) *p = v; return o; }
	AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)

	void* __real_memcpy(void*, const void*, std::size_t); void* __real_memmove(void*, const void*, std::size_t); void* __real_memset(void*, int, std::size_t);
	void* __wrap_memcpy(void* d, const void* s, std::size_t n) { Access(s, n, false, false, PC); Access(d, n, true, false, PC); return __real_memcpy(d, s, n); }
	void* __wrap_memmove(void* d, const void* s, std::size_t n) { Access(s, n, false, false, PC); Access(d, n, true, false, PC); return __real_memmove(d, s, n); }
	void* __wrap_memset(void* d, int c, std::size_t n) { Access(d, n, true, false, PC); return __real_memset(d, c, n); }
	// also for the C++ library's own frees (exception objects)
	void __libc_free(void*);
	void free(void* p) { if (team && p) graveyard.push_back(p); else __libc_free(p); }
}
// ---- allocation
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
static void Bury(void* p)
{
	if (!p) return;
	if (team) graveyard.push_back(p); else std::free(p);
}
void operator delete(void* p) noexcept { Bury(p); }
void operator delete[](void* p) noexcept { Bury(p); }
void operator delete(void* p, std::size_t) noexcept { Bury(p); }
void operator delete[](void* p, std::size_t) noexcept { Bury(p); }
