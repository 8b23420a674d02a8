// Memory explorer: what a run does with memory (--prop C23: it is released and does not grow) and whether memory contents,
// earlier runs or other simulations in the process can be seen in the results (--prop C24).
#include "prog.hpp"
#include <sys/wait.h>

// every block that is handed out is filled with the current pattern, and counted until it is returned
static int fill = -1; static long blocks = 0, bytes = 0;
#ifndef MC_VALGRIND
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*); size_t malloc_usable_size(void*); }
static void* Handed(void* p) { if (p) { blocks++; bytes += (long)malloc_usable_size(p); } return p; }
static void* Filled(void* p, size_t n) { if (p && fill >= 0) memset(p, fill, n); return Handed(p); }
extern "C" void* malloc(size_t n) { return Filled(__libc_malloc(n), n); }
extern "C" void* calloc(size_t a, size_t b) { return Handed(__libc_calloc(a, b)); }
extern "C" void free(void* p) { if (!p) return; blocks--; const auto n = malloc_usable_size(p); bytes -= (long)n; if (fill >= 0) memset(p, fill ^ 0x55, n); __libc_free(p); }
extern "C" void* realloc(void* p, size_t n)
{
	if (!p) return malloc(n); if (!n) { free(p); return nullptr; }
	void* q = malloc(n); if (!q) return nullptr; memcpy(q, p, std::min(n, malloc_usable_size(p))); free(p); return q;
}
extern "C" void* memalign(size_t a, size_t n) { return Filled(__libc_memalign(a, n), n); }
extern "C" void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
#endif
static __attribute__((noinline)) void FillStack() { if (fill < 0) return; unsigned char a[1 << 16]; memset(a, fill, sizeof a); asm volatile("" :: "r"(a) : "memory"); }

// ------------------------------------------------------------------------------------------------ what can be seen of a run
using Trace = std::vector<uint64_t>;
static void See(Trace& t, double v) { H::Defined(&v, sizeof v); uint64_t u; memcpy(&u, &v, 8); if (v == 0) u = 0; if (v != v) u = 0x7ff8; t.push_back(u); }
static void See(Trace& t, const Sim& s, int ok)
{
	t.push_back((uint64_t)ok); See(t, s.T()); See(t, s.Dt());
	for (auto& p : s.Get()) { t.push_back((uint64_t)p.type); for (auto v : p.x) See(t, v); for (auto v : p.u) See(t, v); See(t, p.p); See(t, p.n); }
}
// operations on one simulation: construct, add, (automatic) step, destroy
struct Machine
{
	const Scenario& sc; std::unique_ptr<Sim> s; Trace t;
	void Op(char op)
	{
		FillStack();
		const std::size_t half = sc.ps.size() / 2;
		switch (op)
		{
		case 'c': s.reset(new Sim(sc.env)); break;
		case 'a': s->Add(sc.ps); break;
		case '1': s->Add(std::vector<P>(sc.ps.begin(), sc.ps.begin() + (std::ptrdiff_t)half)); break;
		case '2': s->Add(std::vector<P>(sc.ps.begin() + (std::ptrdiff_t)half, sc.ps.end())); break;
		case 's': { const bool ok = s->Step(sc.dt); See(t, *s, ok ? 0 : s->err); break; }
		case 'n': { const bool ok = s->Step(); See(t, *s, ok ? 0 : s->err); break; }
		case 'd': s.reset(); break;
		}
	}
};
static Trace RunOps(const Scenario& sc, const std::string& ops) { Machine m{sc}; for (char o : ops) m.Op(o); return m.t; }
// what f gives in a process in which nothing has run before (a child made before this one ran anything)
template<typename F> static std::string Pristine(F f)
{
	int fd[2]; if (pipe(fd)) exit(3); fflush(nullptr);
	const pid_t pid = fork(); if (pid < 0) exit(3);
	if (!pid) { close(fd[0]); const std::string r = f(); for (std::size_t at = 0; at < r.size();) { const auto n = write(fd[1], r.data() + at, r.size() - at); if (n <= 0) _exit(1); at += (std::size_t)n; } _exit(0); }
	close(fd[1]); std::string r; char b[1 << 16]; for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) r.append(b, (std::size_t)n);
	close(fd[0]); int st; waitpid(pid, &st, 0); if (st) r = "died"; return r;
}
static Trace PristineTrace(const Scenario& sc, const std::string& ops)
{
	const auto r = Pristine([&] { const Trace t = RunOps(sc, ops); return std::string((const char*)t.data(), t.size() * 8); });
	Trace t(r.size() / 8); memcpy(t.data(), r.data(), t.size() * 8); return t;
}
static std::string Show(const Result& r) { std::string s = r.rejected ? "rejected\n" : "accepted\n"; for (auto& x : r.files) s += x.first + "\n" + x.second + "\n"; return s; }
static std::string Where(const Trace& a, const Trace& b)
{
	if (a.size() != b.size()) return H::fmt("%zu values instead of %zu", b.size(), a.size());
	for (std::size_t k = 0; k < a.size(); k++) if (a[k] != b[k]) { double x, y; memcpy(&x, &a[k], 8); memcpy(&y, &b[k], 8); return H::fmt("value %zu of %zu is %.17g instead of %.17g", k, a.size(), y, x); }
	return "";
}
static void StateOf(H::Ctx& c, const Trace& t) { H::Hash h; for (auto v : t) h.u(v); c.state(h); }

static const std::vector<std::string> HIST{"casssd", "cannsd", "c1s2nsd", "cs1n2sd", "ca", "cas", "casnsnsn"};
static void Released(H::Ctx& c, const Scenario& s, const std::string& ops)
{
	c.desc = ops + " on " + s.desc; fill = -1;
	RunOps(s, ops);   // first use of anything that is kept for the process
	const long b = blocks, y = bytes; { RunOps(s, ops); } const long b2 = blocks;
	c.transitions += 2 * ops.size(); c.interesting();
	const Trace t = RunOps(s, ops); StateOf(c, t); c.outcome(t.size());
	(void)y; c.expect(b2 == b, H::fmt("%ld blocks of memory are never released", b2 - b));
}
static void Steady(H::Ctx& c, Scenario s)
{
	// nothing moves: the memory in use after more steps is the same
	for (auto& p : s.ps) p.u = V0(); s.env.g = 1e-9; s.env.nu = 0; s.dt = 1e-9; for (auto& p : s.ps) p.p = 0;
	c.desc = "steady: " + s.desc; fill = -1; Sim m(s.env); m.Add(s.ps); long at[3] = {0, 0, 0};
	for (int k = 0; k < 12; k++) { if (!m.Step(s.dt)) return; c.transitions++; if (k % 4 == 3) at[k / 4] = bytes; }
	c.interesting(); H::Hash h; HashState(h, m.Get()); c.state(h);
	c.expect(at[1] <= at[0] || at[2] <= at[1], H::fmt("the memory in use grows with the steps: %ld, %ld, %ld bytes", at[0], at[1], at[2]));
}
static void Patterns(H::Ctx& c, const Scenario& s, const std::string& ops)
{
	c.desc = ops + " on " + s.desc; Trace first;
#ifdef MC_VALGRIND   // memcheck watches every single value instead
	const int patterns = 1; static const int pat[] = {-1};
#else
	const int patterns = 4; static const int pat[] = {0x00, 0xff, 0x7f, 0x3c};
#endif
	for (int k = 0; k < patterns; k++)
	{
		fill = pat[k]; const Trace t = RunOps(s, ops); fill = -1; c.transitions += ops.size();
		if (!k) { first = t; StateOf(c, t); H::Hash h; h.u(t.size()); h.u(t.empty() ? 0 : t[0]); c.outcome(h); if (!s.ps.empty()) c.interesting(); }
		else if (!c.expect(t == first, H::fmt("the result depends on what memory contained before (0x%02x): ", pat[k]) + Where(first, t))) return;
	}
}
static void Interleave(H::Ctx& c, const std::vector<const Scenario*>& s, const std::vector<std::string>& ops, const std::vector<Trace>& alone)
{
	c.desc = "interleaved:"; for (std::size_t k = 0; k < s.size(); k++) c.desc += " [" + ops[k] + " on " + s[k]->desc + "]";
	std::vector<int> order; for (std::size_t k = 0; k < s.size(); k++) order.insert(order.end(), ops[k].size(), (int)k);
	do
	{
		std::vector<Machine> m; m.reserve(s.size()); for (auto* q : s) m.push_back(Machine{*q}); std::vector<std::size_t> pc(s.size());
		for (int k : order) m[(std::size_t)k].Op(ops[(std::size_t)k][pc[(std::size_t)k]++]);
		c.transitions += order.size(); c.count("interleavings");
		for (std::size_t k = 0; k < s.size(); k++) if (m[k].t != alone[k]) { std::string o; for (int q : order) o += (char)('A' + q); c.fail(H::fmt("simulation %c is disturbed by another one in order %s: ", (char)('A' + k), o.c_str()) + Where(alone[k], m[k].t)); return; }
	} while (std::next_permutation(order.begin(), order.end()));
	c.interesting(); for (auto& t : alone) StateOf(c, t); H::Hash h; h.u(alone[0].size()); h.u(alone.back().size()); c.outcome(h);
}

// ------------------------------------------------------------------------------------------------ scenes
static std::vector<Scenario> Alphabet()
{
	std::vector<Scenario> r;
	// no two scenes have the same parameters: nothing that one simulation computes may be kept for another one
	int at = 0;
	for (const uint64_t k : {5ull * 5 + 1, 5ull * 5 * 5 * 5 * 2 + 5 * 5 + 6, 15624ull / 4, 15624ull / 2 + 3, 7812ull + 625, 31111ull, 52345ull})
	{
		static const double cou[] = {0.2, 0.3, 0.1, 0.15, 0.25, 0.05, 0.35}, nus[] = {0.3, 0.1, 1e-6, 0.9, 0.3, 0.02, 0.5}, ls[] = {1, 1, 0.5, 1, 2, 1, 0.1}, rs[] = {2.4, 2.1, 2.4, 3.1, 1.9, 2.6, 2.4}, ds[] = {0.008, 0.01, 0.004, 0.008, 0.003, 0.006, 0.002};
		PatchSpec p{6, 3, 5, {at % 2 ? 0.5 : 0.62, 0.95}, {1, 3}, {1}, {0, 1}, {ds[at]}, {cou[at]}, {nus[at]}, {at % 3 ? 1e-10 : 1e-8}, {ls[at]}, {rs[at]}, 3};
		auto s = p.Make(k % p.Count()); s.env.g *= 1 + 0.3 * at; s.env.rho = 1000 - 100 * at; s.env.surfaceRatio = 0.97 - 0.05 * at; s.env.c = 10 + 3 * at; s.env.maxDt = 0.01 / (1 + at); r.push_back(s); at++;
	}
	PoolSpec q{4, 1, 5, {0.8}, {3}, {1}, {0.005}, {0.1}, 2}; r.push_back(q.Make(11)); q.courant = {0.35}; q.spacing = {0.6}; q.dt = {0.007}; r.push_back(q.Make(77)); r.back().env.re = 2.9;
	Scenario none; none.desc = "no particles"; r.push_back(none);
	{ Scenario s; s.desc = "overcrowded"; for (int k = 0; k < (D == 3 ? 120 : 60); k++) { P x; x.x = V0(); x.x[0] = 1 + 0.01 * k; x.x[D - 1] = 1 + 0.003 * (k % 5); x.u = V0(); s.ps.push_back(x); } r.push_back(s); }
	{ Scenario s; s.desc = "leaving"; for (int k = 0; k < 3; k++) { P x; x.x = V0(); x.x[0] = 14.95; x.x[D - 1] = 0.5 + k; x.u = V0(); x.u[0] = k ? 3 : 30; s.ps.push_back(x); } r.push_back(s); }
	return r;
}

static std::vector<H::Family> Make(bool th)
{
	std::vector<H::Family> f; const bool c23 = prop == "C23"; const auto hist = HIST.size();
	PatchSpec p4{4, 2, 5, {0.55, 0.95}, {1, 3}, {0, 1}, {0, 1}, {0.008}, {0.2}, {0.3}, {1e-10}, {1.0}, {2.4}, 3};
#ifdef MC_VALGRIND
	const bool full = th;   // a tenth of the speed: fewer variants in the quick tier
	if (!full) { p4.spacing = {0.55}; p4.vmode = {1}; p4.pmode = {1}; }
#else
	const bool full = true;
#endif
	PatchSpec p6{6, 3, th ? 5 : 4, th ? std::vector<double>{0.62, 0.95} : std::vector<double>{0.62}, {1, 3}, {1}, {0, 1}, {0.008}, {0.2}, {0.3}, {1e-10}, {1.0}, {2.4}, 3};
	PoolSpec q4{4, 1, 5, {0.8, 1.0}, {1, 3}, {0, 1}, {0.005}, {0.1}, 2};
	if (!full) { q4.spacing = {0.8}; q4.vmode = {3}; q4.pmode = {1}; }
	const auto each = [&](const char* name, uint64_t n, auto make, bool small = false) {
		f.push_back({name, n * (small ? 2 : hist), [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto h = ch(small ? 2 : hist); const Scenario s = make(ch.v); if (c23) Released(c, s, HIST[small ? h * 2 : h]); else Patterns(c, s, HIST[small ? h * 2 : h]); }});
	};
	each("patch4", p4.Count(), [=](uint64_t i) { return p4.Make(i); }, !full);
	if (full) each("patch6", p6.Count(), [=](uint64_t i) { return p6.Make(i); }, true);
	each("pool4", q4.Count(), [=](uint64_t i) { return q4.Make(i); }, !full);
	static const auto al = Alphabet(); const auto na = al.size();
	each("alphabet", na, [=](uint64_t i) { return al[i]; });
	if (c23)
	{
		f.push_back({"steady", p6.Count(), [=](uint64_t i, H::Ctx& c) { Steady(c, p6.Make(i)); }});
		f.push_back({"steady-pool", q4.Count(), [=](uint64_t i, H::Ctx& c) { Steady(c, q4.Make(i)); }});
		return f;
	}
	static const std::vector<std::string> two{"casnd", "c1s2nd", "cas"}, three{"cas", "ca", "can"}, deep{"cas", "cas", "can"};
	static std::map<std::string, Trace> alone; static std::vector<std::string> programs;
	const auto key = [](uint64_t k, const std::string& ops) { return std::to_string(k) + ops; };
	const auto doc = [](const Scenario& s, int steps) { return MakeDoc(s.env, 0, 0.03, 0.01, steps, Csv(s.ps)).Xml(); };
#ifndef MC_VALGRIND
	if (alone.empty()) for (uint64_t k = 0; k < na; k++)
	{
		for (auto* o : {&two, &three}) for (auto& ops : *o) alone[key(k, ops)] = PristineTrace(al[k], ops);
		for (int steps = 1; k + 1 < na && steps <= 2; steps++) programs.push_back(Pristine([&] { return Show(Run(doc(al[k], steps))); }));
	}
#endif
#ifdef MC_VALGRIND
	f.push_back({"program", (na - 1) * 2, [=](uint64_t i, H::Ctx& c) {
		const auto r = Run(doc(al[i / 2], 1 + (int)(i % 2))); c.desc = "program: " + al[i / 2].desc; c.interesting(); c.transitions++; H::Hash h; for (auto& x : r.files) h.s(x.second); c.state(h); c.outcome(r.files.size());
	}});
	return f;
#endif
	f.push_back({"two", na * na * 9, [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto a = ch(na), b = ch(na); const auto x = ch(3), y = ch(3); Interleave(c, {&al[a], &al[b]}, {two[x], two[y]}, {alone[key(a, two[x])], alone[key(b, two[y])]}); }});
	f.push_back({"three", na * na * (th ? na : 3), [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto a = ch(na), b = ch(na), d = th ? ch(na) : na - 1 - 2 * ch(3); const auto& o = th ? deep : three; Interleave(c, {&al[a], &al[b], &al[d]}, o, {alone[key(a, o[0])], alone[key(b, o[1])], alone[key(d, o[2])]}); }});
	// the program: other memory contents, and other runs in between
	f.push_back({"program", (na - 1) * (na - 1) * 2, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto a = ch(na - 1), b = ch(na - 1); const int steps = 1 + (int)ch(2);
		c.desc = "program: " + al[a].desc + " after " + al[b].desc;
		fill = 0; FillStack(); const auto one = Run(doc(al[a], steps)); fill = 0xff; FillStack(); Run(doc(al[b], steps)); FillStack(); const auto two = Run(doc(al[a], steps)); fill = 0x7f; FillStack(); const auto three = Run(doc(al[a], steps)); fill = -1;
		c.transitions += 4; c.interesting(); H::Hash h; for (auto& x : one.files) h.s(x.second); c.state(h); c.outcome(one.files.size());
		const auto& want = programs[a * 2 + (std::size_t)steps - 1];
		for (auto* o : {&one, &two, &three}) if (!c.expect(Show(*o) == want, "the same input does not always give the same outputs as in a fresh process")) return;
	}});
	return f;
}
int main(int argc, char** argv)
{
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
	return H::Main(argc, argv, Make);
}
