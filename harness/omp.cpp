// C03 / C04: the real code under the controlled OpenMP runtime (omc): every order of the synchronising operations of the
// threads is executed, and every pair of accesses that nothing orders is reported.
#include "scen.hpp"
#include "../omc/omc.hpp"
#include <omp.h>
using namespace G;
using OpenMps::Acc;
using Grid = OpenMps::Grid;

static std::string prop;
static void Add(H::Ctx& c, const omc::Stats& st)
{
	c.transitions += st.syncs;
	c.count("schedules executed", st.executions); c.count("schedules cut short (equivalent to an earlier one)", st.redundant);
	c.count("parallel regions", st.regions); c.count("accesses monitored", st.accesses); c.count("scheduling choices with an alternative", st.choices);
	if (!st.complete) c.count("cases stopped at the schedule limit");
}

// ---- C03
namespace Store
{
	struct Shape { double NL, l0; Vec min, max; };
	static Shape Sh(int k)
	{
		static const double NL[] = {1.0, 0.37}, l0[] = {1.1, 0.2};
		Shape s; s.NL = NL[k]; s.l0 = l0[k];
		for (int d = 0; d < D; d++) { s.min[d] = k ? -1.7 + d : 0; s.max[d] = s.min[d] + (k && d == 0 ? 4.9 : 1.9) * s.NL; }
		return s;
	}
	static OpenMps::Vector At(const Shape& s, int b, int salt)
	{
		// block 0: a corner of the domain; 1: its neighbour; 2: the opposite corner
		OpenMps::Vector v;
		for (int d = 0; d < D; d++)
		{
			const int last = (int)std::ceil((s.max[d] - s.min[d]) / s.NL - 1e-9) - 1;
			const int cell = b == 0 ? 0 : b == 1 ? (d == 0 ? 1 : 0) : last;
			v[d] = s.min[d] + s.NL * (cell + 0.1 + 0.07 * ((salt * 3 + d) % 11));
		}
		return v;
	}
	static std::vector<std::size_t> Iterate(const Grid& g, const OpenMps::Vector& x, std::size_t limit)
	{
		std::vector<std::size_t> r; const auto end = g.cend();
		for (auto it = g.cbegin(x); !(it == end); ++it) { r.push_back(*it); if (r.size() > limit) break; }
		std::sort(r.begin(), r.end()); return r;
	}
	struct Slot { std::size_t ok[8]; char pad[64]; };

	static void Run(int shape, int T, int K, const std::vector<int>& where, const int* prefill, bool again, std::uint64_t limit, H::Ctx& c)
	{
		const Shape s = Sh(shape); const std::size_t cap = [&] { const std::size_t m = (std::size_t)std::ceil(s.NL / s.l0 - 1e-9) + 1; std::size_t p = 1; for (int d = 0; d < D; d++) p *= m; return p; }();
		OpenMps::Vector lo, hi; for (int d = 0; d < D; d++) { lo[d] = s.min[d]; hi[d] = s.max[d]; }
		const OpenMps::Vector pos[3] = {At(s, 0, 1), At(s, 1, 2), At(s, 2, 3)};
		bool same[3][3]; // blocks that coincide / touch
		for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { bool t = true; for (int d = 0; d < D; d++) if (std::abs(std::floor((pos[a][d] - lo[d]) / s.NL) - std::floor((pos[b][d] - lo[d]) / s.NL)) > 1) t = false; same[a][b] = t; }
		omc::Stats st; std::string bad; std::set<std::string> outcomes;
		const auto res = omc::Explore(T, limit, [&]() -> bool {
			Grid g(s.NL, s.l0, lo, hi);
			std::vector<std::size_t> in[3]; std::size_t id = 100;
			const auto pre = [&](std::size_t most) {
				for (int b = 0; b < 3; b++) { const std::size_t n = prefill[b] == 0 ? 0 : prefill[b] == 1 ? 1 : cap - (std::size_t)(prefill[b] - 2); for (std::size_t k = 0; k < n && k < most; k++) { in[b].push_back(id); g.Store(pos[b], id++); } }
			};
			for (int round = 0; round < (again ? 2 : 1); round++)
			{
				for (auto& v : in) v.clear();
				g.Clear(); pre(cap);
				std::vector<Slot> slots(T); std::memset(slots.data(), 0, sizeof(Slot) * T);
				auto* sl = slots.data(); const int* w = where.data(); const auto* ps = &pos[0]; const std::size_t base = 1000 * (round + 1);
				#pragma omp parallel num_threads(T) default(none) shared(g, sl, w, ps) firstprivate(K, base, T)
				{
					const int t = omp_get_thread_num();
					for (int k = 0; k < K; k++)
					{
						// 1 stored, 2 refused as full, 3 refused as outside
						try { sl[t].ok[k] = g.Store(ps[w[t * K + k]], base + t * 10 + k) ? 1 : 3; }
						catch (const Grid::Exception&) { sl[t].ok[k] = 2; }
					}
				}
				std::size_t tried[3] = {}, full[3] = {}; std::string o;
				for (int t = 0; t < T; t++) for (int k = 0; k < K; k++)
				{
					const int b = w[t * K + k]; tried[b]++; o += (char)('0' + sl[t].ok[k]);
					if (sl[t].ok[k] == 3) { bad = "a store inside the domain was refused"; return false; }
					if (sl[t].ok[k] == 2) full[b]++; else in[b].push_back(base + t * 10 + k);
				}
				bool over = false;
				for (int b = 0; b < 3; b++)
				{
					const std::size_t had = in[b].size() - (tried[b] - full[b]), excess = had + tried[b] > cap ? had + tried[b] - cap : 0;
					if (full[b] != excess) { bad = H::fmt("a block of capacity %zu holding %zu was given %zu more: %zu stores were refused instead of %zu", cap, had, tried[b], full[b], excess); return false; }
					over = over || full[b];
				}
				// with nothing refused, iterating yields every stored particle of the touching blocks once
				if (!over) for (int b = 0; b < 3; b++)
				{
					std::vector<std::size_t> want; for (int a = 0; a < 3; a++) if (same[a][b]) want.insert(want.end(), in[a].begin(), in[a].end());
					std::sort(want.begin(), want.end());
					const auto got = Iterate(g, pos[b], 10000);
					if (got != want)
					{
						std::string x; for (auto v : got) x += H::fmt(" %zu", v); x += " } instead of {"; for (auto v : want) x += H::fmt(" %zu", v);
						bad = H::fmt("after the concurrent stores, iterating from block %d yields {", b) + x + " }"; return false;
					}
				}
				outcomes.insert(o);
			}
			return true;
		}, st);
		Add(c, st);
		if (!bad.empty()) { c.fail(bad); return; }
		if (!res.empty()) { c.fail(res); return; }
		if (st.executions > 1) c.interesting();
		H::Hash h; h.u(st.executions); for (auto& o : outcomes) h.s(o); c.outcome(h);
		H::Hash q; q.u(shape); q.u(T); for (int v : where) q.u(v); for (int b = 0; b < 3; b++) q.u(prefill[b]); c.state(q);
		c.count("distinct results of a case", outcomes.size());
	}

	static std::vector<H::Family> Make(bool th)
	{
		std::vector<H::Family> f;
		struct Cfg { int T, K; bool thorough; std::uint64_t limit; };
		const Cfg cfgs[] = {{2, 1, false, 0}, {2, 2, false, 0}, {2, 3, false, 0}, {3, 1, false, 0}, {3, 2, false, 0}, {4, 1, false, 0}, {5, 1, true, 0}, {2, 4, true, 0}, {4, 2, true, 0}, {6, 1, true, 0}, {3, 3, true, 0}};
		for (auto cf : cfgs) if (th || !cf.thorough) for (int shape = 0; shape < 2; shape++)
		{
			const int n = cf.T * cf.K; const bool big = n > 6; const int blocks = n > 4 ? (big ? 2 : 2) : 3;
			uint64_t count = 1; for (int i = 0; i < n; i++) count *= blocks;
			const int pf = big ? 3 : 6; // 0 empty, 1 one, 2 full, 3.. full minus 1..3
			f.push_back({H::fmt("store-%dx%d-s%d", cf.T, cf.K, shape), count * pf * (big ? 1 : 2), [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); std::vector<int> w(n); for (auto& v : w) { v = (int)ch(blocks); if (blocks == 2 && shape == 0 && v) v = 2 - (n & 1); }
				const int p0 = big ? (int[]){0, 3, 5}[ch(3)] : (int)ch(6); const int again = big ? 0 : (int)ch(2);
				const int prefill[3] = {p0, again ? 1 : p0, 0};
				c.desc = H::fmt("%d threads store %d particles each, blocks", cf.T, cf.K); for (int v : w) c.desc += H::fmt(" %d", v);
				c.desc += H::fmt("; filled beforehand: %d %d %d%s, shape %d", prefill[0], prefill[1], prefill[2], again ? ", twice with a clear in between" : "", shape);
				// two rounds square the number of schedules
				Run(shape, cf.T, cf.K, w, prefill, again && n <= 3, 2000000, c);
			}});
		}
		return f;
	}
}

// ---- C04
namespace Sched
{
	struct Result { std::vector<std::vector<P>> states; int err = 0; };
	static bool Simulate(const Scenario& sc, Result& r)
	{
		Sim sim(sc.env); sim.Add(sc.ps);
		sim.wall = [&](std::size_t i, double t, double) { Vec v = sim.home[i]; v[0] += 0.02 * std::sin(5 * t + (double)i) * sc.env.l0; return v; };
		for (int st = 0; st < sc.steps; st++)
		{
			const bool ok = st % 2 ? sim.Step() : sim.Step(sc.dt);
			r.states.push_back(sim.Get());
			if (!ok) { r.err = sim.err; return false; }
		}
		return true;
	}
	// a difference is no finding where rounding alone decides (thresholds, ill-conditioned or inconsistent systems)
	static bool Delicate(const Scenario& sc, const Result& a, std::size_t st)
	{
#if O_EXPL
		(void)sc; (void)a; (void)st; return false;
#else
		Sim sim(sc.env); sim.Add(sc.ps);
		sim.wall = [&](std::size_t i, double t, double) { Vec v = sim.home[i]; v[0] += 0.02 * std::sin(5 * t + (double)i) * sc.env.l0; return v; };
		for (std::size_t k = 0; k < st; k++) { if (k % 2) sim.Step(); else sim.Step(sc.dt); }
		const auto pre = sim.Get(); const double t0 = sim.T();
		if (st % 2) sim.Step(); else sim.Step(sc.dt);
		const double dt = sim.T() - t0 > 0 ? sim.T() - t0 : sc.dt;
		R::Step r(sc.env, pre);
		r.Before(t0 + dt, dt, [&](std::size_t i, double t, double q) { return sim.wall(i, t, q); });
		if (r.tie || r.tooMany) return r.tie;
		r.Solve();
		if (r.unsolvable || r.illcond || r.Condition() > 1e6) return true;
		std::vector<double> px; for (auto& p : a.states[st]) px.push_back(p.p);
		r.After(dt, &px);
		return r.tie;
#endif
	}
	static void Run(const Scenario& sc, bool all, H::Ctx& c)
	{
		c.desc = sc.desc;
		const std::size_t n = sc.ps.size(); if (!n) return;
		Result one; Simulate(sc, one);
		std::vector<int> Ts{2, 3};
		if (all) { Ts.push_back(4); Ts.push_back(7); }
		if (n > 3 && n <= 64) Ts.push_back((int)n);
		if (n == 1) Ts = {2};
		for (int T : Ts)
		{
			omc::Stats st; std::string bad; std::size_t at = 0;
			const auto res = omc::Explore(T, all ? 3000 : 300, [&]() -> bool {
				Result r; Simulate(sc, r); c.transitions += r.states.size();
				for (std::size_t k = 0; k < one.states.size() && k < r.states.size(); k++)
				{
					const auto& a = one.states[k]; const auto& b = r.states[k]; at = k;
					double us = 1e-6, ps = 1e-6, xs = sc.env.l0; for (auto& p : a) { us = std::max(us, R::len(p.u)); ps = std::max(ps, std::abs(p.p)); }
					if (k + 1 == one.states.size() && one.err) break;
					for (std::size_t i = 0; i < a.size(); i++)
					{
						bool ok = a[i].type == b[i].type && std::abs(a[i].p - b[i].p) <= 1e-6 * ps && std::abs(a[i].n - b[i].n) <= 1e-9 * (1 + a[i].n);
						for (int d = 0; d < D; d++) ok = ok && std::abs(a[i].x[d] - b[i].x[d]) <= 1e-6 * (xs + us * sc.dt) && std::abs(a[i].u[d] - b[i].u[d]) <= 1e-6 * us;
						if (!ok) { bad = H::fmt("step %zu: with %d threads particle %zu is ", k, T, i) + Show({b[i]}) + " and with one thread " + Show({a[i]}); return false; }
					}
				}
				if (r.states.size() != one.states.size() || r.err != one.err) { at = std::min(r.states.size(), one.states.size()) - 1; bad = H::fmt("with %d threads %zu steps ended with error %d, with one thread %zu steps with error %d", T, r.states.size(), r.err, one.states.size(), one.err); return false; }
				return true;
			}, st);
			Add(c, st);
			if (!res.empty()) { c.fail(H::fmt("%d threads: ", T) + res); return; }
			if (!bad.empty()) { if (Delicate(sc, one, at)) { c.count("differences where rounding decides"); return; } c.fail(bad); return; }
			if (T > 1 && st.regions) c.interesting();
		}
		H::Hash h; for (auto& s : one.states) HashState(h, s); c.state(h);
		H::Hash o; if (!one.states.empty()) for (auto& p : one.states.back()) o.u((uint64_t)std::llround(p.p * 1e3) * 4 + p.type); o.u(one.err); c.outcome(o);
	}
	static std::vector<H::Family> Make(bool th)
	{
		std::vector<H::Family> f;
		const auto patch = [&](const std::string& n, const PatchSpec& p) { f.push_back({n, p.Count(), [p, th](uint64_t i, H::Ctx& c) { Run(p.Make(i), th, c); }}); };
		const auto pool = [&](const std::string& n, const PoolSpec& p) { f.push_back({n, p.Count(), [p, th](uint64_t i, H::Ctx& c) { Run(p.Make(i), th, c); }}); };
		patch("patch5", {5, 3, th ? 5 : 4, th ? std::vector<double>{0.55, 0.8, 1.1} : std::vector<double>{0.7}, th ? std::vector<int>{1, 3, 4} : std::vector<int>{1, 3}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 2});
		patch("patch9", {9, 3, 2, {0.62, 0.8}, th ? std::vector<int>{1, 3, 4} : std::vector<int>{3}, {1}, {1}, {0.01}, {0.45}, {0.3}, {1e-10}, {1.0}, {2.4}, th ? 3 : 1});
		pool("pool3", {3, 1, 5, {0.8, 0.95}, th ? std::vector<int>{1, 3, 4} : std::vector<int>{3}, {1}, {0.005}, {0.1}, th ? 3 : 2});
		if (th) pool("pool5", {5, 1, 5, {0.85}, {1, 3}, {1}, {0.005}, {0.1}, 2});
		pool("pool6", {6, th ? 1 : 0, 5, {0.85, 1.0}, {1, 3, 4}, {0, 1}, {0.005}, {0.1}, 2});
		return f;
	}
}

int main(int argc, char** argv)
{
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
	return H::Main(argc, argv, [](bool th) { return prop == "C03" ? Store::Make(th) : Sched::Make(th); });
}
