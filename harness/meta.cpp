// Run-level explorer: relations between runs of the real code (leaving the domain, automatic time step, symmetries,
// independence of history).  --prop selects the property.
#include "scen.hpp"
using namespace G;
using OpenMps::Acc;

static std::string prop;
using Idx = std::vector<std::size_t>;

static double MaxU(const std::vector<P>& ps) { double m = 0; for (auto& p : ps) if (p.type != DIS) m = std::max(m, R::len(p.u)); return m; }
static double NLof(const Env& e) { return e.re * e.l0 * (1 + 2 * e.courant); }

// is the outcome of this step insensitive to rounding?  (no discrete decision near its threshold, well-conditioned system)
static bool Robust(const Env& e, const std::vector<P>& pre, double t, double dt, const std::function<Vec(std::size_t, double, double)>& wall, bool ok, const std::vector<P>& post, double kappa = 1e4)
{
	R::Step r(e, pre); r.Before(t, dt, wall);
	if (r.tie || r.tooMany || r.minR < 1e-2 * e.l0) return false;
#if !O_EXPL
	r.Solve();
	if (r.unsolvable || r.illcond || r.closed || r.Condition() > kappa) return false;
	if (!ok) return false;
	std::vector<double> px; for (auto& p : post) px.push_back(p.p);
	r.After(dt, &px);
#else
	r.After(dt, nullptr);
#endif
	return !r.tie && r.minR >= 1e-2 * e.l0;
}
static bool IllConditioned(const Env& e, const std::vector<P>& pre, double t, double dt, const std::function<Vec(std::size_t, double, double)>& wall)
{
	R::Step r(e, pre); r.Before(t, dt, wall);
	if (r.tie || r.tooMany) return true;
#if !O_EXPL
	r.Solve();
	return r.unsolvable || r.illcond || r.closed || r.Condition() > 100;
#else
	return false;
#endif
}

// compares particle a[ia[k]] with b[k]
static bool Same(H::Ctx& c, const std::vector<P>& a, const Idx& ia, const std::vector<P>& b, double rel, double l0, const std::string& what, bool skipDis = true, double ps = 1e-6)
{
	double us = 1e-6, ns = 1, xs = l0;
	for (auto& p : b) if (p.type != DIS) { us = std::max(us, R::len(p.u)); ps = std::max(ps, std::abs(p.p)); ns = std::max(ns, std::abs(p.n)); xs = std::max(xs, R::len(p.x)); }
	for (std::size_t k = 0; k < ia.size(); k++)
	{
		const P &p = a[ia[k]], &q = b[k];
		if (!c.expect(p.type == q.type, H::fmt("%s: type of particle %zu: %d and %d", what.c_str(), ia[k], p.type, q.type))) return false;
		if (skipDis && p.type == DIS) continue;
		for (int d = 0; d < D; d++)
		{
			if (!c.near(p.x[d], q.x[d], rel * xs, H::fmt("%s: position[%d] of particle %zu", what.c_str(), d, ia[k]))) return false;
			if (!c.near(p.u[d], q.u[d], rel * us, H::fmt("%s: velocity[%d] of particle %zu", what.c_str(), d, ia[k]))) return false;
		}
		if (!c.near(p.p, q.p, rel * ps, H::fmt("%s: pressure of particle %zu", what.c_str(), ia[k]))) return false;
		if (!c.near(p.n, q.n, rel * ns, H::fmt("%s: density of particle %zu", what.c_str(), ia[k]))) return false;
	}
	return true;
}
static Idx All(std::size_t n) { Idx r(n); for (std::size_t i = 0; i < n; i++) r[i] = i; return r; }

// ------------------------------------------------------------------------------------------------ C05
// what a step may and must do to the types of the particles
static bool Types(H::Ctx& c, const Env& e, const std::vector<P>& pre, const std::vector<P>& post, const std::string& what)
{
	const double NL = NLof(e);
	if (!c.expect(pre.size() == post.size(), what + ": the number of particles changed")) return false;
	for (std::size_t i = 0; i < pre.size(); i++)
	{
		bool in = true, out = false;
		for (int d = 0; d < D; d++)
		{
			if (!(pre[i].x[d] >= e.min[d] && pre[i].x[d] <= e.max[d])) in = false;
			if (!(pre[i].x[d] >= e.min[d] - 1e-9 * e.l0 && pre[i].x[d] <= e.max[d] + 3.1 * NL)) out = true;
		}
		if (pre[i].type == DIS) { if (!c.expect(post[i].type == DIS, H::fmt("%s: removed particle %zu came back as type %d", what.c_str(), i, post[i].type))) return false; }
		else if (in) { if (!c.expect(post[i].type == pre[i].type, H::fmt("%s: particle %zu inside the domain changed from type %d to %d", what.c_str(), i, pre[i].type, post[i].type))) return false; }
		else if (out) { c.count("particles removed"); if (!c.expect(post[i].type == DIS, H::fmt("%s: particle %zu outside the domain was not removed", what.c_str(), i))) return false; }
		else if (!c.expect(post[i].type == pre[i].type || post[i].type == DIS, H::fmt("%s: particle %zu changed to type %d", what.c_str(), i, post[i].type))) return false;
	}
	return true;
}

// one step of sim (dt < 0: automatic) against a fresh scene holding only the particles that are still there
static bool StepAgainstRest(H::Ctx& c, Sim& sim, double dt, const std::string& what, bool& ok)
{
	const auto pre = sim.Get();
	ok = dt < 0 ? sim.Step() : sim.Step(dt); c.transitions++;
	const auto post = sim.Get();
	H::Hash h; HashState(h, post); c.state(h);
	if (!Types(c, sim.env, pre, post, what)) return false;
	Idx keep; bool removedNow = false;
	for (std::size_t i = 0; i < pre.size(); i++) if (pre[i].type != DIS) { if (post[i].type == DIS) removedNow = true; else keep.push_back(i); }
	Sim rest(sim.env); std::vector<P> kp; for (auto i : keep) kp.push_back(pre[i]);
	rest.Add(kp); for (std::size_t k = 0; k < keep.size(); k++) rest.home[k] = sim.home[keep[k]];
	// in the step that removes a particle only the evolution at the same time step is claimed
	const bool okRest = dt < 0 && !removedNow ? rest.Step() : rest.Step(sim.Dt()); c.transitions++;
	if (dt < 0 && !removedNow && !c.near(sim.Dt(), rest.Dt(), 1e-12 * rest.Dt(), what + ": automatic time step with and without the removed particles")) return false;
	if (ok != okRest)
	{
		std::function<Vec(std::size_t, double, double)> w = [&](std::size_t i, double, double) { return rest.home[i]; };
		if (IllConditioned(sim.env, kp, 0, sim.Dt(), w)) { c.count("skipped: ill-conditioned system solved in one run only"); ok = false; return true; }
		return c.fail(H::fmt("%s: the step %s with the removed particles and %s without them", what.c_str(), ok ? "succeeds" : "fails", okRest ? "succeeds" : "fails"));
	}
	if (!ok) { c.count("computing error reported"); return true; }
	if (keep.size() && keep.size() < pre.size()) c.interesting();
	H::Hash o; o.u(keep.size()); o.d(sim.Dt()); for (auto i : keep) { o.u(i); o.u((uint64_t)std::llround(post[i].p * 1e3)); } c.outcome(o);
	return Same(c, post, keep, rest.Get(), 1e-9, sim.env.l0, what + ": with and without the removed particles");
}

static void RunLeave(H::Ctx& c, Scenario sc, const std::vector<double>& dts)
{
	c.desc = sc.desc;
	if (sc.ps.empty()) return;
	Sim sim(sc.env); sim.Add(sc.ps);
	for (std::size_t k = 0; k < dts.size(); k++) { bool ok; if (!StepAgainstRest(c, sim, dts[k], H::fmt("step %zu", k), ok) || !ok) return; }
}

static std::vector<H::Family> MakeC05(bool th)
{
	std::vector<H::Family> f;
	// extra particles: disabled anywhere, or any kind clearly outside; inserted at every place of the list
	struct Extra { int type; int where; };
	std::vector<Extra> ex;
	for (int w = 0; w < 4 + 4 * D; w++) for (int t = 0; t < 4; t++) if (w >= 4 || t == DIS) ex.push_back({t, w});
	const PatchSpec base{4, 2, th ? 4 : 3, {0.62, 0.9}, th ? std::vector<int>{1, 3, 4} : std::vector<int>{1, 3}, {1}, th ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{1, 3}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	const auto place = [](const Scenario& s, int w) {
		const double NL = NLof(s.env); Vec x; Vec mid = s.ps.empty() ? V0() : s.ps[0].x;
		if (w < 4) { for (int d = 0; d < D; d++) x[d] = w == 0 ? mid[d] + 0.21 : w == 1 ? mid[d] - 0.13 * (d + 1) : w == 2 ? s.env.min[d] - 3 * NL : s.env.max[d] + 7 * NL; return x; }
		w -= 4; const int d = w % D, k = w / D; x = mid; for (auto& v : x) v += 0.17;
		x[d] = k == 0 ? s.env.min[d] - 0.37 * NL : k == 1 ? s.env.min[d] - 1e-6 : k == 2 ? s.env.max[d] + 3.15 * NL : s.env.max[d] + 1e6;
		return x;
	};
	f.push_back({"extra", base.Count() * ex.size() * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto e = ex[ch(ex.size())]; const int at = (int)ch(3);
		Scenario s = base.Make(ch.v); if (s.ps.empty()) return;
		P p; p.x = place(s, e.where); p.u = V0(); p.u[0] = 7.5; p.u[D - 1] = -4; p.p = 1234; p.n = 77; p.type = e.type;
		const std::size_t pos = at == 0 ? 0 : at == 1 ? s.ps.size() / 2 : s.ps.size();
		s.ps.insert(s.ps.begin() + (std::ptrdiff_t)pos, p);
		s.desc = H::fmt("extra type=%d where=%d at=%zu, ", e.type, e.where, pos) + s.desc;
		RunLeave(c, s, {0.01, -1, 0.006, -1});
	}});
	if (th) f.push_back({"extra2", 81 * 2 * 2 * 2 * 9 * (uint64_t)ex.size() * ex.size(), [=](uint64_t i, H::Ctx& c) {
		const PatchSpec b2{4, 2, 3, {0.62, 0.9}, {1, 3}, {1}, {1, 3}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
		H::Choices ch(i); const auto e = ex[ch(ex.size())], e2 = ex[ch(ex.size())]; const int at = (int)ch(3), at2 = (int)ch(3);
		Scenario s = b2.Make(ch.v); if (s.ps.empty()) return;
		for (int q = 0; q < 2; q++)
		{
			P p; p.x = place(s, q ? e2.where : e.where); p.u = V0(); p.u[0] = 7.5 - 3 * q; p.u[D - 1] = -4; p.p = 1234; p.n = 77; p.type = q ? e2.type : e.type;
			const int a = q ? at2 : at; const std::size_t pos = a == 0 ? 0 : a == 1 ? s.ps.size() / 2 : s.ps.size();
			s.ps.insert(s.ps.begin() + (std::ptrdiff_t)pos, p);
		}
		RunLeave(c, s, {0.01, -1, -1});
	}});
	// positions so far away that no block number can express them, and positions that are no numbers
	const PatchSpec few{4, 2, 3, {0.8}, {1, 3}, {0, 1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	static const std::vector<double> far{1e9, 4.2e9, 9.2e18, 1.9e19, 3e20, 1e100, 1.7e308, INFINITY, NAN};
	f.push_back({"far", few.Count() * far.size() * 2 * D * 4 * 2, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const double v = far[ch(far.size())] * (ch(2) ? -1 : 1); const int d = (int)ch(D), type = (int)ch(4); const bool last = ch(2);
		Scenario s = few.Make(ch.v); if (s.ps.empty()) return;
		P p; p.x = s.ps[0].x; for (auto& q : p.x) q += 0.17; p.x[d] = v; p.u = V0(); p.u[0] = 1.5; p.p = 12; p.n = 7; p.type = type;
		s.ps.insert(last ? s.ps.end() : s.ps.begin(), p);
		s.desc = H::fmt("particle of type %d at %g, ", type, v) + s.desc;
		RunLeave(c, s, {0.01, -1, 0.006});
	}});
	// heaps of removed particles, up to more than a block or the list of neighbours could hold
	const PatchSpec small{4, 2, 3, {0.8}, {1, 3}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	const uint64_t sizes = th ? 140 : 12;
	f.push_back({"heap", small.Count() * sizes * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const int m = th ? 1 + (int)ch(sizes) : ((int[]){2, 5, 9, 15, 17, 26, 30, 40, 64, 65, 127, 140})[ch(sizes)]; const int at = (int)ch(3);
		Scenario s = small.Make(ch.v); if (s.ps.empty()) return;
		std::vector<P> heap; for (int k = 0; k < m; k++) { P p; p.x = s.ps[0].x; for (int d = 0; d < D; d++) p.x[d] += 0.003 * (double)((k * (7 + d)) % 11) - 0.01; p.u = V0(); p.u[0] = k; p.p = at ? k : 0; p.n = at == 2 ? 1 : 0; p.type = DIS; heap.push_back(p); }
		s.ps.insert(at == 0 ? s.ps.begin() : at == 1 ? s.ps.begin() + 1 : s.ps.end(), heap.begin(), heap.end());
		s.desc = H::fmt("heap of %d removed particles at place %d, ", m, at) + s.desc;
		RunLeave(c, s, {0.01, -1});
	}});
	// clusters at the corners of the domain flying out: particles leave one after the other
	const PatchSpec out{th ? 6 : 5, 3, 4, {0.8, 1.2}, {1, 4}, {0, 1}, {2, 3}, {0.01}, {0.1, 0.3}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	f.push_back({"leave", out.Count() * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const int dir = (int)ch(3); Scenario s = out.Make(ch.v); if (s.ps.empty()) return;
		const bool low = s.ps[0].x[0] < 3;
		for (std::size_t k = 0; k < s.ps.size(); k++) if (s.ps[k].type == F) { for (int d = 0; d < D; d++) if (dir == 2 || d == (dir ? D - 1 : 0)) s.ps[k].u[d] += (low ? -1 : 1) * (14.0 + 6.0 * (double)(k % 3)); }
		RunLeave(c, s, low ? std::vector<double>{0.01, -1, 0.02, 0.02, -1, 0.05, -1, -1} : std::vector<double>{0.05, -1, 0.2, 0.2, -1, 0.5, -1, -1});
	}});
	// every point at the domain ends, every kind
	{
		Env e; e.l0 = 1; for (int d = 0; d < D; d++) { e.min[d] = -1.7; e.max[d] = 4.9 + 0.3 * d; }
		std::vector<Vec> pts; const double NL = NLof(e);
		std::vector<std::vector<double>> ax(D);
		for (int d = 0; d < D; d++) ax[d] = {e.min[d] - 0.5 * NL, e.min[d] - 1e-6, e.min[d], std::nextafter(e.min[d], 1e9), e.min[d] + 0.3, 1.1, e.max[d] - 0.2, std::nextafter(e.max[d], -1e9), e.max[d], e.max[d] + 3.2 * NL, e.max[d] + 50 * NL};
		for (auto a : ax[0]) for (auto b : ax[1]) { Vec v; v[0] = a; v[1] = b; if (D == 2) pts.push_back(v); else for (auto z : ax[D - 1]) { v[D - 1] = z; pts.push_back(v); } }
		const uint64_t n = pts.size();
		f.push_back({"ends", n * 4 * (D == 3 ? 1 : n), [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const auto a = pts[ch(n)]; const int t = (int)ch(4); const auto b = D == 3 ? pts[n / 2] : pts[ch(n)];
			if (R::len(R::operator-(a, b)) < 0.05) return;
			Scenario s; s.env = e; s.env.nu = 0.2; s.env.eps = 1e-10;
			P p; p.u = V0(); p.u[0] = 0.3; p.x = a; p.type = t; s.ps.push_back(p); p.u[0] = -0.2; p.x = b; p.type = F; s.ps.push_back(p);
			p.u = V0(); for (auto& v : p.x) v = 2.2; p.type = W; s.ps.push_back(p);
			s.desc = "domain ends: " + Show(s.ps);
			RunLeave(c, s, {0.004, -1});
		}});
	}
	return f;
}

// ------------------------------------------------------------------------------------------------ C12
static std::vector<H::Family> MakeC12(bool th)
{
	std::vector<H::Family> f;
	struct Par { double maxDt, courant, g, l0, c; };
	std::vector<Par> pars;
	for (double m : {0.1, 0.001}) for (double co : {0.1, 0.45}) for (double g : {9.8, 250.0}) for (double l : {1.0, 0.004}) pars.push_back({m, co, g, l, 40});
	const int N = th ? 4 : 3; uint64_t cnt = 1; const int kinds = 4 * 5 + 1; for (int k = 0; k < N; k++) cnt *= (uint64_t)kinds;
	// N particles of all kinds; four steps, automatic (0) or given as a multiple of the maximum
	const auto run = [=](int N, bool every) { return [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const Par q = pars[ch(pars.size())]; double mode[4] = {0, 0, 0.37, 0}; if (every) for (auto& m : mode) m = ((double[]){0, 0.37, 2.5, 40, 1e-6})[ch(5)];
		Env e; e.maxDt = q.maxDt; e.courant = q.courant; e.g = q.g; e.l0 = q.l0; e.c = q.c; e.eps = 1e-10; for (int d = 0; d < D; d++) { e.min[d] = -9 * e.l0; e.max[d] = 30 * e.l0; }
		std::vector<P> ps;
		for (int k = 0; k < N; k++)
		{
			const int kind = (int)ch(kinds); if (kind == 0) continue;
			P p; p.type = (kind - 1) % 4; for (int d = 0; d < D; d++) p.x[d] = e.l0 * (5.3 * k + 0.2 * d); p.u = V0();
			const double v = e.courant * e.l0 / e.maxDt;   // the speed at which the limit starts to act
			switch ((kind - 1) / 4) { case 1: p.u[0] = -0.7 * v; break; case 2: for (auto& x : p.u) x = 0.9 * v; break; case 3: p.u[D - 1] = -3.1 * v * (1 + 0.1 * k); break; case 4: for (auto& x : p.u) x = 40 * v * (1 + 0.1 * k); break; }
			ps.push_back(p);
		}
		Sim a(e), b(e); a.Add(ps); b.Add(ps);
		// walls move so that their velocities do not collapse to zero in the first step
		const auto wall = [&](const Sim& s) { return [&s](std::size_t i, double t, double) { Vec v = s.home[i]; for (int d = 0; d < D; d++) v[d] += 0.02 * s.env.l0 * std::sin(60 * t + i + d); return v; }; };
		a.wall = wall(a); b.wall = wall(b);
		c.desc = H::fmt("maxDt=%g courant=%g g=%g l0=%g, steps %g %g %g %g: ", e.maxDt, e.courant, e.g, e.l0, mode[0], mode[1], mode[2], mode[3]) + Show(ps);
		const R::Const K(e); double sum = 0;
		for (int st = 0; st < 4; st++)
		{
			const auto pre = a.Get(); double want = K.maxDt; const double mu = MaxU(pre); if (mu > 0) want = std::min(want, K.maxDx / mu);
			bool ok; const bool automatic = mode[st] == 0;
			if (automatic) ok = a.Step(); else { want = mode[st] * K.maxDt; ok = a.Step(want); }
			c.transitions++;
			if (!c.expect(a.Dt() > 0 && a.Dt() <= (automatic ? K.maxDt * (1 + 1e-12) : 1e300), H::fmt("step %d: time step %.17g, maximum %.17g", st, a.Dt(), K.maxDt))) return;
			if (!c.near(a.Dt(), want, 1e-12 * want, H::fmt("step %d: time step (fastest particle %.9g)", st, mu))) return;
			sum += a.Dt();
			if (!c.near(a.T(), sum, 1e-12 * sum, H::fmt("step %d: simulated time", st))) return;
			if (automatic && want < K.maxDt) c.interesting();
			H::Hash o; o.d(a.Dt()); c.outcome(o);
			// an automatic step is a step of that length
			const bool ok2 = b.Step(a.Dt());
			if (!c.expect(ok == ok2, H::fmt("step %d: automatic and given time steps of the same length end differently", st))) return;
			if (!ok) return;
			const auto post = a.Get(); H::Hash h; HashState(h, post); c.state(h);
			if (!Same(c, post, All(post.size()), b.Get(), 1e-12, e.l0, H::fmt("step %d: automatic and given time step of the same length", st))) return;
		}
	}; };
	f.push_back({"velocities", cnt * pars.size(), run(N, false)});
	// every sequence of automatic and given steps, also far above and below the maximum
	f.push_back({"given", (th ? 21u * 21u : 21u) * 625u * pars.size(), run(th ? 2 : 1, true)});
	// scenes that evolve under their own forces, six automatic steps
	const PatchSpec pt{5, 3, 4, {0.62, 0.95}, {1, 3, 4}, {0, 1}, {1}, {0.01}, {0.02, 0.1, 0.4}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	f.push_back({"evolve", pt.Count(), [=](uint64_t i, H::Ctx& c) {
		Scenario s = pt.Make(i); s.env.maxDt = 0.05; c.desc = s.desc;
		Sim a(s.env); a.Add(s.ps); const R::Const K(s.env); double sum = 0;
		for (int st = 0; st < 6; st++)
		{
			double want = K.maxDt; const double mu = MaxU(a.Get()); if (mu > 0) want = std::min(want, K.maxDx / mu);
			const bool ok = a.Step(); c.transitions++; sum += a.Dt();
			if (!c.near(a.Dt(), want, 1e-12 * want, H::fmt("step %d: time step (fastest particle %.9g)", st, mu))) return;
			if (!c.near(a.T(), sum, 1e-12 * sum, H::fmt("step %d: simulated time", st))) return;
			if (want < K.maxDt) c.interesting();
			H::Hash o; o.d(a.Dt()); c.outcome(o); H::Hash h; HashState(h, a.Get()); c.state(h);
			if (!ok) return;
		}
	}});
	return f;
}

// ------------------------------------------------------------------------------------------------ C13
struct Map { int flip = -1; int swapA = -1, swapB = -1; Vec shift = V0(), vel = V0(); Idx perm; };
static Vec Lin(const Map& m, Vec v) { if (m.flip >= 0) v[m.flip] = -v[m.flip]; if (m.swapA >= 0) std::swap(v[m.swapA], v[m.swapB]); return v; }
static Vec Pos(const Map& m, const Vec& x, double t) { return R::operator+(R::operator+(Lin(m, x), m.shift), R::operator*(t, m.vel)); }

static void RunMapped(H::Ctx& c, const Scenario& sc, const Map& m, const std::string& what, const std::vector<double>& dts)
{
	c.desc = what + ", " + sc.desc;
	if (sc.ps.empty()) return;
	Sim a(sc.env); a.Add(sc.ps);
	Env e2 = sc.env; e2.min = Pos(m, sc.env.min, 0); e2.max = Pos(m, sc.env.max, 0);
	for (int d = 0; d < D; d++) if (e2.min[d] > e2.max[d]) std::swap(e2.min[d], e2.max[d]);
	Idx perm = m.perm.empty() ? All(sc.ps.size()) : m.perm;  // b[k] is a[perm[k]]
	std::vector<P> pb;
	for (auto i : perm) { P p = sc.ps[i]; p.x = Pos(m, p.x, 0); p.u = R::operator+(Lin(m, p.u), m.vel); pb.push_back(p); }
	Sim b(e2); b.Add(pb);
	const auto wallA = [&](std::size_t i, double, double) { return a.home[i]; };
	b.wall = [&](std::size_t k, double t, double) { return Pos(m, a.home[perm[k]], t); };
	double t = 0; bool changed = false;
	for (std::size_t st = 0; st < dts.size(); st++)
	{
		const auto pre = a.Get(); const auto preB = b.Get(); const double dt = dts[st];
		const bool okA = a.Step(dt), okB = b.Step(dt); c.transitions += 2;
		const auto post = a.Get(); H::Hash h; HashState(h, b.Get()); c.state(h);
		t += dt;
		if (!Robust(sc.env, pre, t, dt, wallA, okA && okB, post) || !Robust(e2, preB, t, dt, b.wall, okA && okB, b.Get())) { c.count("skipped: sensitive to rounding"); return; }
		std::vector<P> want;
		for (auto i : perm) { P p = post[i]; p.x = Pos(m, p.x, t); p.u = R::operator+(Lin(m, p.u), m.vel); want.push_back(p); }
		for (auto& p : post) if (p.p > 0) changed = true;
		// the solver stops relative to the pressures it starts from
		// and its source term carries the rounding of the velocities of the walls, which are differences of positions
		double us = 1; for (auto& p : preB) us = std::max(us, R::len(p.u)); for (auto& p : want) us = std::max(us, R::len(p.u));
		double ps = 1e-6 * sc.env.rho * us * sc.env.l0 / dt; for (auto& p : pre) ps = std::max(ps, std::abs(p.p));
		const auto got = b.Get();
		if (!Same(c, got, All(got.size()), want, 1e-6, sc.env.l0, H::fmt("%s, step %zu", what.c_str(), st), true, ps)) return;
		H::Hash o; for (auto& p : post) { o.u((uint64_t)std::llround(p.p)); o.u(p.type); } c.outcome(o);
		if (changed || post.size() > 1) c.interesting();
	}
}

// the same scene in other units of length, time and mass
static void RunUnits(H::Ctx& c, const Scenario& sc, double L, double T, double M, const std::vector<double>& dts)
{
	c.desc = H::fmt("unit of length 1/%g, of time 1/%g, of density 1/%g, ", L, T, M) + sc.desc;
	if (sc.ps.empty()) return;
	const double U = L / T, Q = M * U * U;
	Env e2 = sc.env; e2.min = R::operator*(L, e2.min); e2.max = R::operator*(L, e2.max); e2.l0 *= L; e2.maxDt *= T; e2.g *= U / T; e2.nu *= U * L; e2.rho *= M; e2.c *= U;
	Sim a(sc.env), b(e2); a.Add(sc.ps);
	std::vector<P> pb = sc.ps; for (auto& p : pb) { p.x = R::operator*(L, p.x); p.u = R::operator*(U, p.u); p.p *= Q; }
	b.Add(pb);
	const auto wallA = [&](std::size_t i, double, double) { return a.home[i]; };
	double t = 0;
	for (std::size_t st = 0; st < dts.size(); st++)
	{
		const auto pre = a.Get(); double dt = dts[st]; bool okA, okB;
		if (dt > 0) { okA = a.Step(dt); okB = b.Step(dt * T); } else { okA = a.Step(); okB = b.Step(); dt = a.Dt(); if (!c.near(b.Dt() / T, dt, 1e-12 * dt, H::fmt("length of step %zu", st))) return; }
		c.transitions += 2; t += dt; const auto post = a.Get(); auto got = b.Get(); H::Hash h; HashState(h, got); c.state(h);
		int e; if (std::frexp(L, &e) == 0.5 && std::frexp(T, &e) == 0.5 && std::frexp(M, &e) == 0.5 && !c.expect(okA == okB, H::fmt("step %zu: an error in one of the units", st))) return; // every number is only multiplied by a power of two
		if (!Robust(sc.env, pre, t, dt, wallA, okA && okB, post)) { c.count("skipped: sensitive to rounding"); return; }
		for (auto& p : got) { p.x = R::operator*(1 / L, p.x); p.u = R::operator*(1 / U, p.u); p.p /= Q; }
		if (!c.near(b.T() / T, a.T(), 1e-12 * t, H::fmt("time after step %zu", st))) return;
		double us = 1; for (auto& p : pre) us = std::max(us, R::len(p.u));
		double ps = 1e-6 * sc.env.rho * us * sc.env.l0 / dt; for (auto& p : pre) ps = std::max(ps, std::abs(p.p));
		if (!Same(c, got, All(got.size()), post, 1e-6, sc.env.l0, H::fmt("other units, step %zu", st), true, ps)) return;
		H::Hash o; for (auto& p : post) { o.u((uint64_t)std::llround(p.p)); o.u(p.type); } c.outcome(o);
		c.interesting();
	}
}

static std::vector<H::Family> MakeC13(bool th)
{
	std::vector<H::Family> f;
#if !O_SPP && !O_GC
	// momentum of a free group of fluid particles
	const auto momentum = [](const PatchSpec& spec) { return [spec](uint64_t i, H::Ctx& c) {
		Scenario s = spec.Make(i); s.env.g = 0; s.env.maxDt = 0.01; c.desc = s.desc; if (s.ps.empty()) return;
		Sim a(s.env); a.Add(s.ps);
		for (int st = 0; st < 3; st++)
		{
			const auto pre = a.Get(); const bool ok = a.Step(0.01); c.transitions++; const auto post = a.Get();
			H::Hash h; HashState(h, post); c.state(h);
			if (!ok) { c.count("computing error reported"); return; }
			R::Step r(s.env, pre); r.Search(); bool close = false; for (std::size_t p = 0; p < post.size(); p++) for (std::size_t q = 0; q < p; q++) if (R::len(R::operator-(post[p].x, post[q].x)) < 1e-3) close = true;
			Vec m0 = V0(), m1 = V0(); double sc = 1e-3; bool p = false, moved = false;
			for (std::size_t k = 0; k < pre.size(); k++) if (pre[k].type == F)
			{
				if (post[k].type != F) return;
				m0 = R::operator+(m0, pre[k].u); m1 = R::operator+(m1, post[k].u); sc += R::len(pre[k].u) + R::len(post[k].u); if (post[k].p > 0) p = true;
				if (R::len(R::operator-(pre[k].u, post[k].u)) > 1e-9) moved = true;
			}
			if (close) { c.count("skipped: near-coincident particles"); return; }
			for (int d = 0; d < D; d++) if (!c.near(m1[d], m0[d], 1e-9 * sc, H::fmt("step %d: momentum[%d] of the fluid", st, d))) return;
			if (p) c.count("with pressure"); if (moved) c.interesting();
			H::Hash o; for (auto& q : post) o.u((uint64_t)std::llround(q.p)); c.outcome(o);
		}
	}; };
	{
		const PatchSpec m9{9, 3, 2, {0.45, 0.62, 0.8, 1.0}, {1, 3, 4}, {0, 1}, {0, 1}, {0.01}, {0.1, 0.3}, {0, 0.3}, {1e-10}, {1.0}, {2.4, 3.1}, 1};
		f.push_back({"momentum9", m9.Count(), momentum(m9)});
		const PatchSpec m16{th ? 16 : 12, 4, 2, {0.6, 0.85}, {1, 3}, {0}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
		f.push_back({"momentum12", m16.Count(), momentum(m16)});
	}
#endif
	const PatchSpec p5{5, 3, 4, {0.6, 0.85}, th ? std::vector<int>{1, 3, 4} : std::vector<int>{1}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-11}, {1.0}, {2.4}, 1};
	f.push_back({"permute", p5.Count() * 120, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); int code = (int)ch(120); Scenario s = p5.Make(ch.v);
		int fact = 1; for (int k = 2; k <= (int)s.ps.size(); k++) fact *= k;
		if (code >= fact) return; // fewer particles have fewer orders
		Map m; std::vector<std::size_t> pool = All(s.ps.size()); while (!pool.empty()) { const auto q = code % (int)pool.size(); code /= (int)pool.size(); m.perm.push_back(pool[q]); pool.erase(pool.begin() + q); }
		RunMapped(c, s, m, "reordered", {0.01, 0.006});
	}});
	// spatial symmetries and common velocities
	std::vector<std::pair<std::string, Map>> maps;
	for (int d = 0; d < D - 1; d++) { Map m; m.flip = d; maps.push_back({H::fmt("mirrored in axis %d", d), m}); }
	if (D == 3) { Map m; m.swapA = 0; m.swapB = 1; maps.push_back({"x and y exchanged", m}); }
	for (int k = 0; k < 4; k++) { Map m; for (int d = 0; d < D; d++) m.shift[d] = ((double[]){0.3, 100.7, -31.25, 1.44})[k] * (k == 1 && d ? -0.6 : 1); maps.push_back({H::fmt("shifted %d", k), m}); }
	for (int k = 0; k < 3; k++) { Map m; for (int d = 0; d < D; d++) m.vel[d] = k == 0 ? (d ? 0 : 3.1) : k == 1 ? (d == D - 1 ? -2.3 : 0) : 1.7 - d; maps.push_back({H::fmt("moving %d", k), m}); }
	const PatchSpec p6{th ? 7 : 6, 3, 4, {0.6, 0.85}, th ? std::vector<int>{1, 3, 4} : std::vector<int>{1, 3}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-11}, {1.0}, {2.4}, 1};
	f.push_back({"symmetry", p6.Count() * maps.size(), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto& mm = maps[ch(maps.size())]; RunMapped(c, p6.Make(ch.v), mm.second, mm.first, {0.01, 0.006});
	}});
	static const double units[][3] = {{8589934592.0 /* 2^33 */, 1, 1}, {1 / 1099511627776.0 /* 2^-40 */, 1, 1}, {1024, 1, 1}, {0.0009765625, 1, 1}, {1, 4096, 1}, {1, 0.0009765625, 1}, {1, 1, 4096}, {1, 1, 0.0009765625}, {1e-3, 1, 1e3}, {1e6, 60, 1e-6}, {3.7e-7, 1e-5, 0.013}, {100, 3600, 7}};
	const PatchSpec pu{th ? 7 : 6, 3, 4, {0.6, 0.85}, th ? std::vector<int>{1, 3, 4} : std::vector<int>{1, 3}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-11}, {1.0}, {2.4}, 1};
	f.push_back({"units", pu.Count() * 12, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto* u = units[ch(12)]; RunUnits(c, pu.Make(ch.v), u[0], u[1], u[2], {0.01, 0, 0.006});
	}});
	// a particle in the middle between two equal dense groups: its centre of gravity is almost, but not quite, where it is
	f.push_back({"almost", 8 * 8 * 4 * 3 * 4 * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto* u = units[ch(8)] /* the powers of two */; const double off = ((double[]){1e-1, 1e-2, 1e-4, 1e-6, 1e-8, 1e-3, 1e-5, 1e-7})[ch(8)], gap = ((double[]){1.1, 1.3, 1.5, 1.7})[ch(4)], sp = ((double[]){0.4, 0.5, 0.62})[ch(3)]; const int shape = (int)ch(4), mid = (int)ch(3);
		Scenario s; s.env.re = 2.4; s.env.nu = 0.3; s.env.eps = 1e-11; s.env.g = 0; s.env.maxDt = 0.01; P m; m.x = V0(); for (auto& v : m.x) v = 3; m.u = V0(); m.p = 50; m.type = mid == 1 ? W : F; s.ps.push_back(m);
		for (int a = 0; a < 2 + (shape & 1); a++) for (int b = 0; b < 2 + (shape >> 1); b++) for (int sg = -1; sg <= 1; sg += 2)   // point by point opposite
		{
			P p = m; p.type = mid == 2 && a ? W : F; const Vec jit = Site(a * 3 + b, 3); p.x[0] += sg * (gap + sp * a + 0.02 * (jit[0] - b)); p.x[D - 1] += sg * (sp * (b - 0.5) + 0.03 * a); p.u[0] = -2.0 * sg * (a + 1); p.u[D - 1] = 0.7 * sg * (b - a); p.p = 20.0 * (a + b);
			if (sg > 0 && !a && !b) p.x[D - 1] += off; s.ps.push_back(p);
		}
		s.desc = H::fmt("almost regular, off by %g, gap %g, spacing %g, shape %d, middle %d", off, gap, sp, shape, mid); RunUnits(c, s, u[0], u[1], u[2], {0.01, 0.004});
	}});
	const PoolSpec po{4, 1, 5, {0.8, 0.97}, {1, 3}, {0, 1}, {0.005}, {0.1}, 2};
	f.push_back({"pool", po.Count() * (maps.size() + 4), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto k = ch(maps.size() + 4); Scenario s = po.Make(ch.v); const auto n = s.ps.size();
		Map m; std::string what = "reordered";
		if (k < maps.size()) { m = maps[k].second; what = maps[k].first; }
		else for (std::size_t j = 0; j < n; j++) m.perm.push_back(k == maps.size() ? n - 1 - j : k == maps.size() + 1 ? (j + n / 2) % n : k == maps.size() + 2 ? (j * 2 < n ? j * 2 : (j - (n + 1) / 2) * 2 + 1) : (j ^ 1) < n ? j ^ 1 : j);
		RunMapped(c, s, m, what, {0.005, 0.0035, 0.005});
	}});
	return f;
}

// ------------------------------------------------------------------------------------------------ C14
static void Twin(H::Ctx& c, Sim& sim, const std::vector<double>& dts, const std::string& what)
{
	Sim t(sim.env); t.Add(sim.Get()); t.home = sim.home;
	const double t0 = sim.T(); sim.record = t.record = true; sim.preCalls.clear();
	for (std::size_t k = 0; k < dts.size(); k++)
	{
		const bool a = dts[k] < 0 ? sim.Step() : sim.Step(dts[k]), b = dts[k] < 0 ? t.Step() : t.Step(dts[k]); c.transitions += 2;
		if (!c.near(sim.Dt(), t.Dt(), 1e-13 * t.Dt(), what + ": time step")) return;
		if (!c.expect(a == b, H::fmt("%s: step %zu %s after the history and %s in a fresh run", what.c_str(), k, a ? "succeeds" : "fails", b ? "succeeds" : "fails"))) return;
		if (!c.near(sim.T() - t0, t.T(), 1e-10 * (t0 + t.T()), H::fmt("%s, step %zu: time passed", what.c_str(), k))) return;
		if (!c.expect(sim.preCalls.size() == t.preCalls.size(), H::fmt("%s, step %zu: calls of the wall's preparation", what.c_str(), k))) return;
		if (!t.preCalls.empty() && !c.near(sim.preCalls.back().first - t0, t.preCalls.back().first, 1e-10 * (t0 + t.T()), H::fmt("%s, step %zu: time the walls are asked for", what.c_str(), k))) return;
		if (!Same(c, sim.Get(), All(sim.home.size()), t.Get(), 1e-10, sim.env.l0, H::fmt("%s, step %zu: after the history and in a fresh run", what.c_str(), k), false)) return;
		if (!a) { c.count("failing continuation"); return; }
		H::Hash o; for (auto& p : sim.Get()) { o.u((uint64_t)std::llround(p.p)); o.u(p.type); } c.outcome(o);
	}
}

static std::vector<H::Family> MakeC14(bool th)
{
	std::vector<H::Family> f;
	// every history of operations, then the continuation against a fresh run from the same particles
	const int ops = 10, depth = th ? 5 : 4; uint64_t cnt = 1; for (int k = 0; k < depth; k++) cnt *= ops;
	const int bases = 4;
	const auto history = [=](const std::vector<int>& which, int depth) { return [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const int base = (int)ch(bases); Env e; e.nu = 0.2; e.eps = 1e-10; e.courant = 0.1; e.re = base == 3 ? 1.6 : 2.4; for (int d = 0; d < D; d++) { e.min[d] = -6; e.max[d] = 12; }
		Sim sim(e); std::vector<P> ps;
		const int n0 = base == 0 ? 0 : base == 1 ? 5 : 9;
		for (int k = 0; k < n0; k++) { P p; p.x = Site(k, 3); for (auto& v : p.x) v *= 0.72; p.u = Vel(k, 3, R::operator-(p.x, Site(4, 3))); p.p = Pres(k, 1); p.type = k < 2 && base != 1 ? W : F; ps.push_back(p); }
		sim.Add(ps); std::string d = H::fmt("base %d:", base); int added = 0, failed = 0;
		for (int k = 0; k < depth; k++)
		{
			auto& q = Acc::Particles(sim.c); const int op = which[ch(which.size())]; c.transitions++;
			const auto step = [&](double dt) { if (!(dt < 0 ? sim.Step() : sim.Step(dt))) { failed++; d += "(failed)"; } };
			switch (op)
			{
			case 0: d += " step0.01"; step(0.01); break;
			case 1: d += " auto"; step(-1); break;
			case 2: { d += " add fluid"; std::vector<P> v; for (int j = 0; j < 2; j++) { P p; p.x = V0(); p.x[0] = -1.1 + 0.6 * j; p.x[D - 1] = 0.4 + 0.9 * added + 0.07 * j; p.u = Vel(j, 1, p.x); p.p = 20; v.push_back(p); } added++; sim.Add(v); break; }
			case 3: { d += " add wall,dummy,disabled"; std::vector<P> v; for (int j = 0; j < 3; j++) { P p; p.x = V0(); p.x[0] = 3.1 + 0.8 * j; p.x[D - 1] = 0.3 + 0.85 * added; p.u = V0(); p.type = 1 + j; v.push_back(p); } added++; sim.Add(v); break; }
			case 4: d += " add nothing"; sim.Add({}); break;
			case 5: d += " first leaves"; if (!q.empty()) q[0].X()[0] = -500; break;
			case 6: d += " squeeze"; for (std::size_t j = 0; j < q.size(); j++) for (int a = 0; a < D; a++) { q[j].X()[a] *= 0.62; q[j].U()[a] -= 0.3 * q[j].X()[a]; } break;
			case 7: d += " relax"; for (std::size_t j = 0; j < q.size(); j++) for (int a = 0; a < D; a++) { q[j].X()[a] *= 1.55; q[j].U()[a] *= 0.5; } break;
			case 8: { d += " crowd"; std::vector<P> v; for (int j = 0; j < (D == 3 ? 70 : 20); j++) { P p; p.x = V0(); p.x[0] = 8.1 + 0.03 * j; p.x[D - 1] = 5.2 + 0.017 * (j % 7); p.u = V0(); p.type = DM; v.push_back(p); } sim.Add(v); break; }
			case 9: d += " scatter"; for (std::size_t j = 0; j < q.size(); j++) if (q[j].TYPE() == OpenMps::Particle::Type::Dummy) { q[j].X()[0] = 900; } break;
			case 10: d += " move elsewhere"; sim.Move(); break;
			}
		}
		c.desc = d;
		H::Hash h; HashState(h, sim.Get()); c.state(h);
		if (failed) c.count("histories with failed steps");
		c.interesting();
		Twin(c, sim, {0.008, -1, 0.005}, "history");
	}; };
	f.push_back({"history", cnt * bases, history({0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, depth)});
	f.push_back({"moved", (th ? 16807u : 2401u) * bases, history({10, 0, 1, 2, 5, 6, 8}, depth)});   // the simulation object handed on
	// every split of five particles into batches, added after 0 or 2 steps of a scene
	const PatchSpec p5{5, 3, 4, {0.7}, {1, 3}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	f.push_back({"batches", p5.Count() * 16 * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); int mask = (int)ch(16); const int before = (int)ch(3); Scenario s = p5.Make(ch.v); if (s.ps.empty()) return;
		c.desc = H::fmt("batches %x after %d steps of an earlier scene: ", mask, before) + s.desc;
		Sim a(s.env), b(s.env); std::vector<P> first; for (int k = 0; k < 2 && before; k++) { P p = s.ps[0]; p.x[0] += 1.9 + 0.8 * k; p.type = F; first.push_back(p); }
		a.Add(first); b.Add(first);
		for (int k = 0; k < before - 1; k++) { const bool x = a.Step(0.01), y = b.Step(0.01); if (!x || !y) return; }
		a.Add(s.ps);
		std::vector<P> batch; for (std::size_t k = 0; k < s.ps.size(); k++) { batch.push_back(s.ps[k]); if (mask & (1 << k)) { b.Add(batch); batch.clear(); if (k == 2) b.Add({}); } }
		b.Add(batch);
		c.interesting();
		for (int k = 0; k < 3; k++)
		{
			const bool x = a.Step(k == 1 ? 0.006 : 0.01), y = b.Step(k == 1 ? 0.006 : 0.01); c.transitions += 2;
			if (!c.expect(x == y, H::fmt("step %d ends differently for batches and for one addition", k))) return;
			if (!Same(c, a.Get(), All(a.home.size()), b.Get(), 1e-10, s.env.l0, H::fmt("step %d: added at once and in batches", k), false)) return;
			H::Hash h; HashState(h, b.Get()); c.state(h); c.outcome(h);
			if (!x) return;
		}
	}});
	// restart after every step of a run
	const PatchSpec p6{6, 3, 4, {0.6, 0.85}, {1, 3}, {0, 1}, {1, 2}, {0.01}, {0.1, 0.3}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	f.push_back({"restart", p6.Count() * (th ? 5 : 2), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const int k = 1 + (int)ch(th ? 5 : 2); Scenario s = p6.Make(ch.v); if (s.ps.empty()) return;
		c.desc = H::fmt("restart after %d steps: ", k) + s.desc;
		Sim a(s.env); a.Add(s.ps);
		for (int q = 0; q < k; q++) if (!(q == 1 ? a.Step() : a.Step(0.01))) break;
		H::Hash h; HashState(h, a.Get()); c.state(h);
		c.interesting();
		Twin(c, a, {0.007, -1}, "restart");
	}});
	return f;
}

// ------------------------------------------------------------------------------------------------ C27
// groups of particles out of each other's reach: each one moves as if the others were not there
static bool Alone(H::Ctx& c, const Env& e, const std::vector<P>& ps, const std::vector<double>& dts, std::vector<std::vector<P>>& states)
{
	Sim s(e); s.Add(ps); states.assign(1, ps);
	const auto home = [&](std::size_t i, double, double) { return ps[i].x; };
	for (double dt : dts)
	{
		const auto pre = s.Get(); const double t = s.T(); const bool ok = s.Step(dt); const auto post = s.Get();
		if (!Robust(e, pre, t, dt, home, ok, post, 1e3)) { c.count("skipped: within rounding distance of a threshold, ill-conditioned or failing"); return false; }
		states.push_back(post);
	}
	return true;
}
static std::vector<H::Family> MakeC27(bool th)
{
	std::vector<H::Family> f; static const std::vector<double> dts{0.01, 0.006};
	const double near = D == 3 ? 0.185 : 0.38;   // rows dense enough for pressure inside and none at their ends
	const PatchSpec pa{D == 3 && !th ? 3 : 4, 4, 4, {near, 0.9}, {1}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	const PatchSpec pb{th ? 4 : D == 3 ? 2 : 3, 4, 4, {near}, {3}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	std::vector<Vec> dirs; for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int g = D == 3 ? -1 : 0; g <= (D == 3 ? 1 : 0); g++) if (a || b || g) { Vec v = V0(); v[0] = a; v[1] = D == 3 ? g : b; v[D - 1] = b; dirs.push_back(R::operator*(1 / R::len(v), v)); }
	f.push_back({"pair", pa.Count() * pb.Count() * dirs.size() * 2 * (th ? 3 : 1), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto dir = dirs[ch(dirs.size())]; const int gap = (int)ch(2), order = th ? (int)ch(3) : (int)(ch.v % 3);
		const Scenario b = pb.Make(ch(pb.Count())); Scenario a = pa.Make(ch.v); if (a.ps.empty() || b.ps.empty()) return;
		const double NL = NLof(a.env), want = gap ? NL * (1 + 1e-6) : 2.7 * NL; double t = -1e300;
		for (auto& p : a.ps) for (auto& q : b.ps) { const Vec d = R::operator-(q.x, p.x); double du = 0, dd = 0; for (int k = 0; k < D; k++) { du += d[k] * dir[k]; dd += d[k] * d[k]; } const double disc = du * du - dd + want * want; if (disc >= 0) t = std::max(t, -du + std::sqrt(disc)); }
		if (t < -1e299) return;
		std::vector<P> bs = b.ps; for (auto& p : bs) for (int k = 0; k < D; k++) p.x[k] += t * dir[k];
		Env e = a.env; for (int d = 0; d < D; d++) { e.min[d] = -17.3; e.max[d] = 27.1; }
		c.desc = H::fmt("order %d, gap %g, ", order, want) + Show(a.ps) + " and " + Show(bs);
		std::vector<std::vector<P>> sa, sb; if (!Alone(c, e, a.ps, dts, sa) || !Alone(c, e, bs, dts, sb)) return;
		// the union: one group after the other, or alternately
		Idx ia, ib; std::vector<P> u; std::size_t x = 0, y = 0;
		while (x < a.ps.size() || y < bs.size()) { const bool first = y == bs.size() || (x < a.ps.size() && (order == 0 || (order == 2 && u.size() % 2 == 0))); if (first) { ia.push_back(u.size()); u.push_back(a.ps[x++]); } else { ib.push_back(u.size()); u.push_back(bs[y++]); } }
		Idx all = ia; all.insert(all.end(), ib.begin(), ib.end());
		Sim s(e); s.Add(u);
		for (std::size_t k = 0; k < dts.size(); k++)
		{
			double r = 1e300; for (auto& p : sa[k]) for (auto& q : sb[k]) r = std::min(r, R::len(R::operator-(p.x, q.x))); if (r < e.re * e.l0 * 1.02) { c.count("skipped: the groups met"); return; }
			if (!c.expect(s.Step(dts[k]), H::fmt("step %zu fails although each group alone can make it", k))) return; c.transitions++;
			auto both = sa[k + 1]; both.insert(both.end(), sb[k + 1].begin(), sb[k + 1].end());
			if (!Same(c, s.Get(), all, both, 1e-6, e.l0, H::fmt("step %zu: together and alone", k), true, 1.0)) return;
			H::Hash h; HashState(h, s.Get()); c.state(h); bool p = false; for (auto& q : both) p |= q.p > 0 && q.type < DM; H::Hash o; for (auto& q : both) o.u((uint64_t)std::llround(q.p)); c.outcome(o); if (p) c.interesting();
		}
	}});
	// a violent and a quiet group: what is small beside the one is everything to the other
	const PatchSpec qa{3, 4, 4, {near}, {3}, {0}, {0}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1}, qb{4, 4, 4, {near, 0.345}, {1, 3}, {0}, {0}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	if (D == 2) f.push_back({"weak", qa.Count() * qb.Count() * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const double by = ((double[]){1e-1, 1e-3, 1e-4})[ch(3)]; Scenario b = qb.Make(ch(qb.Count())), a = qa.Make(ch.v); if (a.ps.empty() || b.ps.empty()) return;
		Env e = a.env; for (int d = 0; d < D; d++) { e.min[d] = -3; e.max[d] = 17; }
		const double dt = 0.001; for (auto& p : a.ps) for (auto& u : p.u) u *= 20; for (auto& p : b.ps) { for (auto& u : p.u) u *= by; p.x[0] += 7; p.x[D - 1] += 1.7; }
		c.desc = H::fmt("velocities times %g: ", by) + Show(a.ps) + " and " + Show(b.ps);
		const auto part = [&](const std::vector<P>& ps, std::vector<P>& to) { Sim s(e); s.Add(ps); const double t = s.T(); const auto home = [&](std::size_t i, double, double) { return ps[i].x; }; if (IllConditioned(e, ps, t, dt, home)) return false; const bool ok = s.Step(dt); to = s.Get(); return ok && Robust(e, ps, t, dt, home, ok, to, 100); };
		std::vector<P> ra, rb; if (!part(a.ps, ra) || !part(b.ps, rb)) { c.count("skipped: within rounding distance of a threshold, ill-conditioned or failing"); return; }
		double pa = 0, pb = 0; for (auto& p : ra) if (p.type < DM) pa = std::max(pa, p.p); for (auto& p : rb) if (p.type < DM) pb = std::max(pb, p.p);
		const double ratio = pb / pa; if (pa > 0 && pb > 0 && ratio < 1e-5) { c.count("skipped: the weak group is below the accuracy of the solver"); return; }
		std::vector<P> u = a.ps; u.insert(u.end(), b.ps.begin(), b.ps.end()); Sim s(e); s.Add(u); Idx ia, ib; for (std::size_t k = 0; k < u.size(); k++) (k < a.ps.size() ? ia : ib).push_back(k);
		if (!c.expect(s.Step(dt), "the step fails although each group alone can make it")) return; c.transitions++;
		const auto got = s.Get(); if (!Same(c, got, ia, ra, 1e-6, e.l0, "violent group", true, 1.0)) return;
		if (!Same(c, got, ib, rb, 2e-3, e.l0, "quiet group", true, pa * 1e-5)) return;
		if (pa > 0 && pb > 0) { c.interesting(); c.count(ratio < 1e-4 ? "weaker by 10^4" : ratio < 1e-2 ? "weaker by 10^2" : "comparable"); }
		H::Hash h; HashState(h, got); c.state(h); H::Hash o; o.u((uint64_t)std::llround(std::log10(ratio + 1e-30) * 4)); c.outcome(o);
	}});
	// the same group many times: as many particles as a count, a number or a list may have to hold
	const PatchSpec pc{3, 4, 4, {near, 0.8}, {1}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {1.6}, 1};
	const std::vector<int> sizes = D == 3 ? std::vector<int>{90, 300, 1700} : th ? std::vector<int>{90, 300, 1100, 5200, 33000, 66000} : std::vector<int>{90, 300, 5200};
	const auto copies = [=](uint64_t i, H::Ctx& c, int size) {
		Scenario a = pc.Make(i); if (a.ps.empty()) return; Env e = a.env; const double pitch = 8; const int m = (size + (int)a.ps.size() - 1) / (int)a.ps.size(), side = (int)std::ceil(std::sqrt((double)m));
		for (int d = 0; d < D; d++) { e.min[d] = -4; e.max[d] = (D == 3 && d == 1) ? 10 : pitch * (side + 1) + 4; }
		c.desc = H::fmt("%d copies of ", m) + Show(a.ps);
		std::vector<std::vector<P>> sa; if (!Alone(c, e, a.ps, dts, sa)) return;
		std::vector<P> u; Idx at; for (int k = 0; k < m; k++) for (auto p : a.ps) { p.x[0] += pitch * (k % side); p.x[D - 1] += pitch * (k / side); u.push_back(p); }
		Sim s(e); s.Add(u);
		for (std::size_t k = 0; k < dts.size(); k++)
		{
			if (!c.expect(s.Step(dts[k]), H::fmt("step %zu fails although one group alone can make it", k))) return; c.transitions++;
			std::vector<P> want; for (int q = 0; q < m; q++) for (auto p : sa[k + 1]) { p.x[0] += pitch * (q % side); p.x[D - 1] += pitch * (q / side); want.push_back(p); }
			if (!Same(c, s.Get(), All(want.size()), want, 1e-6, e.l0, H::fmt("step %zu: many copies and one", k), true, 1.0)) return;
		}
		for (auto& q : sa.back()) if (q.p > 0 && q.type < DM) c.interesting();
		H::Hash h; HashState(h, s.Get()); c.state(h); H::Hash o; for (auto& q : sa.back()) o.u((uint64_t)std::llround(q.p)); c.outcome(o);
	};
	f.push_back({"copies", pc.Count() * sizes.size(), [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const int n = sizes[ch(sizes.size())]; copies(ch.v, c, n); }});
	if (D == 2 && !th) f.push_back({"many", 8, [=](uint64_t i, H::Ctx& c) { static const uint64_t pick[] = {85, 81, 91, 105}; copies(pick[i / 2], c, i % 2 ? 66000 : 33000); }});
	return f;
}

static std::vector<H::Family> Make(bool th)
{
	if (prop == "C05") return MakeC05(th);
	if (prop == "C12") return MakeC12(th);
	if (prop == "C13") return MakeC13(th);
	if (prop == "C27") return MakeC27(th);
	return MakeC14(th);
}
int main(int argc, char** argv)
{
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
	return H::Main(argc, argv, Make);
}
