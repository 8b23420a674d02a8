// Step-level explorer: every scenario of the families is executed on the real code and compared, observable by
// observable, with the reference model.  --prop selects which observables decide.
#include "scen.hpp"
using namespace G;
using OpenMps::Acc;

static std::string prop; static bool lite = false, smallest = false;

static double Scale(const std::vector<double>& v) { double m = 0; for (auto x : v) m = std::max(m, std::abs(x)); return m; }

// compares velocity and position of the fluid particles with the reference
static void CompareMotion(H::Ctx& c, const R::Step& r, const std::vector<P>& pre, const std::vector<P>& post, double dt, const char* what)
{
	double us = 1e-6;
	for (std::size_t i = 0; i < post.size(); i++) if (r.s[i].type == F)
	{
		double m = R::len(pre[i].u) + R::len(r.s[i].u) + dt * R::len(r.K.g);
		if (!r.dGrad.empty()) m += R::len(r.dGrad[i]);
		us = std::max(us, m);
	}
	for (std::size_t i = 0; i < post.size(); i++) if (r.s[i].type == F)
		for (int d = 0; d < D; d++)
		{
			if (!c.near(post[i].u[d], r.s[i].u[d], 1e-8 * us, H::fmt("%s: velocity[%d] of particle %zu", what, d, i))) return;
			if (!c.near(post[i].x[d], r.s[i].x[d], 1e-8 * us * dt + 1e-12 * (1 + std::abs(pre[i].x[d])), H::fmt("%s: position[%d] of particle %zu", what, d, i))) return;
		}
}

#if !O_EXPL
template<typename M> static double Entry(M& A, std::size_t i, std::size_t j) { return static_cast<double>(A(i, j)); }
template<typename C> static std::vector<std::vector<double>> Dense(C& comp, std::size_t n)
{
	auto& A = Acc::Ppe(comp).A;
	std::vector<std::vector<double>> m(n, std::vector<double>(n, 0));
#ifdef USE_VIENNACL
	std::vector<std::map<unsigned int, double>> rows(n);
	viennacl::copy(A, rows);
	for (std::size_t i = 0; i < n; i++) for (auto& e : rows[i]) m[i][e.first] = e.second;
#else
	for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) m[i][j] = Entry(static_cast<const std::remove_reference_t<decltype(A)>&>(A), i, j);
#endif
	return m;
}
#endif

static void RunScenario(const Scenario& sc, H::Ctx& c)
{
	c.desc = sc.desc;
	Sim sim(sc.env);
	sim.record = prop == "C08";
	if (sc.start > 0 && !sim.Step(sc.start)) { c.fail("a step without particles failed"); return; }
	sim.Add(sc.ps);
	if (sc.ps.empty()) return;

	if (prop == "C06")
	{
		// the density stage alone, on the initial placement
		R::Step r(sc.env, sim.Get());
		c.near(sim.c.GetEnvironment().N0(), r.K.n0, 1e-9 * r.K.n0, "reference density");
#if !O_HL
		c.near(sim.c.GetEnvironment().Lambda(), r.K.lambda, 1e-9 * r.K.lambda, "diffusion model constant");
#endif
		r.Search();
		if (!r.tooMany)
		{
			r.Density();
			Acc::Search(sim.c); Acc::Densities(sim.c); c.transitions++;
			const auto got = sim.Get();
			if (!r.tie) for (std::size_t i = 0; i < got.size(); i++)
				if (!c.near(got[i].n, r.s[i].n, 1e-9 * r.K.n0, H::fmt("density of particle %zu (type %d)", i, got[i].type))) return;
		}
	}

	// walls move in the prescribed-motion families
	const bool moving = prop == "C08";
	if (moving) sim.wall = [&](std::size_t i, double t, double dt) { Vec v = sim.home[i]; v[0] += 0.03 * std::sin(7 * t + i) * sc.env.l0; v[D - 1] += (0.02 * t + 0.1 * dt) * sc.env.l0; return v; };
	const auto wall = [&](std::size_t i, double t, double dt) { return sim.wall ? sim.wall(i, t, dt) : sim.home[i]; };

	for (int st = 0; st < sc.steps; st++)
	{
		const auto pre = sim.Get();
		const double t0 = sim.T();
		const double dt = sc.dt * (st % 2 ? 0.7 : 1.0);
		R::Step r(sc.env, pre);
		r.Before(t0 + dt, dt, wall);
		sim.preCalls.clear(); sim.wallCalls.clear(); sim.wallOrder.clear();
		const bool ok = sim.Step(dt);
		c.transitions++;
		const auto post = sim.Get();
		H::Hash h; HashState(h, post); c.state(h);
		if (r.tie) { c.count("skipped: within rounding distance of a threshold"); return; }
		if (r.tooMany) { c.count("bucket overflow"); c.expect(!ok || prop != "C10", "a step over an overfull bucket succeeded"); return; }
		if (r.minR < 1e-3 * sc.env.l0) { c.count("skipped: near-coincident particles"); return; }

		if (prop == "C06")
		{
			// density after the explicit motion is what the step reports, with dummies and disabled particles untouched
			for (std::size_t i = 0; i < post.size(); i++)
				if (!c.near(post[i].n, r.s[i].n, 1e-9 * r.K.n0, H::fmt("step %d: density of particle %zu (type %d)", st, i, post[i].type))) return;
			if (r.fullDensity) { c.interesting(); c.count("cases with density above the reference"); }
			H::Hash o; for (auto& p : post) o.u((uint64_t)std::llround(p.n * 1e6)); c.outcome(o);
		}

#if !O_EXPL
		if (prop == "C09" || prop == "FULL")
		{
			auto& ppe = Acc::Ppe(sim.c);
			const auto n = post.size();
			if (!c.expect(ppe.b.size() == n, "pressure equation has the wrong size")) return;
			const auto A = Dense(sim.c, n);
			double am = 0; for (auto& row : r.A) am = std::max(am, Scale(row));
			// the plain source term is a difference of densities: rounding of the densities
			const double bm = std::max(Scale(r.b), 1e-3) + (O_HS ? 0 : 1e-4 * sc.env.rho / (dt * dt));
			for (std::size_t i = 0; i < n; i++)
			{
				double rowMax = 0; for (auto v : r.A[i]) rowMax = std::max(rowMax, std::abs(v));
				for (std::size_t j = 0; j < n; j++) if (!c.near(A[i][j], r.A[i][j], 1e-9 * std::max(rowMax, 1e-6 * am), H::fmt("step %d: coefficient (%zu,%zu)", st, i, j))) return;
				if (!c.near(ppe.b(i), r.b[i], 1e-9 * bm, H::fmt("step %d: source term %zu", st, i))) return;
			}
			for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < i; j++) if (!c.near(A[i][j], A[j][i], 1e-9 * am, H::fmt("step %d: symmetry (%zu,%zu)", st, i, j))) return;
			if (prop == "C09" && r.fullDensity) c.interesting();
			if (prop == "C09") { H::Hash o; for (auto v : r.b) o.u((uint64_t)std::llround(v * 1e3)); o.u(n); c.outcome(o); }
		}
		if (prop == "C10" || prop == "C11" || prop == "FULL") r.Solve();
		if (prop == "C10")
		{
			// a completed step leaves a solution of its own system within the configured tolerance of the initial residual
			auto& ppe = Acc::Ppe(sim.c);
			const auto n = post.size();
			if (r.unsolvable) { c.count("unsolvable systems"); c.interesting(); c.outcome(1); }
			if (ok)
			{
				const auto A = Dense(sim.c, n);
				double r0 = 0, r1 = 0, mag = 0;
				for (std::size_t i = 0; i < n; i++)
				{
					double q0 = ppe.b(i), q1 = ppe.b(i);
					for (std::size_t j = 0; j < n; j++) { q0 -= A[i][j] * r.xini[j]; q1 -= A[i][j] * ppe.x(j); mag = std::max(mag, std::abs(A[i][j] * ppe.x(j))); }
					r0 += q0 * q0; r1 += q1 * q1;
				}
				r0 = std::sqrt(r0); r1 = std::sqrt(r1);
				// an unsolvable system can only be within the tolerance where what contradicts is small beside the initial residual
				if (r.unsolvable) { c.count("unsolvable, but within the tolerance"); if (!c.expect(std::isfinite(r1) && r1 <= sc.env.eps * r0 * 1.001, H::fmt("step %d: an unsolvable pressure equation was reported solved: residual %.6g, initially %.6g", st, r1, r0))) return; }
				if (!c.expect(std::isfinite(r1) && r1 <= sc.env.eps * r0 * 1.001 + 1e-13 * mag * (double)n, H::fmt("step %d: residual %.6g of the accepted solution exceeds tolerance %g x initial residual %.6g", st, r1, sc.env.eps, r0))) return;
				if (r0 > 0) { c.interesting(); c.outcome(2 + (uint64_t)(std::log10(r1 / r0 + 1e-30) * 4 + 200)); }
			}
			if (!ok && n > 100 && !r.unsolvable && !r.illcond)
			{
				// textbook conjugate gradients on the reference's own system: where they converge with ease, the step must not give up
				std::vector<double> x = r.xini, q(n), p(n), ap(n); const auto mul = [&](const std::vector<double>& v, std::vector<double>& w) { for (std::size_t i = 0; i < n; i++) { w[i] = 0; for (std::size_t j = 0; j < n; j++) if (r.A[i][j] != 0) w[i] += r.A[i][j] * v[j]; } };
				const auto dot = [&](const std::vector<double>& v, const std::vector<double>& w) { double t = 0; for (std::size_t i = 0; i < n; i++) t += v[i] * w[i]; return t; };
				mul(x, q); for (std::size_t i = 0; i < n; i++) p[i] = q[i] = r.b[i] - q[i];
				double rr = dot(q, q); const double goal = rr * sc.env.eps * sc.env.eps; std::size_t it = 0;
				for (; it < n && rr >= goal && rr > 0; it++) { mul(p, ap); const double al = rr / dot(p, ap); for (std::size_t i = 0; i < n; i++) { x[i] += al * p[i]; q[i] -= al * ap[i]; } const double r2 = dot(q, q); for (std::size_t i = 0; i < n; i++) p[i] = q[i] + r2 / rr * p[i]; rr = r2; }
				if (rr < goal && it * 3 < n * 2) { c.fail(H::fmt("step %d: the solver gave up on a system of %zu particles that takes %zu iterations", st, n, it)); return; }
				c.count("error: large system");
			}
			if (!ok && !r.unsolvable && !r.illcond && r.Condition() < 100) { c.fail(H::fmt("step %d: the solver gave up on a well-conditioned system of %zu particles", st, n)); return; }
			if (!ok) c.count(r.unsolvable ? "error: unsolvable" : r.noise ? "error: rhs noise" : r.closed ? "error: closed, consistent" : "error: ill-conditioned");
		}
#endif
		if (!ok) { c.count("computing error reported"); if (prop == "C08" || prop == "C07") {} return; }

		// pressures as the step reports them
		std::vector<double> px; for (auto& p : post) px.push_back(p.p);

		if (prop == "C11" || prop == "FULL")
		{
			// pressures: non-negative, the clipped solution of the system; untouched for dummies and disabled particles
			for (std::size_t i = 0; i < post.size(); i++)
			{
				if (R::active(r.s[i])) { if (!c.expect(post[i].p >= 0 && std::isfinite(post[i].p), H::fmt("step %d: pressure of particle %zu is %g", st, i, post[i].p))) return; }
#if !O_EXPL
				else if (!c.expect(post[i].p == pre[i].p, H::fmt("step %d: pressure of dummy/disabled particle %zu changed", st, i))) return;
#endif
			}
#if !O_EXPL
			if (!r.unsolvable && !r.illcond)
			{
				const double ps = std::max(Scale(r.x), Scale(r.xini));
				for (std::size_t i = 0; i < post.size(); i++) if (R::active(r.s[i]))
				{
					const double want = (r.x[i] < 0 || r.Surface(r.s[i].n)) ? 0 : r.x[i];
					if (!c.near(post[i].p, want, 1e-5 * ps + 1e-9, H::fmt("step %d: pressure of particle %zu", st, i))) return;
				}
				if (prop == "C11" && ps > 0) c.interesting();
			}
#else
			{
				const auto keep = r.s; r.Pressure(nullptr);
				for (std::size_t i = 0; i < post.size(); i++) if (R::active(r.s[i]))
					if (!c.near(post[i].p, r.s[i].p, 1e-8 * (r.K.c * r.K.c * r.K.rho), H::fmt("step %d: pressure of particle %zu", st, i))) return;
				r.s = keep;
			}
#endif
		}
#if O_EXPL
		std::vector<double>* given = nullptr;
#else
		std::vector<double>* given = &px;
#endif
		r.After(dt, given);
		if (r.tie) { c.count("skipped: within rounding distance of a threshold"); return; }
		bool pzero = true; for (std::size_t i = 0; i < post.size(); i++) if (R::active(r.s[i]) && px[i] != 0 && (r.dGrad.empty() || !(R::len(r.dGrad[i]) <= 1e-7 * R::len(pre[i].u)))) pzero = false;   // what is left of the first guess of the solver moves nothing

		if (prop == "C07")
		{
			if (!pzero || r.dsPairs) { c.count("not isolating the explicit stage"); }
			else
			{
				CompareMotion(c, r, pre, post, dt, "gravity and viscosity"); if (c.failed) return;
				double va = 0; for (std::size_t i = 0; i < post.size(); i++) if (r.s[i].type == F) va = std::max(va, R::len(R::operator-(r.acc[i], r.K.g)));
				if (va > 1e-9) c.interesting();
				H::Hash o; for (auto& a : r.acc) for (auto v : a) o.u((uint64_t)std::llround(v * 1e6)); c.outcome(o);
			}
		}
		if (prop == "C11")
		{
			if (r.dsPairs) c.count("motion not compared: close-approach stabilisation active");
			else { CompareMotion(c, r, pre, post, dt, "pressure correction"); if (c.failed) return; }
			H::Hash o; for (auto v : px) o.u((uint64_t)std::llround(v * 1e3)); c.outcome(o);
		}
		if (prop == "C21")
		{
			if (r.dsPairs) { c.interesting(); c.count("close pairs", r.dsPairs); }
			CompareMotion(c, r, pre, post, dt, "stabilised motion"); if (c.failed) return;
			H::Hash o; for (auto& a : r.dDs) for (auto v : a) o.u((uint64_t)std::llround(v * 1e6)); c.outcome(o);
		}
		if (prop == "FULL")
		{
			CompareMotion(c, r, pre, post, dt, "step"); if (c.failed) return;
			for (std::size_t i = 0; i < post.size(); i++)
			{
				if (!c.near(post[i].n, r.s[i].n, 1e-9 * r.K.n0, H::fmt("step %d: density of particle %zu", st, i))) return;
				if (!c.expect(post[i].type == r.s[i].type, H::fmt("step %d: type of particle %zu", st, i))) return;
			}
			c.interesting();
			H::Hash o; for (auto v : px) o.u((uint64_t)std::llround(v * 1e3)); for (auto& p : post) o.u((uint64_t)std::llround(p.n * 1e6)); c.outcome(o);
		}
		if (prop == "C08")
		{
			if (!c.expect(sim.preCalls.size() == 1, H::fmt("step %d: the wall preparation callback ran %zu times", st, sim.preCalls.size()))) return;
			if (!c.near(sim.preCalls[0].first, t0 + dt, 1e-12, "time passed to the preparation callback")) return;
			if (!c.near(sim.preCalls[0].second, dt, 1e-15, "time step passed to the preparation callback")) return;
			std::vector<int> seen(post.size(), 0);
			for (std::size_t k = 0; k < sim.wallCalls.size(); k++)
			{
				auto& w = sim.wallCalls[k];
				if (!c.expect(w[0] < post.size(), "wall callback for an unknown particle")) return;
				seen[(std::size_t)w[0]]++;
				if (!c.near(w[1], t0 + dt, 1e-12, "time passed to the wall callback")) return;
				if (!c.near(w[2], dt, 1e-15, "time step passed to the wall callback")) return;
				if (!c.expect(sim.wallOrder[k] == 1, "a wall position was asked for before the preparation callback ran")) return;
			}
			for (std::size_t i = 0; i < post.size(); i++) if (post[i].type == W || post[i].type == DM)
			{
				if (!c.expect(seen[i] >= 1, H::fmt("step %d: position of wall/dummy %zu was not asked for", st, i))) return;
				const Vec x = wall(i, t0 + dt, dt);
				for (int d = 0; d < D; d++)
				{
					if (!c.near(post[i].x[d], x[d], 1e-12, H::fmt("step %d: position[%d] of wall/dummy %zu", st, d, i))) return;
					if (!c.near(post[i].u[d], (x[d] - pre[i].x[d]) / dt, 1e-9 * (1 + std::abs(x[d]) / dt * 1e-3), H::fmt("step %d: velocity[%d] of wall/dummy %zu", st, d, i))) return;
				}
				c.interesting();
			}
			else if (post[i].type == F && !c.expect(seen[i] == 0 || true, "")) return;
			H::Hash o; for (auto& p : post) if (p.type == W || p.type == DM) for (auto v : p.x) o.d(v); c.outcome(o);
		}
	}
}

static std::vector<H::Family> Make(bool th)
{
	if (smallest) th = false;
	std::vector<H::Family> f;
	const auto patch = [&](const std::string& n, const PatchSpec& p) { f.push_back({n, p.Count(), [p](uint64_t i, H::Ctx& c) { RunScenario(p.Make(i), c); }}); };
	const auto pool = [&](const std::string& n, const PoolSpec& p) { f.push_back({n, p.Count(), [p](uint64_t i, H::Ctx& c) { RunScenario(p.Make(i), c); }}); };
	const bool small = prop == "FULL", ql = lite && !th;
	std::vector<double> cour{0.1};
	if (prop == "C07" || prop == "C11") cour = {0.45};
	if (prop == "FULL") cour = {0.1, 0.45};
	std::vector<double> eps{1e-10};
	if (prop == "C10") eps = {1e-10, 1e-4};
	// every content of 6 sites
	patch("patch6", {6, 3, 4, {0.55, 0.75, 1.05}, th ? std::vector<int>{0, 1, 2, 3, 4} : small ? std::vector<int>{1} : std::vector<int>{1, 3, 4}, {0, 1}, small ? std::vector<int>{1} : th ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1}, {0.01}, ql ? std::vector<double>{0.45} : cour, {0.3}, eps, {1.0}, {2.4}, 1});
	// every fluid/empty(/wall) content of 9 sites
	patch("patch9", {9, 3, th ? 4 : small ? 2 : 3, small ? std::vector<double>{0.75} : std::vector<double>{0.62, 0.8}, small ? std::vector<int>{1, 3} : th ? std::vector<int>{1, 3, 4} : std::vector<int>{3}, {0}, {1}, {0.01}, cour, {0.3}, eps, {1.0}, {2.4}, 1});
	// histories of three steps, other scales and parameters
	patch("hist", {5, 3, 5, {0.6, 0.95}, ql ? std::vector<int>{3} : std::vector<int>{1, 3}, ql ? std::vector<int>{1} : std::vector<int>{0, 1}, {1, 2}, {0.008}, prop == "C07" || prop == "C11" ? std::vector<double>{0.45} : std::vector<double>{0.1, 0.3}, {0.3}, eps, {1.0}, {2.4}, 3});
	patch("scale", {4, 2, ql ? 3 : 4, ql ? std::vector<double>{0.5, 1.1} : std::vector<double>{0.5, 0.7, 1.1}, ql ? std::vector<int>{1, 4} : std::vector<int>{1, 3, 4}, ql ? std::vector<int>{1} : std::vector<int>{0, 1}, {1}, {0.001, 0.01}, prop == "C07" || prop == "C11" ? std::vector<double>{0.45} : std::vector<double>{0.05, 0.25}, {0, 1e-6, 0.5}, {eps[0]}, {0.01, 1.0, 25.0}, {1.7, 2.1, 3.1}, 2});
	// every parameter of the fluid and the scheme on its own scale
	if (prop != "C20") f.push_back({"params", (uint64_t)(small ? (smallest ? 2 : 4) : 8) * 3 * 3 * 3 * 2 * 2 * 3 * 2 * 3, [](uint64_t i, H::Ctx& c) {
		static const double rho[] = {0.02, 1, 13600}, g[] = {0, 1.62, 274}, fast[] = {1e-3, 1, 60}, ps[] = {0.01, 1e4}, co[] = {0, 0.6}, dts[] = {1e-6, 0.002, 0.03}, res[] = {1.6, 2.4, 4.1}, sp[] = {0.47, 0.4, 0.23}, row[] = {D == 3 ? 0.42 : 0.56, D == 3 ? 0.215 : 0.42, D == 3 ? 0.067 : 0.178};   // rows: pressure inside, none at the ends
		static const char* const pat[] = {"FFWFD", "FFDWF", "WFFFF", "FDFFF", "FxFWF", "FFFFF", "WWFDF", "FFWWF"};
		H::Choices ch(i); const int k = (int)ch(3); Scenario s; s.env.re = res[k]; s.env.rho = rho[ch(3)]; s.env.g = g[ch(3)]; const double q = fast[ch(3)], p0 = ps[ch(2)]; { const auto k2 = ch(2); s.env.courant = prop == "C07" ? 0.4 + 0.2 * (double)k2 : co[k2]; } s.dt = dts[ch(3)]; s.start = ch(2) ? 1234.5 : 0;
		const char* pt = pat[ch.v]; s.env.nu = 0.07 * (double)(ch.v % 3); s.env.surfaceRatio = ch.v % 2 ? 0.8 : 0.97; s.env.c = ch.v % 2 ? 3 : 400; s.env.eps = 1e-10; s.steps = 2;
		for (int z = 0; z < 5; z++) if (pt[z] != ' ')
		{
			P p; const bool line = ch.v % 4 != 3; const Vec st = Site(z, line ? 5 : D == 3 ? 2 : 3); for (int d = 0; d < D; d++) { p.x[d] = 0.7 + (prop == "C07" ? 0.9 : line ? row[k] : (D == 3 ? 0.7 : 1) * sp[k]) * st[d]; p.u[d] = prop == "C07" ? q * (0.5 * st[d] + 0.1 * Vel(z, 1, V0())[d]) : q * Vel(z, 1, V0())[d] - 0.3 * q * st[d]; } p.p = p0 * Pres(z, 1); p.n = 0;
			p.type = pt[z] == 'F' ? F : pt[z] == 'W' ? W : pt[z] == 'D' ? DM : DIS; s.ps.push_back(p);
		}
		for (int d = 0; d < D; d++) { s.env.min[d] = -7; s.env.max[d] = 11; }
		s.desc = H::fmt("rho=%g g=%g nu=%g re=%g courant=%g dt=%g start=%g: ", s.env.rho, s.env.g, s.env.nu, s.env.re, s.env.courant, s.dt, s.start) + Show(s.ps); RunScenario(s, c);
	}});
	// the same few particles everywhere: length scales, far from the origin, at every end of the domain, removed ones first and last, negative pressures before
	if (prop != "C20") f.push_back({"places", (uint64_t)(small ? 2 : 8) * 3 * 4 * 3 * 2 * 2 * 2, [small](uint64_t i, H::Ctx& c) {
		static const double ls[] = {0.001, 1, 50}, res[] = {1.6, 2.4, 4.1}, row[] = {D == 3 ? 0.42 : 0.56, D == 3 ? 0.215 : 0.42, D == 3 ? 0.067 : 0.178}; static const char* const pat[] = {"xFFWFD", "FFFFFx", "WFDFFx", "F", "DFFFFW", "FF", "W", "WWDW"};
		H::Choices ch(i); Scenario s; const double l = ls[ch(3)]; const int where = (int)ch(4), k = (int)ch(3), neg = (int)ch(2), fast = (int)ch(2); s.dt = ch(2) ? 0.02 : 2e-4; s.env.l0 = l; s.env.re = res[k]; s.env.g = 9.8 * l; s.env.nu = 0.05; s.env.courant = prop == "C07" ? 0.45 : 0.1; s.env.surfaceRatio = 0.97; s.env.eps = 1e-10; s.steps = 2;
		const char* pt = pat[ch.v]; const int n = (int)strlen(pt); const double rw = prop == "C07" ? 0.9 : row[k], len = rw * l * n;   // C07: no pressure
		static const double low[] = {-43, 3, 12001, -12037}; for (int d = 0; d < D; d++) { s.env.min[d] = low[where] * l; s.env.max[d] = (low[where] + 28.5) * l; }
		for (int z = 0; z < n; z++)
		{
			P p; const Vec st = Site(z, n); for (int d = 0; d < D; d++) { p.x[d] = (where % 2 ? s.env.min[d] + 0.3 * l : s.env.max[d] - 0.3 * l - (d == 0 ? len : 0.2 * l)) + rw * l * st[d]; p.u[d] = prop == "C07" ? l * (fast ? 12 : 0.4) * (0.1 * Vel(z, 1, V0())[d] + 0.5 * st[d] / n) : l * (fast ? 12 : 0.4) * (Vel(z, 1, V0())[d] * (fast ? 0.03 : 1) - 0.3 * st[d] / n); }
			p.p = (neg ? -1 : 1) * Pres(z, 1) * l * l; p.n = 0; p.type = pt[z] == 'F' ? F : pt[z] == 'W' ? W : pt[z] == 'D' ? DM : DIS; s.ps.push_back(p);
		}
		s.desc = H::fmt("l0=%g re=%g place=%d dt=%g: ", l, s.env.re, where, s.dt) + Show(s.ps); RunScenario(s, c);
	}});
	// hundreds of particles: systems that need many iterations, columns higher than a thousand pairs
	if (prop != "C08" && prop != "C20" && !(O_DIM == 3 && ql)) f.push_back({"large", th ? 28u : small ? 2u : 7u, [th, small](uint64_t i, H::Ctx& c) {
		const int shape = (int)(i % 7), more = (int)(i / 7); Scenario s; s.env.re = more == 2 ? 3.1 : 2.1; s.env.courant = prop == "C07" ? 0.45 : more & 1 ? 0.3 : 0.1; s.env.g = 9.8; s.env.nu = 0.02; s.env.eps = 1e-9; s.env.maxDt = 0.01; s.dt = 0.004; s.steps = th ? 2 : 1;
		const int w = ((int[]){3, 2, 14, 1, 30, 5, 36})[shape], h = ((int[]){110, 160, 20, 230, 10, 60, 31})[shape] * (th ? 2 : 1); const double sp = (more & 2) ? 0.95 : prop == "C07" && shape % 2 ? 1.25 : 0.86;
		for (int z = 0; z < h; z++) for (int x = 0; x < w; x++)
		{
			P p; p.x = V0(); p.u = V0(); const int k = z * w + x; const Vec jit = Site(k % 6, 3), base = Site(k % 6, 3);
			p.x[0] = sp * x + 0.3 * (jit[0] - (double)(k % 6 % 3)); p.x[D - 1] = sp * z + 0.3 * (base[D - 1] - (double)(k % 6 / 3)); if (D == 3) p.x[1] = 0.2 * ((k * 7) % 5);
			p.type = z == 0 || (shape == 2 && (x == 0 || x == w - 1)) ? (z == 0 && x % 2 ? DM : W) : F; if (p.type == F) { p.u[D - 1] = -0.3 - 0.01 * (k % 7); p.u[0] = 0.02 * (k % 5); } if (prop == "C07" && p.type == F) { p.u[0] = 0.3 * x + 0.02 * (k % 5); p.u[D - 1] = 0.3 * z; } p.p = p.type == F ? 100.0 + k : 50;
			s.ps.push_back(p);
		}
		for (int d = 0; d < D; d++) { s.env.min[d] = -4; s.env.max[d] = (d == D - 1 ? h : w) + 4; }
		s.desc = H::fmt("%dx%d particles, spacing %g", w, h, sp); RunScenario(s, c);
		c.count("large systems");
	}});
#if O_CENTRAL
	// positions in and around the centre of gravity
	f.push_back({"centre", (uint64_t)std::pow(15, D) * 2, [](uint64_t i, H::Ctx& c) {
		static const double q[15] = {0, 1e-9, -1e-9, 0.004, -0.004, 0.0069, -0.0071, 0.0099, -0.0099, 0.0102, -0.0102, 0.3, -0.4, 2.5, -3.5};
		H::Choices ch(i); Scenario s; s.env.g = 9.8; s.env.nu = 0.3; s.dt = 0.01; s.steps = 2; for (int d = 0; d < D; d++) { s.env.min[d] = -6; s.env.max[d] = 6; }
		P p; p.u = V0(); for (int d = 0; d < D; d++) p.x[d] = q[ch(15)];
		s.ps.push_back(p); if (ch(2)) { p.x[0] += 0.9; p.u[D - 1] = 0.7; p.type = W; s.ps.push_back(p); }
		s.desc = "around the centre: " + Show(s.ps); RunScenario(s, c);
	}});
#endif
	// pools with walls and dummies, every single (pair of) site change
	if (!small) pool("pool4", {4, th ? 2 : 1, 5, {0.8, 1.0}, {1, 3, 4}, {0, 1}, {0.005}, cour, 2});
	if (!small) pool("pool6", {6, 1, 5, {0.78, 0.97}, {1, 3, 4}, {0, 1}, {0.005}, cour, th ? 4 : 2});
	else pool("pool3", {3, 1, 5, {0.8}, {1, 3}, {0, 1}, {0.005}, cour, 2});
	return f;
}

int main(int argc, char** argv)
{
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1]; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--lite")) lite = true; else if (!strcmp(argv[i], "--small")) lite = smallest = true;
	return H::Main(argc, argv, Make);
}
