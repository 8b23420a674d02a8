// C25: the regular lattice is the reference state: its constants, its equilibrium, and room for it.
#include "scen.hpp"
using namespace G;

// the sum over the infinite lattice
static void Lattice(double re, double& n0, double& r2)
{
	const int m = (int)std::floor(re) + 2; n0 = r2 = 0;
	for (int i = -m; i <= m; i++) for (int j = -m; j <= m; j++) for (int k = (D == 3 ? -m : 0); k <= (D == 3 ? m : 0); k++)
	{
		const double q = std::sqrt((double)(i * i + j * j + k * k));
		if (q > 0 && q < re) { n0 += re / q - 1; r2 += q * q * (re / q - 1); }
	}
}
// influence radii: a fine grid, and close to every shell of the lattice
static std::vector<double> Radii(double hi, double stepw)
{
	std::vector<double> v; for (double r = 1.02; r <= hi; r += stepw) v.push_back(r);
	for (int q = 2; (double)q <= hi * hi; q++) for (double d : {0.0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3}) v.push_back(std::sqrt((double)q) + d);
	return v;
}

static std::vector<H::Family> Fams(bool th)
{
	std::vector<H::Family> f;
	const std::vector<double> l0s{1, 0.1, 0.3, 1e-3, 7e-6, 0.75, 12.5, 1e4};
	const auto radii = Radii(D == 3 ? 5 : 9, th ? 0.001 : 0.01);
	f.push_back({"constants", radii.size() * l0s.size(), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); Env e; e.re = radii[ch(radii.size())]; e.l0 = l0s[ch(l0s.size())]; for (int d = 0; d < D; d++) { e.min[d] = -e.l0; e.max[d] = e.l0; }
		c.desc = H::fmt("influence radius %.17g particle distance %.17g", e.re, e.l0); c.interesting(); c.transitions++;
		double n0, r2; Lattice(e.re, n0, r2); const auto env = OpenMps::MakeEnv(e);
		H::Hash h; h.d(e.re); h.d(e.l0); c.state(h); H::Hash o; o.d(env.N0()); c.outcome(o);
		if (!c.near(env.N0(), n0, 1e-9 * n0 + 1e-11, "reference density")) return;
#if !O_HL
		if (!c.near(env.Lambda(), r2 / n0 * e.l0 * e.l0, (1e-9 + 1e-11 / n0) * e.l0 * e.l0 * r2 / n0, "lambda of the Laplacian")) return;
#endif
	}});
	// limits of a step
	const std::vector<double> al{0.01, 3, 1e-5, 250}, co{0.02, 0.1, 0.3, 0.45}, gs{0, 1e-6, 1.7, 9.8, 4e4};
	f.push_back({"limits", al.size() * co.size() * gs.size() * l0s.size(), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); Env e; e.maxDt = al[ch(al.size())]; e.courant = co[ch(co.size())]; e.g = gs[ch(gs.size())]; e.l0 = l0s[ch(l0s.size())]; e.nu = 0.003; e.rho = 870; e.c = 1 + e.g; for (int d = 0; d < D; d++) { e.min[d] = -e.l0 * (d + 1); e.max[d] = e.l0 * (d + 3); }
		c.desc = H::fmt("maxDt %g courant %g g %g l0 %g", e.maxDt, e.courant, e.g, e.l0); c.interesting(); c.transitions++;
		const auto env = OpenMps::MakeEnv(e); H::Hash h; h.d(e.maxDt); h.d(e.courant); h.d(e.g); h.d(e.l0); c.state(h); H::Hash o; o.d(env.MaxDt); o.d(env.MaxDx); c.outcome(o);
#if O_EXPL
		const double lim = e.courant * e.l0 / e.c;
#else
		const double lim = e.g > 0 ? std::sqrt(2 * e.courant * e.l0 / e.g) : e.maxDt;
#endif
		if (!c.near(env.MaxDt, std::min(e.maxDt, lim), 1e-12 * e.maxDt, "longest step")) return;
		if (!c.near(env.MaxDx, e.courant * e.l0, 1e-12 * e.l0, "longest move in a step")) return;
		if (!c.near(env.R_e, e.re * e.l0, 1e-12 * e.l0, "influence radius")) return;
		if (!c.expect(env.NeighborLength >= env.R_e, "neighbours within the influence radius are not kept")) return;
		const auto g = env.G; for (int d = 0; d < D; d++) if (!c.near(g[d], d == D - 1 ? -e.g : 0, 0, "gravity")) return;
		if (!c.expect(env.Rho == e.rho && env.Nu == e.nu && env.L_0 == e.l0 && env.T() == 0, "parameters")) return;
		for (int d = 0; d < D; d++) if (!c.expect(env.MinX[d] == e.min[d] && env.MaxX[d] == e.max[d], "domain")) return;
	}});
	// blocks of the lattice of every size, offset and common velocity: same density inside, nobody moves against the others
	const std::vector<double> res = D == 3 ? (th ? std::vector<double>{1.3, 1.9, 2.1, 2.4, 3.1} : std::vector<double>{1.3, 2.1, 2.4}) : th ? std::vector<double>{1.05, 1.3, 1.7, 1.9, 2.1, 2.4, 2.6, 2.9, 3.1, 3.3, 3.7, 4.1, 4.3, 5.1} : std::vector<double>{1.05, 1.3, 1.7, 1.9, 2.1, 2.4, 2.9, 3.1, 3.3, 4.1};
	const std::vector<double> ls{1, 0.004, 30}, offs{0, 0.5, 0.25, 0.999, 0.37};
	f.push_back({"block", res.size() * ls.size() * co.size() * offs.size() * 5 * 4 * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); Env e; e.re = res[ch(res.size())]; e.l0 = ls[ch(ls.size())]; e.courant = co[ch(co.size())]; const double off = offs[ch(offs.size())]; const int size = (int)ch(5), kind = (int)ch(4), vel = (int)ch(3);
		e.g = 0; e.nu = 0.01 * e.l0; e.c = 10 * e.l0; const int r = (int)std::ceil(e.re), n = size == 0 ? 2 * r + 1 : size == 1 ? 2 * r + 2 : size == 2 ? r + 2 : size == 3 ? 2 : 1;
		for (int d = 0; d < D; d++) { e.min[d] = -3 * e.l0; e.max[d] = (n + 3) * e.l0; }
		std::vector<P> ps; Vec u = V0(); if (vel) for (int d = 0; d < D; d++) u[d] = (vel == 1 ? 0.3 : -0.8) * (d + 1) * e.l0;
		const int nx = size == 2 ? n + 3 : n, ny = D == 3 ? (size == 2 ? 2 : n) : 1;
		for (int z = 0; z < n; z++) for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++)
		{
			P p; p.x = V0(); p.x[0] = e.l0 * (x + off); if (D == 3) p.x[1] = e.l0 * (y + off); p.x[D - 1] = e.l0 * (z + off); p.u = u;
			const bool edge = x == 0 || z == 0 || x == nx - 1 || z == n - 1 || (D == 3 && (y == 0 || y == ny - 1));
			p.type = F; if (kind == 1 && edge) p.type = W; if (kind == 2 && edge) p.type = z == 0 ? DM : W; if (kind == 3 && (x + z) % 2) p.type = W;
			ps.push_back(p);
		}
		if (kind && vel) return;     // walls are driven by their positions
		c.desc = H::fmt("%dx%dx%d lattice re=%g l0=%g courant=%g offset=%g kind=%d velocity=%d", nx, ny, n, e.re, e.l0, e.courant, off, kind, vel); c.interesting();
		double n0, r2; Lattice(e.re, n0, r2);
		Sim s(e); s.Add(ps); H::Hash h; HashState(h, ps); h.d(e.re); c.state(h);
		double t = 0; const double tol = 1e-9;
		for (int k = 0; k < 3; k++)
		{
			const double dt = k == 1 ? 0.002 : 0.01; if (!c.expect(s.Step(dt), "a step of a regular lattice failed")) return; c.transitions++; t += dt;
			const auto now = s.Get();
			for (std::size_t q = 0; q < ps.size(); q++)
			{
				if (!c.expect(now[q].type == ps[q].type, H::fmt("particle %zu changed its type", q))) return;
				for (int d = 0; d < D; d++)
				{
					if (!c.near(now[q].x[d], ps[q].x[d] + u[d] * t, tol * e.l0 * (e.re + n), H::fmt("step %d: position %d of particle %zu", k, d, q))) return;
					if (!c.near(now[q].u[d], u[d], 1e-7 * e.l0, H::fmt("step %d: velocity %d of particle %zu", k, d, q))) return;
				}
				// density of a particle that is surrounded up to the influence radius
				bool inside = true; int at[3] = {(int)(q % nx), D == 3 ? (int)(q / nx % ny) : 0, (int)(q / nx / ny)};
				if (at[0] < r || at[0] >= nx - r || at[2] < r || at[2] >= n - r || (D == 3 && (at[1] < r || at[1] >= ny - r))) inside = false;
				if (inside) { c.count("surrounded particles"); if (!c.near(now[q].n, n0, 1e-8 * n0, H::fmt("step %d: density of surrounded particle %zu", k, q))) return; }
				H::Hash o; o.d(std::round(now[q].n * 1e6)); c.outcome(o);
			}
		}
	}});
	return f;
}
int main(int argc, char** argv) { return H::Main(argc, argv, Fams); }
