// Scenario alphabets shared by the step-level explorers.
#ifndef SCEN_HPP
#define SCEN_HPP
#include "ref.hpp"

namespace G
{
	using namespace S;
	struct Scenario { Env env; std::vector<P> ps; double dt = 0.01; int steps = 1; std::string desc; double start = 0; };

	// generic (tie-free) site offsets of a 3x3 patch, in units of the spacing
	inline Vec Site(int k, int cols = 3)
	{
		static const double j1[] = {0.0, 0.031, -0.027, 0.044, -0.013, 0.052, -0.041, 0.018, 0.036, -0.022, 0.009, -0.048, 0.057};
		const int cx = k % cols, cz = k / cols;
		Vec v = V0();
		v[0] = cx + j1[(k * 5 + 1) % 13];
		v[D - 1] = cz + j1[(k * 7 + 3) % 13];
		if (D == 3) v[1] = 0.35 * ((k * 3) % 4) + j1[(k * 11 + 2) % 13];
		return v;
	}
	inline Vec Vel(int k, int mode, const Vec& rel)
	{
		static const double q[] = {0.31, -0.47, 0.83, -0.12, 0.59, -0.73, 0.22, 0.67, -0.38, 0.91, -0.85};
		Vec v = V0();
		switch (mode)
		{
		case 0: break;
		case 1: for (int d = 0; d < D; d++) v[d] = 0.8 * q[(k * 3 + 5 * d + 1) % 11]; break;
		case 2: v[0] = 0.4; v[D - 1] = -0.3; break;
		case 3: for (int d = 0; d < D; d++) v[d] = -0.5 * rel[d]; break;                                  // converging
		case 4: for (int d = 0; d < D; d++) v[d] = 0.5 * rel[d] + 0.05 * q[(k * 3 + 5 * d + 1) % 11]; break; // expanding
		}
		return v;
	}
	inline double Pres(int k, int mode) { return mode == 0 ? 0 : 40.0 + 17.0 * ((k * 7 + 2) % 11); }

	// origin of a patch relative to the domain: 0 interior of a bucket, 1 across a bucket corner, 2 at the lower domain corner, 3 near the upper corner
	inline Vec Origin(const Env& e, int mode, double span)
	{
		const double NL = e.re * e.l0 * (1 + 2 * e.courant);
		Vec o;
		for (int d = 0; d < D; d++)
		{
			const double base = e.min[d];
			switch (mode)
			{
			case 0: o[d] = base + NL * 1 + 0.11 * e.l0; break;
			case 1: o[d] = base + NL * 2 - 0.53 * span + 0.017 * d; break;
			case 2: o[d] = base + 0.12 * e.l0; break;
			default: o[d] = e.max[d] - span - 0.13 * e.l0; break;
			}
		}
		return o;
	}

	struct PatchSpec
	{
		int sites, cols, contents;          // contents: alphabet size per site (empty, F, W, DM[, DIS])
		std::vector<double> spacing; std::vector<int> vmode, pmode, origin; std::vector<double> dt, courant, nu, eps, l0, re;
		int steps = 1;
		uint64_t Count() const
		{
			uint64_t n = 1; for (int i = 0; i < sites; i++) n *= contents;
			return n * spacing.size() * vmode.size() * pmode.size() * origin.size() * dt.size() * courant.size() * nu.size() * eps.size() * l0.size() * re.size();
		}
		Scenario Make(uint64_t idx) const
		{
			H::Choices ch(idx); Scenario s;
			std::vector<int> c(sites); for (auto& v : c) v = (int)ch(contents);
			const double sp = spacing[ch(spacing.size())]; const int vm = vmode[ch(vmode.size())], pm = pmode[ch(pmode.size())], om = origin[ch(origin.size())];
			s.dt = dt[ch(dt.size())]; s.env.courant = courant[ch(courant.size())]; s.env.nu = nu[ch(nu.size())]; s.env.eps = eps[ch(eps.size())];
			const double l = l0[ch(l0.size())]; s.env.re = re[ch(re.size())];
			s.env.l0 = l; s.env.g = 9.8 * l; for (int d = 0; d < D; d++) { s.env.min[d] = -2.3 * l; s.env.max[d] = (D == 3 ? 9.1 : 14.1) * l; }
			s.steps = steps;
			const double span = sp * l * (cols - 1);
			const Vec o = Origin(s.env, om, span);
			for (int k = 0; k < sites; k++) if (c[k])
			{
				P p; const Vec st = Site(k, cols); Vec rel;
				for (int d = 0; d < D; d++) { p.x[d] = o[d] + sp * l * st[d] + 0.06 * l; rel[d] = sp * l * (st[d] - 1); }
				p.u = Vel(k, vm, rel); for (auto& v : p.u) v *= (vm >= 3 ? 1 : l);
				p.p = Pres(k, pm) * l * l; p.n = 0; p.type = c[k] == 1 ? F : c[k] == 2 ? W : c[k] == 3 ? DM : DIS;
				s.ps.push_back(p);
			}
			s.desc = H::fmt("spacing=%g vmode=%d pmode=%d origin=%d dt=%g courant=%g nu=%g l0=%g re=%g steps=%d: ", sp, vm, pm, om, s.dt, s.env.courant, s.env.nu, l, s.env.re, steps) + Show(s.ps);
			return s;
		}
	};

	// a pool: m x m fluid sites with a wall row/column and dummies behind it; `mods` sites replaced
	struct PoolSpec
	{
		int m; int mods; int alphabet; std::vector<double> spacing; std::vector<int> vmode, pmode; std::vector<double> dt, courant; int steps = 1;
		int W2() const { return m + 2; }
		uint64_t Count() const
		{
			uint64_t n = 1; for (int i = 0; i < mods; i++) n *= (uint64_t)(W2() * W2()) * alphabet;
			return n * spacing.size() * vmode.size() * pmode.size() * dt.size() * courant.size();
		}
		Scenario Make(uint64_t idx) const
		{
			H::Choices ch(idx); Scenario s;
			const int w = W2();
			std::vector<int> t(w * w);
			for (int k = 0; k < w * w; k++) { const int cx = k % w, cz = k / w; t[k] = (cx == 0 || cz == 0) ? DM : (cx == 1 || cz == 1) ? W : F; }
			for (int i = 0; i < mods; i++) { const int at = (int)ch(w * w); const int to = (int)ch(alphabet); t[at] = to == 0 ? -1 : to == 1 ? F : to == 2 ? W : to == 3 ? DM : DIS; }
			const double sp = spacing[ch(spacing.size())]; const int vm = vmode[ch(vmode.size())], pm = pmode[ch(pmode.size())];
			s.dt = dt[ch(dt.size())]; s.env.courant = courant[ch(courant.size())]; s.env.nu = 0.3; s.env.eps = 1e-10; s.env.l0 = 1; s.steps = steps;
			for (int d = 0; d < D; d++) { s.env.min[d] = -2.3; s.env.max[d] = 12.3; }
			for (int k = 0; k < w * w; k++) if (t[k] >= 0)
			{
				P p; const Vec st = Site(k, w); Vec rel;
				for (int d = 0; d < D; d++) { p.x[d] = -0.7 + sp * (d == 1 && D == 3 ? st[d] : st[d]); rel[d] = sp * (st[d] - w / 2); }
				p.u = t[k] == F ? Vel(k, vm, rel) : V0(); p.p = t[k] == DM ? 0 : Pres(k, pm); p.type = t[k];
				s.ps.push_back(p);
			}
			s.desc = H::fmt("pool m=%d spacing=%g vmode=%d pmode=%d dt=%g courant=%g steps=%d: ", m, sp, vm, pm, s.dt, s.env.courant, steps) + Show(s.ps, 6);
			return s;
		}
	};
}
#endif
