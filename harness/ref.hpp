// Reference model of the MPS scheme: O(n^2), dense, no grid, no sparse matrix, no parallelism.
// It follows the formulas documented in defines.hpp / the code comments (Koshizuka; Khayyer & Gotoh; Tsuruta).
// `tie` is set when a discrete decision of the scheme lies within rounding distance of its threshold: there the
// scheme itself is ambiguous and nothing is compared.
#ifndef REF_HPP
#define REF_HPP
#include "sim.hpp"

namespace R
{
	using S::D; using S::Vec; using S::P; using S::V0;

	inline Vec operator+(const Vec& a, const Vec& b) { Vec r; for (int d = 0; d < D; d++) r[d] = a[d] + b[d]; return r; }
	inline Vec operator-(const Vec& a, const Vec& b) { Vec r; for (int d = 0; d < D; d++) r[d] = a[d] - b[d]; return r; }
	inline Vec operator*(double k, const Vec& a) { Vec r; for (int d = 0; d < D; d++) r[d] = k * a[d]; return r; }
	inline double dot(const Vec& a, const Vec& b) { double s = 0; for (int d = 0; d < D; d++) s += a[d] * b[d]; return s; }
	inline double len(const Vec& a) { return std::sqrt(dot(a, a)); }

	struct Const
	{
		double re, NL, n0 = 0, lambda = 0, maxDt, maxDx, l0, nu, rho, c, surf; Vec g, min, max;
		explicit Const(const S::Env& e)
		{
			l0 = e.l0; re = e.re * e.l0; NL = e.re * e.l0 * (1 + 2 * e.courant); nu = e.nu; rho = e.rho; c = e.c; surf = e.surfaceRatio;
			maxDx = e.courant * e.l0; min = e.min; max = e.max;
			g = V0(); g[D - 1] = -e.g;
#if O_EXPL
			maxDt = std::min(e.maxDt, e.courant * e.l0 / e.c);
#else
			maxDt = std::min(e.maxDt, std::sqrt(2 * e.courant * e.l0 / e.g));
#endif
			// infinite regular lattice of spacing l0 around the origin
			const int m = (int)std::ceil(e.re) + 2;
			for (int i = -m; i <= m; i++) for (int j = -m; j <= m; j++) for (int k = (D == 3 ? -m : 0); k <= (D == 3 ? m : 0); k++)
			{
				const double r = l0 * std::sqrt((double)(i * i + j * j + k * k));
				if ((i || j || k) && r < re) { n0 += re / r - 1; lambda += r * r * (re / r - 1); }
			}
			lambda /= n0;
		}
		double w(double r) const { return r > 0 && r < re ? re / r - 1 : 0; }
	};

	inline bool alive(const P& p) { return p.type != S::DIS; }
	inline bool active(const P& p) { return p.type != S::DIS && p.type != S::DM; }
	inline bool nearEq(double a, double b, double rel = 1e-9) { return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)); }

	struct Nb { Vec x, u; double p, n; int type; long id; };

	struct Step
	{
		Const K;
		std::vector<P> s;                 // evolving state
		std::vector<std::vector<std::size_t>> nb;
		std::vector<double> raw, ecs;     // density without virtual particles, error correction
		bool tie = false, tooMany = false, unsolvable = false, closed = false, noise = false, illcond = false;
		double minR = 1e300;              // closest pair seen
		std::vector<Vec> acc;             // explicit acceleration
		std::vector<Vec> x0;              // positions before the pressure stage
		std::vector<std::vector<double>> A; std::vector<double> b, x, xini;
		std::vector<Vec> dGrad, dDs;      // velocity corrections
		bool nearWallDs = false; int dsPairs = 0; int sppUsed = 0, fullDensity = 0;

		explicit Step(const S::Env& e, const std::vector<P>& init) : K(e), s(init) {}

		std::vector<Nb> List(std::size_t i)
		{
			std::vector<Nb> r; Vec dxg = V0();
			for (auto j : nb[i])
			{
				const Vec dx = s[j].x - s[i].x; const double d = len(dx);
				minR = std::min(minR, d);
				if (nearEq(d, K.re)) tie = true;
				if (d < K.re)
				{
					r.push_back(Nb{s[j].x, s[j].u, s[j].p, s[j].n, s[j].type, (long)j});
					dxg = dxg + K.w(d) * dx;
				}
			}
#if O_SPP
			if (!raw.empty() && raw[i] < K.n0)
			{
				dxg = (1 / K.n0) * dxg;
				const double rg = len(dxg);
				if (rg > 1e-18 * K.l0 && rg < 1e-11 * K.l0) tie = true;
				if (rg > 2.220446049250313e-16 * K.l0)
				{
					const double rs = K.re / (K.n0 - raw[i] + 1);
					r.push_back(Nb{s[i].x - (rs / rg) * dxg, s[i].u, 0, 0, S::F, -1});
					sppUsed++;
				}
			}
#endif
			return r;
		}

		bool Surface(double n)
		{
#if O_SPP
			(void)n; return false;
#else
			if (nearEq(n / K.n0, K.surf)) tie = true;
			return n / K.n0 < K.surf;
#endif
		}

		// particles outside the search grid are dropped
		void Drop()
		{
			for (auto& p : s) if (alive(p))
			{
				bool in = true;
				for (int d = 0; d < D; d++)
				{
					const double q = (p.x[d] - K.min[d]) / K.NL; const double nbk = std::ceil((K.max[d] - K.min[d]) / K.NL) + 2;
					if (std::abs(q) < 1e-12 || std::abs(q - nbk) < 1e-9) { if (q != 0) tie = true; }
					if (!(q >= 0 && q < nbk)) in = false;
				}
				if (!in) p.type = S::DIS;
			}
		}

		std::size_t Capacity() const { const auto m = (std::size_t)std::ceil(K.NL / K.l0) + 1; return D == 3 ? m * m * m : m * m; }

		void Search()
		{
			Drop();
			nb.assign(s.size(), {});
			std::map<std::array<long, 3>, std::size_t> cnt;
			for (auto& p : s) if (alive(p))
			{
				std::array<long, 3> k{0, 0, 0};
				for (int d = 0; d < D; d++) k[d] = (long)std::floor((p.x[d] - K.min[d]) / K.NL);
				if (++cnt[k] > Capacity()) tooMany = true;
			}
			for (std::size_t i = 0; i < s.size(); i++) if (alive(s[i]))
				for (std::size_t j = 0; j < s.size(); j++) if (j != i && alive(s[j]))
				{
					const double d = len(s[j].x - s[i].x);
					if (nearEq(d, K.NL)) tie = true;
					if (d < K.NL) nb[i].push_back(j);
				}
		}

		void Density()
		{
			std::vector<double> nr(s.size(), K.n0);
			for (std::size_t i = 0; i < s.size(); i++) if (active(s[i]))
			{
				double n = 0;
				for (auto j : nb[i])
				{
					const double d = len(s[j].x - s[i].x); minR = std::min(minR, d);
					if (nearEq(d, K.re)) tie = true;
					n += K.w(d);
				}
				nr[i] = n;
#if O_SPP
				if (nearEq(n, K.n0)) tie = true;
				if (n >= K.n0) fullDensity++;
				s[i].n = std::max(n, K.n0);
#else
				s[i].n = n;
#endif
			}
			raw = nr;
		}

		double Speed(std::size_t i, double dt)
		{
#if O_HS
			(void)dt;
#if O_SPP
			if (raw[i] < K.n0) return 0;
#endif
			double v = 0;
			for (auto& q : List(i))
			{
				const Vec dx = q.x - s[i].x; const double r = len(dx);
				v += dot(dx, q.u - s[i].u) / (r * r * r);
			}
			return -K.re * v;
#else
			return (s[i].n - K.n0) / dt;
#endif
		}

		void Ecs(double dt)
		{
			ecs.assign(s.size(), 0);
			for (std::size_t i = 0; i < s.size(); i++) if (active(s[i]))
			{
				const double v = Speed(i, dt), e = (s[i].n - K.n0) / K.n0;
				ecs[i] = std::abs(e) * v + std::abs(v) * e;
			}
		}

		double Lap(double r) const
		{
#if O_HL
			return (5.0 - D) * K.re / K.n0 / (r * r * r);
#else
			return 2.0 * D / K.lambda / K.n0 * K.w(r);
#endif
		}

		// gravity + viscosity for fluid, prescribed motion for everything else
		void Explicit(double t, double dt, const std::function<Vec(std::size_t, double, double)>& wall)
		{
			acc.assign(s.size(), V0());
			for (std::size_t i = 0; i < s.size(); i++) if (s[i].type == S::F)
			{
				Vec a = V0();
				for (auto& q : List(i)) if (q.type != S::DM) a = a + (K.nu * Lap(len(q.x - s[i].x))) * (q.u - s[i].u);
#if O_CENTRAL
				// towards the origin, except in its immediate vicinity
				const double r = len(s[i].x);
				if (nearEq(r, 0.01 * K.l0)) tie = true;
				acc[i] = r < 0.01 * K.l0 ? a : a + (K.g[D - 1] / r) * s[i].x;
#else
				acc[i] = a + K.g;
#endif
			}
			for (std::size_t i = 0; i < s.size(); i++)
			{
				if (s[i].type == S::F) { s[i].u = s[i].u + dt * acc[i]; s[i].x = s[i].x + dt * s[i].u; }
				else { const Vec x = wall(i, t, dt); s[i].u = (1 / dt) * (x - s[i].x); s[i].x = x; }
			}
		}

		void Assemble(double dt)
		{
			const auto n = s.size();
			A.assign(n, std::vector<double>(n, 0)); b.assign(n, 0); xini.assign(n, 0);
			for (std::size_t i = 0; i < n; i++)
			{
				if (!active(s[i]) || Surface(s[i].n)) { A[i][i] = 1; continue; }
				b[i] = -K.rho / (K.n0 * dt) * (Speed(i, dt) + (ecs.empty() ? 0 : ecs[i]));
				xini[i] = s[i].p;
				for (auto& q : List(i)) if (q.type != S::DM)
				{
					const double a = Lap(len(q.x - s[i].x));
					A[i][i] -= a;
					if (q.id >= 0 && !Surface(q.n)) A[i][q.id] += a;
				}
			}
		}

		// A group of particles coupled to each other but to nothing that fixes the pressure (no free surface, no virtual
		// particle) determines its pressures only up to a constant: solvable iff its source terms sum to zero.
		void Closed()
		{
			const auto n = s.size();
			std::vector<std::size_t> comp(n); for (std::size_t i = 0; i < n; i++) comp[i] = i;
			for (bool again = true; again;) { again = false; for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) if (A[i][j] != 0 && comp[i] != comp[j]) { const auto m = std::min(comp[i], comp[j]); comp[i] = comp[j] = m; again = true; } }
			for (std::size_t g = 0; g < n; g++)
			{
				double loose = 0, amax = 0, sum = 0, abs = 0; bool any = false;
				for (std::size_t i = 0; i < n; i++) if (comp[i] == g)
				{
					any = true; double row = 0;
					for (std::size_t j = 0; j < n; j++) { row += A[i][j]; amax = std::max(amax, std::abs(A[i][j])); }
					loose = std::max(loose, std::abs(row)); sum += b[i]; abs += std::abs(b[i]);
				}
				if (!any) continue;
				if (amax == 0) { if (abs > 0) unsolvable = true; closed = true; continue; }
				if (loose > 1e-6 * amax) continue;
				if (loose > 1e-13 * amax) { illcond = true; continue; }
				closed = true;
				if (std::abs(sum) > 1e-3 * abs) unsolvable = true; else illcond = true;
			}
		}

		// condition number (infinity norm) of the coupled block of the system
		double Condition() const
		{
			std::vector<std::size_t> id; for (std::size_t i = 0; i < s.size(); i++) if (active(s[i])) id.push_back(i);
			const auto n = id.size(); std::vector<std::vector<double>> M(n, std::vector<double>(2 * n, 0)); double an = 0, in = 0;
			for (std::size_t i = 0; i < n; i++) { double row = 0; for (std::size_t j = 0; j < n; j++) { M[i][j] = A[id[i]][id[j]]; row += std::abs(M[i][j]); } an = std::max(an, row); M[i][n + i] = 1; }
			for (std::size_t k = 0; k < n; k++)
			{
				std::size_t pi = k; for (std::size_t i = k; i < n; i++) if (std::abs(M[i][k]) > std::abs(M[pi][k])) pi = i;
				std::swap(M[k], M[pi]); if (M[k][k] == 0) return 1e300;
				for (std::size_t i = 0; i < n; i++) if (i != k) { const double f = M[i][k] / M[k][k]; if (f != 0) for (std::size_t j = k; j < 2 * n; j++) M[i][j] -= f * M[k][j]; }
			}
			for (std::size_t i = 0; i < n; i++) { double row = 0; for (std::size_t j = 0; j < n; j++) row += std::abs(M[i][n + j] / M[i][i]); in = std::max(in, row); }
			return an * in;
		}

		// dense solve of A (x - xini) = b - A xini by Gaussian elimination with complete pivoting
		void Solve()
		{
			const auto n = s.size();
			std::vector<std::vector<double>> M = A; std::vector<double> r(n), y(n, 0);
			double bn = 0, an = 0, rmax = 0;
			for (std::size_t i = 0; i < n; i++)
			{
				r[i] = b[i]; bn = std::max(bn, std::abs(b[i]));
				for (std::size_t j = 0; j < n; j++) { r[i] -= A[i][j] * xini[j]; an = std::max(an, std::abs(A[i][j])); bn = std::max(bn, std::abs(A[i][j] * xini[j])); }
			}
			for (auto v : r) rmax = std::max(rmax, std::abs(v));
			x = xini;
			if (rmax == 0) return;
			if (rmax < 1e-9 * bn) { illcond = noise = true; }   // right-hand side is rounding noise
			Closed(); if (unsolvable) return;
			std::vector<std::size_t> col(n); for (std::size_t i = 0; i < n; i++) col[i] = i;
			double pmax = 0; std::size_t rank = n;
			for (std::size_t k = 0; k < n; k++)
			{
				std::size_t pi = k, pj = k; double best = -1;
				for (std::size_t i = k; i < n; i++) for (std::size_t j = k; j < n; j++) if (std::abs(M[i][j]) > best) { best = std::abs(M[i][j]); pi = i; pj = j; }
				if (k == 0) pmax = best;
				if (best <= 1e-12 * pmax) { rank = k; break; }
				if (best <= 1e-6 * pmax) illcond = true;
				std::swap(M[k], M[pi]); std::swap(r[k], r[pi]);
				for (auto& row : M) std::swap(row[k], row[pj]);
				std::swap(col[k], col[pj]);
				for (std::size_t i = k + 1; i < n; i++)
				{
					const double f = M[i][k] / M[k][k]; if (f == 0) continue;
					for (std::size_t j = k; j < n; j++) M[i][j] -= f * M[k][j];
					r[i] -= f * r[k];
				}
			}
			if (rank < n)
			{
				illcond = true; return; // solvable but not unique: not compared by value
			}
			for (std::size_t k = n; k-- > 0;)
			{
				double v = r[k]; for (std::size_t j = k + 1; j < n; j++) v -= M[k][j] * y[j];
				y[k] = v / M[k][k];
			}
			for (std::size_t k = 0; k < n; k++) x[col[k]] = xini[col[k]] + y[k];
		}

		void Pressure(const std::vector<double>* given)
		{
#if O_EXPL
			(void)given;
			for (auto& p : s)
			{
				const double r = K.rho / K.n0 * p.n;
				p.p = r <= K.rho ? 0 : K.c * K.c * (r - K.rho);
			}
#else
			for (std::size_t i = 0; i < s.size(); i++) if (active(s[i]))
			{
				if (given) s[i].p = (*given)[i];
				else s[i].p = (x[i] < 0 || Surface(s[i].n)) ? 0 : x[i];
			}
#endif
		}

		void Gradient(double dt)
		{
			dGrad.assign(s.size(), V0());
			for (std::size_t i = 0; i < s.size(); i++) if (s[i].type == S::F)
			{
				const auto L = List(i);
#if O_GC
				double C[D][D] = {}, I[D][D] = {};
				for (auto& q : L)
				{
					const Vec dx = q.x - s[i].x; const double r2 = dot(dx, dx);
					for (int a = 0; a < D; a++) for (int c = 0; c < D; c++) C[a][c] += K.w(std::sqrt(r2)) / r2 * dx[a] * dx[c];
				}
				double scale = 0; const double det = Invert(C, I, scale);
				const double rel = scale > 0 ? std::abs(det) / scale : 0;
				if (rel < 4e-15)
				{
					// singular (to rounding): the plain gradient
					for (int a = 0; a < D; a++) for (int c = 0; c < D; c++) I[a][c] = (a == c) ? D / K.n0 : 0;
					if (scale > 0) gcSingular = true;
				}
				else if (rel < 1e-5) tie = true;
				Vec sum = V0();
				for (auto& q : L) if (q.type != S::DM)
				{
					const Vec dx = q.x - s[i].x; const double r2 = dot(dx, dx); Vec cd = V0();
					for (int a = 0; a < D; a++) for (int c = 0; c < D; c++) cd[a] += I[a][c] * dx[c];
					sum = sum + ((q.p + s[i].p) / r2 * K.w(std::sqrt(r2))) * cd;
				}
				dGrad[i] = (-dt * s[i].n / (K.rho * K.n0)) * sum;
#else
				Vec sum = V0();
				for (auto& q : L) if (q.type != S::DM)
				{
					const Vec dx = q.x - s[i].x; const double r2 = dot(dx, dx);
					sum = sum + ((q.p + s[i].p) / r2 * K.w(std::sqrt(r2))) * dx;
				}
				dGrad[i] = (-dt / K.rho * D / K.n0) * sum;
#endif
			}
			for (std::size_t i = 0; i < s.size(); i++) if (s[i].type == S::F) { s[i].u = s[i].u + dGrad[i]; s[i].x = s[i].x + dt * dGrad[i]; }
		}
		bool gcSingular = false;

		// scale: sum of the magnitudes of the terms of the determinant
		static double Invert(double (&C)[D][D], double (&I)[D][D], double& scale)
		{
#if O_DIM == 3
			const auto m = [&](int a, int c) { const int a1 = (a + 1) % 3, a2 = (a + 2) % 3, c1 = (c + 1) % 3, c2 = (c + 2) % 3; return C[a1][c1] * C[a2][c2] - C[a1][c2] * C[a2][c1]; };
			const double det = C[0][0] * m(0, 0) + C[0][1] * m(0, 1) + C[0][2] * m(0, 2);
			for (int a = 0; a < 3; a++) { scale += std::abs(C[0][a] * C[1][(a + 1) % 3] * C[2][(a + 2) % 3]) + std::abs(C[0][a] * C[1][(a + 2) % 3] * C[2][(a + 1) % 3]); }
			for (int a = 0; a < 3; a++) for (int c = 0; c < 3; c++) I[c][a] = m(a, c) / det;
			return det;
#else
			const double det = C[0][0] * C[1][1] - C[0][1] * C[1][0];
			scale = std::abs(C[0][0] * C[1][1]) + std::abs(C[0][1] * C[1][0]);
			I[0][0] = C[1][1] / det; I[1][1] = C[0][0] / det; I[0][1] = -C[0][1] / det; I[1][0] = -C[1][0] / det;
			return det;
#endif
		}

		void Stabilize(double dt)
		{
			dDs.assign(s.size(), V0());
#if O_DS
			const double d0 = K.l0 - K.maxDx;
			for (std::size_t i = 0; i < s.size(); i++) if (s[i].type == S::F)
			{
				Vec sum = V0();
				for (auto j : nb[i]) if (s[j].type != S::DM)
				{
					const Vec dx = s[j].x - s[i].x; const double r = len(dx);
					if (nearEq(r, d0)) tie = true;
					if (r < d0 && r < K.re)
					{
						const Vec o = x0[j] - x0[i]; const Vec e = (1 / len(o)) * o;
						const double par = dot(dx, e); const Vec perp = dx - par * e;
						sum = sum + (std::sqrt(d0 * d0 - dot(perp, perp)) - par) * e;
						dsPairs++;
					}
				}
				dDs[i] = (-1 / (2 * dt * K.n0)) * sum;
			}
			for (std::size_t i = 0; i < s.size(); i++) if (s[i].type == S::F) { s[i].u = s[i].u + dDs[i]; s[i].x = s[i].x + dt * dDs[i]; }
#else
			(void)dt;
#endif
		}

		// Everything before the pressure is known
		void Before(double t, double dt, const std::function<Vec(std::size_t, double, double)>& wall)
		{
			Search(); if (tooMany) return;
			Density();
#if O_ECS
			Ecs(dt);
#endif
			Explicit(t, dt, wall);
			Density();
			x0.resize(s.size()); for (std::size_t i = 0; i < s.size(); i++) x0[i] = s[i].x;
#if !O_EXPL
			Assemble(dt);
#endif
		}
		void After(double dt, const std::vector<double>* givenP)
		{
			Pressure(givenP);
			Gradient(dt);
			Stabilize(dt);
		}
	};
}
#endif
