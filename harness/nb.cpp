// C01: neighbour search against brute force, for every placement of few particles on an alphabet of border
// coordinates, for crowded placements, and after histories of earlier placements.
#include "scen.hpp"
using namespace S;
using OpenMps::Acc;

static Env MakeE(int shape, double l0, double courant, double re)
{
	Env e; e.l0 = l0; e.courant = courant; e.re = re; e.g = 9.8 * l0;
	const double NL = re * l0 * (1 + 2 * courant);
	static const double org[4][3] = {{0, 0, 0}, {-3.7, 1.3, -2.9}, {-11.25, -7.5, 0.6}, {5, 20, -30}};
	static const double ext[4][3] = {{2, 2, 2}, {2.3, 0.8, 1.6}, {0.6, 3.1, 2.2}, {1.6, 1.2, 1.3}};
	for (int d = 0; d < D; d++)
	{
		const int q = D == 2 && d == 1 ? 2 : d;
		e.min[d] = org[shape][q] * l0; e.max[d] = e.min[d] + ext[shape][q] * NL;
	}
	return e;
}

// coordinates around every bucket border of an axis, in the domain and beyond
static std::vector<double> Coords(const Env& e, int d, int level)
{
	const double NL = e.re * e.l0 * (1 + 2 * e.courant);
	std::vector<double> r;
	const double lo = e.min[d], hi = e.max[d];
	for (int b = 0; ; b++)
	{
		const double x = lo + b * NL;
		if (x > hi) break;
		r.push_back(x);
		if (level > 0) { r.push_back(std::nextafter(x, 1e300)); if (b) r.push_back(std::nextafter(x, -1e300)); }
		if (level > 1) { r.push_back(x + 0.017 * NL); if (b) r.push_back(x - 0.013 * NL); }
		if (x + 0.47 * NL < hi) r.push_back(x + 0.47 * NL);
	}
	r.push_back(hi);
	if (level > 0) { r.push_back(std::nextafter(hi, -1e300)); r.push_back(lo - 0.1 * NL); }
	return r;
}

// searches and compares; returns false on a mismatch
static bool Compare(Sim& sim, H::Ctx& c, const char* when)
{
	const auto before = sim.Get();
	const Env& e = sim.env;
	const double NL = e.re * e.l0 * (1 + 2 * e.courant);
	// an overfull block is a legitimate refusal: decide whether it must / must not happen
	Acc::Search(sim.c); c.transitions++;
	const auto ps = sim.Get();
	std::size_t pairs = 0;
	for (std::size_t i = 0; i < ps.size(); i++)
	{
		// particles inside the domain stay, particles far outside go
		bool in = true, out = false;
		for (int d = 0; d < D; d++)
		{
			if (!(ps[i].x[d] >= e.min[d] && ps[i].x[d] <= e.max[d])) in = false;
			if (ps[i].x[d] < e.min[d] - 1e-9 * e.l0 || ps[i].x[d] > e.max[d] + 3.1 * NL) out = true;
		}
		if (before[i].type == DIS) { if (!c.expect(ps[i].type == DIS, H::fmt("%s: removed particle %zu came back", when, i))) return false; }
		else if (in) { if (!c.expect(ps[i].type == before[i].type, H::fmt("%s: particle %zu inside the domain was removed", when, i))) return false; }
		else if (out) { if (!c.expect(ps[i].type == DIS, H::fmt("%s: particle %zu outside the domain was not removed", when, i))) return false; }
	}
	for (std::size_t i = 0; i < ps.size(); i++) if (ps[i].type != DIS)
	{
		std::multiset<std::size_t> got;
		const auto n = Acc::Count(sim.c, i);
		if (!c.expect(n <= ps.size(), H::fmt("%s: particle %zu has %zu neighbours of %zu particles", when, i, (size_t)n, ps.size()))) return false;
		for (std::size_t k = 0; k < n; k++) got.insert(Acc::Nb(sim.c, i, k));
		for (std::size_t j = 0; j < ps.size(); j++)
		{
			const double r = R::len(R::operator-(ps[j].x, ps[i].x));
			const bool amb = j != i && ps[j].type != DIS && R::nearEq(r, NL);
			const std::size_t want = (j != i && ps[j].type != DIS && r < NL) ? 1 : 0;
			const auto g = got.count(j);
			if (want && !amb) pairs++;
			if (amb ? g > 1 : g != want)
				return c.fail(H::fmt("%s: particle %zu lists particle %zu (distance %.17g, search distance %.17g) %zu times instead of %zu", when, i, j, r, NL, (size_t)g, (size_t)want));
			got.erase(j);
		}
		if (!got.empty()) return c.fail(H::fmt("%s: particle %zu lists unknown particle %zu", when, i, *got.begin()));
	}
	if (pairs) c.interesting();
	H::Hash h; h.u(pairs); for (auto& p : ps) h.u(p.type); for (std::size_t i = 0; i < ps.size(); i++) if (ps[i].type != DIS) { h.u(Acc::Count(sim.c, i)); }
	c.outcome(h);
	H::Hash s; HashState(s, ps); c.state(s);
	return true;
}

static const double courants[] = {0.1, 0.45, 0.0, 0.6, 0.1}; static const double res[] = {2.4, 1.5, 3.1, 4.1, 1.5}; static const double l0s[] = {1.0, 0.01, 7.0, 0.001, 50.0};
// the last shape and the last parameters go together
static bool Used(int shape, int par) { return (shape == 3) == (par >= 3); }

static std::vector<Vec> Points(const Env& e, int level)
{
	std::vector<std::vector<double>> ax; for (int d = 0; d < D; d++) ax.push_back(Coords(e, d, level));
	std::vector<Vec> r; Vec v;
	for (double a : ax[0]) for (double b : ax[1])
	{
		v[0] = a; v[1] = b;
		if (D == 2) r.push_back(v); else for (double z : ax[D - 1]) { v[D - 1] = z; r.push_back(v); }
	}
	return r;
}

static std::vector<H::Family> Make(bool th)
{
	std::vector<H::Family> f;
	const auto mk = [](int type, const Vec& x) { P p; p.x = x; p.u = V0(); p.type = type; return p; };
	for (int shape = 0; shape < 4; shape++) for (int par = 0; par < 5; par++) if (Used(shape, par))
	{
		const Env e = MakeE(shape, l0s[par], courants[par], res[par]);
		// every pair of border points
		{
			const int level = D == 3 ? (th ? 1 : 0) : (th ? 2 : par == shape ? 2 : 1);
			if (D == 3 && !th && par != shape) continue;
			const auto pts = Points(e, level); const uint64_t n = pts.size();
			f.push_back({H::fmt("pair-s%d-p%d", shape, par), n * n, [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); const auto a = pts[ch(n)], b = pts[ch(n)];
				const int types[][2] = {{F, F}, {F, W}, {DM, F}, {W, DM}};
				const auto& t = types[i % 4];
				Sim sim(e); sim.Add({mk(t[0], a), mk(t[1], b)});
				c.desc = H::fmt("shape=%d l0=%g courant=%g re=%g ", shape, e.l0, e.courant, e.re) + Show(sim.Get());
				Compare(sim, c, "search");
			}});
		}
		// every particle moved across every border point, with bystanders: histories of two and three searches
		{
			const auto pts = Points(e, D == 3 ? 0 : 0); const uint64_t n = pts.size();
			if (D == 3 && par != 0) continue;
			f.push_back({H::fmt("move-s%d-p%d", shape, par), n * n * (D == 3 ? 1 : 4), [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); const auto a = pts[ch(n)], b = pts[ch(n)]; const int w = (int)ch(D == 3 ? 1 : 4);
				Sim sim(e); Vec m = e.min; for (int d = 0; d < D; d++) m[d] = e.min[d] + (0.1 + 0.26 * w) * (e.max[d] - e.min[d]);
				sim.Add({mk(F, a), mk(w == 1 ? DIS : W, m), mk(DM, a)});
				c.desc = H::fmt("moved from first to second: shape=%d l0=%g ", shape, e.l0) + Show(sim.Get()) + H::fmt(" to (%.17g,%.17g)", b[0], b[1]);
				if (!Compare(sim, c, "first search")) return;
				auto& ps = Acc::Particles(sim.c);
				ps[0].X() = OpenMps::ToV(b);
				if (!Compare(sim, c, "search after moving")) return;
				sim.Add({mk(F, a)});
				if (!Compare(sim, c, "search after adding")) return;
				Acc::Particles(sim.c)[2].X() = OpenMps::ToV(b);
				Compare(sim, c, "search after moving a dummy");
			}});
		}
		// crowded placements: m^D per spacing-sized cell lattice, every lattice offset and pitch; whole domain
		{
			const int offs = D == 3 ? 3 : 8;
			f.push_back({H::fmt("crowd-s%d-p%d", shape, par), (uint64_t)offs * offs * (D == 3 ? 2 : 5), [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); const int ox = (int)ch(offs), oz = (int)ch(offs), k = (int)ch(D == 3 ? 2 : 5);
				const double pitch = e.l0 * (D == 3 ? 1.0 + 0.3 * k : (double[]){0.97, 1.0, 1.04, 0.99, 1.3}[k]);
				Sim sim(e); std::vector<P> v; int q = shape == 3 ? 3 : 0;
				Vec x;
				for (x[0] = e.min[0] + pitch * ox / offs; x[0] <= e.max[0]; x[0] += pitch)
					for (x[1] = e.min[1] + pitch * oz / offs; x[1] <= e.max[1]; x[1] += pitch)
					{
						if (D == 2) v.push_back(mk(q++ % 5 % 4 == 3 ? DIS : q % 5 % 3, x));
						else for (x[D - 1] = e.min[D - 1] + 0.1 * pitch * oz; x[D - 1] <= e.max[D - 1]; x[D - 1] += pitch) v.push_back(mk(q++ % 5 % 4 == 3 ? DIS : q % 5 % 3, x));
					}
				sim.Add(v);
				c.desc = H::fmt("lattice pitch=%g offset=%d,%d shape=%d l0=%g: %zu particles", pitch, ox, oz, shape, e.l0, v.size());
				if (!Compare(sim, c, "search")) return;
				Compare(sim, c, "second search");
			}});
		}
		// blocks filled to capacity: the centre block and one neighbour (direction enumerated), exactly full
		if (D == 2 || shape < 3)
		{
			f.push_back({H::fmt("full-s%d-p%d", shape, par), (uint64_t)(D == 3 ? 27 : 9) * 4, [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); int dir[3]; for (int d = 0; d < D; d++) dir[d] = (int)ch(3) - 1; const int all = (int)ch(2), one = (int)ch(2);
				Env big = e; const double NL = e.re * e.l0 * (1 + 2 * e.courant);
				for (int d = 0; d < D; d++) big.max[d] = big.min[d] + 3 * NL;
				const std::size_t m = (std::size_t)std::ceil(NL / e.l0) + 1; std::size_t cap = 1; for (int d = 0; d < D; d++) cap *= m;
				Sim sim(big); std::vector<P> v;
				const auto fill = [&](const int* b) { for (std::size_t k = 0; k < cap; k++) { Vec x; std::size_t q = k; for (int d = 0; d < D; d++) { x[d] = big.min[d] + NL * (1 + b[d]) + NL * (0.03 + 0.94 * (double)(q % m) / (double)m); q /= m; } v.push_back(mk(F, x)); } };
				const int zero[3] = {0, 0, 0}; fill(zero);
				if (all) { int b[3] = {0, 0, 0}; for (b[0] = -1; b[0] <= 1; b[0]++) for (b[1] = -1; b[1] <= 1; b[1]++) for (b[2] = D == 3 ? -1 : 0; b[2] <= (D == 3 ? 1 : 0); b[2]++) if (b[0] || b[1] || (D == 3 && b[2])) if (D == 2 || (b[0] == dir[0])) fill(b); }
				else if (dir[0] || dir[1] || (D == 3 && dir[2])) fill(dir);
				if (one) v.pop_back();
				sim.Add(v);
				c.desc = H::fmt("blocks filled to capacity %zu: shape=%d l0=%g dir=%d,%d all=%d: %zu particles", cap, shape, e.l0, dir[0], dir[1], all, v.size());
				Compare(sim, c, "search");
			}});
		}
	}
	// as many neighbours as can be: the particles of each of the 3^D blocks crowd around the point nearest to a centre
	for (int par = 0; par < 3; par++)
	{
		const Env e = MakeE(0, l0s[par], courants[par], res[par]);
		f.push_back({H::fmt("star-p%d", par), (uint64_t)(D == 3 ? 8 : 4) * 3 * 3, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const int kinds = (int)ch(D == 3 ? 8 : 4), level = (int)ch(3), off = (int)ch(3);
			Env big = e; const double NL = e.re * e.l0 * (1 + 2 * e.courant);
			for (int d = 0; d < D; d++) big.max[d] = big.min[d] + 4 * NL;
			const std::size_t m = (std::size_t)std::ceil(NL / e.l0) + 1; std::size_t cap = 1; for (int d = 0; d < D; d++) cap *= m;
			const std::size_t per = level == 0 ? cap : level == 1 ? cap - 1 : (cap + 1) / 2;
			Sim sim(big); std::vector<P> v; int b[3] = {0, 0, 0};
			for (b[0] = -1; b[0] <= 1; b[0]++) for (b[1] = -1; b[1] <= 1; b[1]++) for (b[2] = D == 3 ? -1 : 0; b[2] <= (D == 3 ? 1 : 0); b[2]++)
			{
				int nz = 0; for (int d = 0; d < D; d++) nz += b[d] != 0;
				if (nz && !(kinds >> (nz - 1) & 1)) continue;
				for (std::size_t k = 0; k < per; k++) { Vec x; std::size_t q = k; for (int d = 0; d < D; d++) { x[d] = big.min[d] + NL * (1.5 + 0.03 * (off - 1) + 0.54 * b[d]) + NL * 0.01 * ((double)(q % m) / (double)m - 0.5); q /= m; } v.push_back(mk(k % 3 == 1 ? W : F, x)); }
			}
			sim.Add(v);
			c.desc = H::fmt("%zu particles in each block, near the point (%d), l0=%g: %zu particles", per, off, e.l0, v.size());
			if (!Compare(sim, c, "search")) return;
			Compare(sim, c, "second search");
		}});
	}
	// two particles just closer or farther than the search distance, in every direction, from places in and at the borders of a bucket
	for (int shape = 0; shape < 4; shape++) for (int par = 0; par < 5; par++) if (Used(shape, par))
	{
		Env e = MakeE(shape, l0s[par], courants[par], res[par]); const double NL = e.re * e.l0 * (1 + 2 * e.courant); for (int d = 0; d < D; d++) e.max[d] = e.min[d] + 4.6 * NL;
		f.push_back({H::fmt("edge-s%d-p%d", shape, par), (uint64_t)10 * (D == 3 ? 24 * 7 : 48) * (D == 3 ? 27 : 25), [=](uint64_t i, H::Ctx& c) {
			static const double by[] = {-1e-3, -1e-5, -1e-6, -1e-7, -1e-8, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3}, at[] = {1.5, 2, 2.0000001, 1.9999999, 1.13};
			H::Choices ch(i); const double r = NL * (1 + by[ch(10)]), phi = 0.1308996938995747 * (double)ch(D == 3 ? 24 : 48) * (D == 3 ? 2 : 1), th = D == 3 ? 0.5235987755982988 * (double)ch(7) : 0;
			P a = mk(F, e.min), b; for (int d = 0; d < D; d++) a.x[d] += NL * at[ch(D == 3 ? 3 : 5)];
			b = a; b.type = W; if (D == 3) { b.x[0] += r * std::sin(th) * std::cos(phi); b.x[1] += r * std::sin(th) * std::sin(phi); b.x[D - 1] += r * std::cos(th); } else { b.x[0] += r * std::cos(phi); b.x[1] += r * std::sin(phi); }
			Sim sim(e); sim.Add({a, b}); c.desc = H::fmt("distance %.17g, search distance %.17g ", r, NL) + Show(sim.Get()); Compare(sim, c, "search");
		}});
	}
	// as many particles as a count or a number may have to hold: a square lattice, long, flat or square, numbered along either axis or mixed
	{
		const std::vector<int> sizes = D == 3 ? std::vector<int>{300, 1200, 5000} : th ? std::vector<int>{260, 1030, 4200, 17000, 33000, 66000, 132000} : std::vector<int>{260, 4200, 33000, 66000};
		f.push_back({"many", sizes.size() * 3 * 3 * 2, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const int size = sizes[ch(sizes.size())], form = (int)ch(3), order = (int)ch(3), gone = (int)ch(2);
			Env e = MakeE(0, 1.0, 0.1, 2.4); const double NL = e.re * e.l0 * (1 + 2 * e.courant), pitch = 1.13 * e.l0;
			int m[3] = {1, 1, 1}; const int side = (int)std::ceil(std::pow((double)size, 1.0 / D));
			if (form == 0) for (int d = 0; d < D; d++) m[d] = side; else { const int thin = D == 3 ? 3 : 7, q = D == 3 ? (size + 8) / 9 : (size + 6) / 7; for (int d = 0; d < D; d++) m[d] = thin; m[form == 1 ? 0 : D - 1] = q; }
			const std::size_t n = (std::size_t)m[0] * m[1] * (D == 3 ? m[2] : 1);
			std::size_t stride = 1; if (order == 2) for (stride = n / 2 + 1; std::__gcd(stride, n) != 1; stride++) {}
			const auto site = [&](std::size_t k, int* q) { k = k * stride % n; if (order == 1) for (int d = D - 1; d >= 0; d--) { q[d] = (int)(k % m[d]); k /= m[d]; } else for (int d = 0; d < D; d++) { q[d] = (int)(k % m[d]); k /= m[d]; } };
			std::vector<std::size_t> at(n); std::vector<P> v; int q[3] = {0, 0, 0};
			const auto lin = [&](const int* p) { return ((std::size_t)(D == 3 ? p[2] : 0) * m[1] + p[1]) * m[0] + p[0]; };
			for (std::size_t k = 0; k < n; k++) { site(k, q); at[lin(q)] = k; Vec x; for (int d = 0; d < D; d++) x[d] = e.min[d] + pitch * (q[d] + 0.31); v.push_back(mk(gone && k % 7 == 3 ? DIS : (int)(k % 3), x)); }
			for (int d = 0; d < D; d++) e.max[d] = e.min[d] + pitch * (m[d] + 1);
			c.desc = H::fmt("lattice of %d x %d x %d, order %d, gone %d", m[0], m[1], m[2], order, gone); c.interesting();
			std::vector<std::array<int, 3>> near; const int w = (int)std::ceil(NL / pitch);
			for (int a = -w; a <= w; a++) for (int b = -w; b <= w; b++) for (int g = D == 3 ? -w : 0; g <= (D == 3 ? w : 0); g++) if ((a || b || g) && pitch * std::sqrt((double)(a * a + b * b + g * g)) < NL) near.push_back({a, b, g});
			Sim sim(e); sim.Add(v); std::vector<std::size_t> got, want;
			for (int round = 0; round < 2; round++)
			{
				Acc::Search(sim.c); c.transitions++; const auto& ps = Acc::Particles(sim.c);
				for (std::size_t k = 0; k < n; k++)
				{
					if (!c.expect((int)ps[k].TYPE() == v[k].type, H::fmt("search %d: particle %zu inside the domain was removed", round, k))) return;
					if (v[k].type == DIS) continue;
					site(k, q); got.clear(); want.clear();
					for (auto& o : near) { int p[3] = {q[0] + o[0], q[1] + o[1], q[2] + o[2]}; bool in = true; for (int d = 0; d < D; d++) in &= p[d] >= 0 && p[d] < m[d]; if (in && v[at[lin(p)]].type != DIS) want.push_back(at[lin(p)]); }
					const auto cnt = Acc::Count(sim.c, k); if (!c.expect(cnt == want.size(), H::fmt("search %d: particle %zu has %zu neighbours instead of %zu", round, k, (std::size_t)cnt, want.size()))) return;
					for (std::size_t z = 0; z < cnt; z++) got.push_back(Acc::Nb(sim.c, k, z));
					std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
					if (!c.expect(got == want, H::fmt("search %d: particle %zu lists the wrong neighbours", round, k))) return;
				}
			}
			H::Hash h; h.u(n); h.u(form); h.u(order); h.u(gone); c.state(h); c.outcome(h);
		}});
	}
	// three particles in every arrangement of the coarse points of one domain
	{
		const Env e = MakeE(0, 1.0, 0.1, 2.4);
		auto pts = Points(e, 0); if (D == 3) { std::vector<Vec> q; for (std::size_t k = 0; k < pts.size(); k += 3) q.push_back(pts[k]); pts = q; }
		const uint64_t n = pts.size();
		f.push_back({"triple", n * n * n, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const auto a = pts[ch(n)], b = pts[ch(n)], d = pts[ch(n)];
			Sim sim(e); sim.Add({mk(F, a), mk(W, b), mk(i % 3 == 2 ? DIS : (int)(i % 3), d)});
			c.desc = Show(sim.Get());
			Compare(sim, c, "search");
		}});
	}
	return f;
}
int main(int argc, char** argv) { return H::Main(argc, argv, Make); }
