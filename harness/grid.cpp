// C02: the search grid as a container, explored over operation histories against a map from block to particles.
#include "sim.hpp"
using namespace S;
using Grid = OpenMps::Grid;

struct Shape { double NL, l0; Vec min, max; };
static Shape Sh(int k)
{
	Shape s;
	static const double NL[] = {1.0, 0.37, 2.5, 1.3}, l0[] = {0.6, 0.2, 2.6, 0.5};
	static const double o[][3] = {{0, 0, 0}, {-1.7, 2.3, 0.4}, {10, -20, 5}, {-0.3, -0.2, -0.9}};
	static const double e[][3] = {{0.9, 0.9, 0.9}, {1.9, 0.9, 2.9}, {0.9, 2.9, 1.9}, {2.9, 1.9, 0.9}};
	s.NL = NL[k]; s.l0 = l0[k];
	for (int d = 0; d < D; d++) { const int q = D == 2 && d == 1 ? 2 : d; s.min[d] = o[k][q]; s.max[d] = o[k][q] + e[k][q] * s.NL; }
	return s;
}
using Cell = std::array<int, 3>;
// blocks per axis of a shape: extent rounded up, plus two
static Cell Cells(const Shape& s) { Cell c{1, 1, 1}; for (int d = 0; d < D; d++) c[d] = (int)std::ceil((s.max[d] - s.min[d]) / s.NL - 1e-9) + 2; return c; }
// inside the domain proper: blocks that overlap [min,max]
static Cell Inner(const Shape& s) { Cell c{1, 1, 1}; for (int d = 0; d < D; d++) c[d] = (int)std::ceil((s.max[d] - s.min[d]) / s.NL - 1e-9); return c; }
static int Vol(const Cell& c) { return c[0] * c[1] * c[2]; }
static Cell At(const Cell& n, int k) { Cell c; c[0] = k % n[0]; k /= n[0]; c[1] = k % n[1]; k /= n[1]; c[2] = k; return c; }
static OpenMps::Vector Pos(const Shape& s, const Cell& c, int salt)
{
	static const double fr[] = {0.31, 0.83, 0.12, 0.57, 0.94, 0.06, 0.71};
	OpenMps::Vector v; for (int d = 0; d < D; d++) v[d] = s.min[d] + s.NL * (c[d] + fr[(salt * 3 + d * 2) % 7]); return v;
}

struct Model { std::map<Cell, std::vector<std::size_t>> m; };

static std::vector<std::size_t> Iterate(const Grid& g, const OpenMps::Vector& x, std::size_t limit, bool& overrun)
{
	std::vector<std::size_t> r; overrun = false;
	const auto end = g.cend();
	for (auto it = g.cbegin(x); !(it == end); ++it) { r.push_back(*it); if (r.size() > limit) { overrun = true; break; } }
	return r;
}

static bool Check(const Grid& g, const Shape& s, const Model& m, std::size_t total, H::Ctx& c, const Cell* except = nullptr)
{
	const Cell n = Cells(s);
	H::Hash h;
	for (int k = 0; k < Vol(n); k++)
	{
		const Cell at = At(n, k);
		if (except) { bool nearIt = true; for (int d = 0; d < D; d++) if (std::abs(at[d] - (*except)[d]) > 1) nearIt = false; if (nearIt) continue; }
		std::multiset<std::size_t> want;
		for (auto& e : m.m) { bool adj = true; for (int d = 0; d < D; d++) if (std::abs(e.first[d] - at[d]) > 1) adj = false; if (adj) want.insert(e.second.begin(), e.second.end()); }
		bool over; const auto got = Iterate(g, Pos(s, at, k), total + 4, over);
		std::multiset<std::size_t> gs(got.begin(), got.end());
		if (over || gs != want)
		{
			std::string w, q; for (auto v : want) w += H::fmt(" %zu", v); for (auto v : gs) q += H::fmt(" %zu", v);
			return c.fail(H::fmt("iterating from block (%d,%d,%d) yields {%s }%s instead of {%s }", at[0], at[1], at[2], q.c_str(), over ? " without end" : "", w.c_str()));
		}
		for (auto v : want) h.u(v); h.u(1000 + k);
	}
	c.state(h); c.outcome(h);
	return true;
}

static std::vector<H::Family> Make(bool th)
{
	std::vector<H::Family> f;
	for (int k = 0; k < 4; k++)
	{
		const Shape s = Sh(k); const Cell n = Cells(s); const int vol = Vol(n);
		const std::size_t m = (std::size_t)std::ceil(s.NL / s.l0) + 1; std::size_t lattice = 1; for (int d = 0; d < D; d++) lattice *= m;
		// operations: clear, store in block, store outside (below / far above on each axis)
		const int ops = 1 + vol + 2 * D;
		const auto apply = [=](Grid& g, Model& mod, int op, std::size_t id, H::Ctx& c, std::string& d) -> bool {
			c.transitions++;
			if (op == 0) { g.Clear(); mod.m.clear(); d += " clear"; return true; }
			if (op <= vol)
			{
				const Cell at = At(n, op - 1); d += H::fmt(" store%zu@(%d,%d,%d)", id, at[0], at[1], at[2]);
				const bool ok = g.Store(Pos(s, at, (int)id), id);
				bool inner = true; const Cell in = Inner(s); for (int q = 0; q < D; q++) if (at[q] >= in[q]) inner = false;
				if (!ok && inner) return c.fail("a position inside the domain was refused");
				if (!ok) return true;  // the margin beyond the domain may be refused, but then it must have no effect
				mod.m[at].push_back(id); return true;
			}
			const int q = op - 1 - vol; OpenMps::Vector x = Pos(s, At(n, 0), 1);
			x[q / 2] = q % 2 ? s.max[q / 2] + 3.3 * s.NL : s.min[q / 2] - 0.4 * s.NL;
			d += H::fmt(" storeOutside%d", q);
			if (g.Store(x, id)) return c.fail("a position outside the grid was accepted");
			return true;
		};
		// every operation sequence up to the depth (an index codes a sequence; short ones are prefixes padded by nothing)
		for (int depth = 1; depth <= 4; depth++)
		{
			uint64_t cnt = 1; for (int i = 0; i < depth; i++) cnt *= (uint64_t)ops;
			if (cnt > (th ? 20000000ull : 250000ull)) break;
			f.push_back({H::fmt("seq%d-s%d", depth, k), cnt, [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); Grid g(s.NL, s.l0, OpenMps::ToV(s.min), OpenMps::ToV(s.max)); g.Clear(); Model mod; std::string d;
				if (!c.expect(g.MaxParticles() >= lattice, "a block cannot hold a regular lattice")) return;
				for (int j = 0; j < depth; j++) if (!apply(g, mod, (int)ch(ops), j + 1, c, d)) { c.desc = d; return; }
				c.desc = H::fmt("shape %d (%dx%dx%d):", k, n[0], n[1], n[2]) + d;
				if (mod.m.size()) c.interesting();
				if (!Check(g, s, mod, depth, c)) return;
				g.Clear(); mod.m.clear(); Check(g, s, mod, depth, c);
			}});
		}
		// every occupancy pattern: 2D all counts 0..2 of up to 12 blocks around; 3D up to 3 (4) occupied blocks
		if (D == 2)
		{
			const int cells = std::min(vol, th ? 12 : 10); uint64_t cnt = 1; for (int i = 0; i < cells; i++) cnt *= 3;
			f.push_back({H::fmt("occ-s%d", k), cnt, [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); Grid g(s.NL, s.l0, OpenMps::ToV(s.min), OpenMps::ToV(s.max)); g.Clear(); Model mod; std::string d; std::size_t id = 1;
				for (int j = 0; j < cells; j++) for (uint64_t q = ch(3); q > 0; q--) if (!apply(g, mod, 1 + j * (vol - 1) / (cells - 1), id++, c, d)) { c.desc = d; return; }
				c.desc = H::fmt("shape %d (%dx%dx%d):", k, n[0], n[1], n[2]) + d;
				if (mod.m.size()) c.interesting();
				Check(g, s, mod, id, c);
			}});
		}
		else
		{
			const int occ = th ? 3 : 2; uint64_t cnt = 1; for (int i = 0; i < occ; i++) cnt *= (uint64_t)vol;
			f.push_back({H::fmt("occ-s%d", k), cnt * 2, [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); Grid g(s.NL, s.l0, OpenMps::ToV(s.min), OpenMps::ToV(s.max)); g.Clear(); Model mod; std::string d; std::size_t id = 1;
				const int twice = (int)ch(2);
				// a background: every block of one plane occupied, then the chosen ones on top
				for (int j = 0; j < vol; j++) if (twice && At(n, j)[2] == 1) apply(g, mod, 1 + j, id++, c, d);
				d.clear();
				for (int j = 0; j < occ; j++) { const int b = (int)ch(vol); for (int q = 0; q <= twice; q++) if (!apply(g, mod, 1 + b, id++, c, d)) { c.desc = d; return; } }
				c.desc = H::fmt("shape %d (%dx%dx%d) plane=%d:", k, n[0], n[1], n[2], twice) + d; c.interesting();
				Check(g, s, mod, id, c);
			}});
		}
		// filling one block past its capacity, with others occupied, then clearing and refilling
		f.push_back({H::fmt("cap-s%d", k), (uint64_t)vol * 3, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const int b = (int)ch(vol), other = (int)ch(3);
			Grid g(s.NL, s.l0, OpenMps::ToV(s.min), OpenMps::ToV(s.max)); g.Clear(); const std::size_t cap = g.MaxParticles();
			c.desc = H::fmt("shape %d, block %d filled past %zu", k, b, cap);
			for (int round = 0; round < 2; round++)
			{
				Model mod; std::string d; std::size_t id = 1;
				for (int j = 0; j < vol; j++) if (j != b && other && j % 2 == other - 1) if (!apply(g, mod, 1 + j, id++, c, d)) return;
				const auto before = mod;
				for (std::size_t q = 0; q < cap; q++)
				{
					try { if (!apply(g, mod, 1 + b, id++, c, d)) return; }
					catch (const std::exception&) { c.fail(H::fmt("storing particle %zu of %zu in a block failed", q + 1, cap)); return; }
				}
				if (!Check(g, s, mod, id, c)) return;
				if (!mod.m.count(At(n, b))) return; // a refused margin block
				bool threw = false;
				try { g.Store(Pos(s, At(n, b), 2), id++); } catch (const std::exception&) { threw = true; }
				c.transitions++;
				if (!c.expect(threw, H::fmt("storing more than %zu particles in a block raised no error", cap))) return;
				const Cell at = At(n, b);
				if (!Check(g, s, mod, id, c, &at)) return;
				g.Clear(); Model empty;
				if (!Check(g, s, empty, id, c)) return;
			}
			c.interesting();
		}});
	}
	// long grids, deep blocks and large particle numbers: where a narrower type for a block, a count or a number would show
	const std::vector<int> longs = th ? std::vector<int>{120, 250, 1020, 4090, 32760, 65530, 131070} : std::vector<int>{120, 250, 1020, 32760, 65530};
	f.push_back({"long", (uint64_t)D * longs.size() * 10 * 10 * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const int b0 = (int)ch(10), b1 = (int)ch(10), ids = (int)ch(3), d = (int)ch(D), len = longs[ch(longs.size())];
		Shape s; s.NL = 1; s.l0 = 2; for (int q = 0; q < D; q++) { s.min[q] = -0.25 - q; s.max[q] = s.min[q] + (q == d ? len - 0.5 : 1.5); }
		const Cell n = Cells(s); const int edge[] = {0, 1, len / 2, len - 1, len, 127, 128, 255, 256, 65535};
		c.desc = H::fmt("grid of %d blocks along axis %d, blocks %d and %d, ids %d:", n[d], d, edge[b0], edge[b1], ids);
		if (edge[b0] > len || edge[b1] > len || b0 > b1 || (D == 3 && len > 40000 && b0 != b1)) return;
		Grid g(s.NL, s.l0, OpenMps::ToV(s.min), OpenMps::ToV(s.max)); g.Clear(); Model mod; std::set<int> around;
		const std::size_t base[] = {0, 0x7ffffffeu, 0xffffffffffffff00u};
		for (int round = 0; round < 2; round++)
		{
			std::size_t id = base[ids];
			for (int b : {edge[b0], edge[b1]}) for (int q = 0; q < 2; q++) { Cell at{0, 0, 0}; at[d] = b; at[d ? 0 : 1] = q && D == 3 ? 1 : 0; if (!c.expect(g.Store(Pos(s, at, 3), id), "a position inside the domain was refused")) return; mod.m[at].push_back(id++); c.transitions++; for (int k = -2; k <= 2; k++) around.insert(b + k); }
			for (int k : around) if (k >= 0 && k < n[d])
			{
				Cell at{0, 0, 0}; at[d] = k; std::multiset<std::size_t> want; for (auto& e : mod.m) if (std::abs(e.first[d] - k) <= 1) want.insert(e.second.begin(), e.second.end());
				bool over; const auto got = Iterate(g, Pos(s, at, 3), 20, over); if (!c.expect(!over && std::multiset<std::size_t>(got.begin(), got.end()) == want, H::fmt("iterating from block %d of the axis yields %zu particles instead of %zu", k, got.size(), want.size()))) return;
				H::Hash h; h.u(k); for (auto v : want) h.u(v); c.outcome(h); h.u(len); c.state(h);
			}
			g.Clear(); mod.m.clear();
			Cell at{0, 0, 0}; at[d] = edge[b1]; bool over; if (!c.expect(Iterate(g, Pos(s, at, 3), 20, over).empty(), "not empty after clearing")) return;
		}
		c.interesting();
	}});
	const std::vector<int> deep = th ? std::vector<int>{3, 10, 11, 15, 16, 40, 181, 256, 300} : std::vector<int>{3, 10, 11, 15, 16, 40, 256};
	f.push_back({"deep", deep.size() * 4, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const int less = (int)ch(4), per = deep[ch(deep.size())];
		if (D == 3 && per > 40) return;
		Shape s; s.NL = 1; s.l0 = 1.0 / per; for (int q = 0; q < D; q++) { s.min[q] = 0; s.max[q] = 1.5; }
		Grid g(s.NL, s.l0, OpenMps::ToV(s.min), OpenMps::ToV(s.max)); g.Clear(); const std::size_t cap = g.MaxParticles(); std::size_t want = 1; for (int q = 0; q < D; q++) want *= (std::size_t)per + 1;
		c.desc = H::fmt("block for %zu particles, filled up to %d less", cap, less); c.interesting();
		if (!c.expect(cap >= want, "a block cannot hold a regular lattice")) return;
		const Cell at{0, 0, 0}; const auto x = Pos(s, at, 1);
		for (std::size_t k = 0; k + (std::size_t)less < cap; k++) { try { if (!c.expect(g.Store(x, k), "refused")) return; } catch (const std::exception&) { c.fail(H::fmt("storing particle %zu of %zu failed", k + 1, cap)); return; } c.transitions++; }
		const auto all = [&](std::size_t m) { bool over; auto got = Iterate(g, x, cap + 2, over); std::sort(got.begin(), got.end()); if (!c.expect(!over && got.size() == m, H::fmt("%zu particles instead of %zu", got.size(), m))) return false; for (std::size_t k = 0; k < m; k++) if (got[k] != k) return c.fail("a particle is missing"); return true; };
		if (!all(cap - (std::size_t)less)) return;
		if (!less) { bool threw = false; try { g.Store(x, cap); } catch (const std::exception&) { threw = true; } if (!c.expect(threw, "storing into a full block raised no error")) return; }
		H::Hash h; h.u(cap); h.u(less); c.state(h); c.outcome(h);
	}});
	return f;
}
int main(int argc, char** argv) { return H::Main(argc, argv, Make); }
