// C20: gradient correction matrix: every matrix over a small alphabet, and every moment matrix of few neighbours.
#include "scen.hpp"
using namespace S;
#if !O_GC
#error "needs gradient correction"
#endif

static OpenMps::Detail::CorrectiveMatrix Make(const double (&a)[D][D])
{
	OpenMps::Detail::CorrectiveMatrix m;
	for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i, j) = a[i][j];
	return m;
}

static double Det(const double (&a)[D][D])
{
	if (D == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
	double s = 0;
	for (int j = 0; j < 3; j++) s += a[0][j] * (a[1 % D][(j + 1) % 3 % D] * a[2 % D][(j + 2) % 3 % D] - a[1 % D][(j + 2) % 3 % D] * a[2 % D][(j + 1) % 3 % D]);
	return s;
}

static void CheckInverse(const double (&a)[D][D], double val, bool exactlySingular, H::Ctx& c)
{
	const double det = Det(a);
	double mx = 0; for (auto& r : a) for (auto v : r) mx = std::max(mx, std::abs(v));
	for (auto& r : a) { c.desc += "["; for (auto v : r) c.desc += H::fmt(" %.6g", v); c.desc += " ]"; }
	c.transitions++;
	const auto inv = OpenMps::Detail::InvertMatrix(Make(a), val);
	H::Hash h; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) h.d(inv(i, j)); c.outcome(h); c.state(h);
	const double rel = mx > 0 ? std::abs(det) / std::pow(mx, D) : 0;
	if (exactlySingular)
	{
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (!c.near(inv(i, j), i == j ? val : 0, 1e-12, H::fmt("singular matrix: entry (%d,%d)", i, j))) return;
		c.count("singular"); return;
	}
	if (rel < 1e-4) { c.count("skipped: nearly singular"); return; }
	c.interesting();
	double im = 0; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) im = std::max(im, std::abs((double)inv(i, j)));
	for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
	{
		double p = 0, q = 0;
		for (int k = 0; k < D; k++) { p += a[i][k] * inv(k, j); q += inv(i, k) * a[k][j]; }
		if (!c.near(p, i == j, 1e-12 * (1 + D * mx * im), H::fmt("matrix times its inverse, entry (%d,%d)", i, j))) return;
		if (!c.near(q, i == j, 1e-12 * (1 + D * mx * im), H::fmt("inverse times matrix, entry (%d,%d)", i, j))) return;
	}
}

static std::vector<H::Family> Fams(bool th)
{
	std::vector<H::Family> f;
	{
		const std::vector<double> al = D == 2 ? std::vector<double>{-2, -1, 0, 0.5, 1, 3, 7.25} : th ? std::vector<double>{-1, 0, 0.5, 2} : std::vector<double>{-1, 0, 2};
		uint64_t n = 2; for (int i = 0; i < D * D; i++) n *= al.size();
		f.push_back({"entries", n, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const double val = ch(2) ? 0.37 : 1.5; double a[D][D]; for (auto& r : a) for (auto& v : r) v = al[ch(al.size())];
			CheckInverse(a, val, Det(a) == 0, c);
		}});
	}
	{
		// symmetric matrices at several magnitudes
		const std::vector<double> al{-0.75, 0, 0.125, 1, 2.5}; const int m = D * (D + 1) / 2; uint64_t n = 3; for (int i = 0; i < m; i++) n *= al.size();
		f.push_back({"symmetric", n, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const double sc = (double[]){1, 1024, 1.0 / 4096}[ch(3)]; double a[D][D];
			for (int p = 0; p < D; p++) for (int q = p; q < D; q++) a[p][q] = a[q][p] = sc * al[ch(al.size())];
			CheckInverse(a, 0.25, Det(a) == 0, c);
		}});
	}
	{
		// moments of neighbours that span fewer dimensions than the space (singular up to rounding), and of ones that span it
		const std::vector<double> al{0.3, -0.7, 1.1, 0.05}, wt{0.37, 2.9};
		for (int k = 1; k <= D; k++)
		{
			uint64_t n = 1; for (int i = 0; i < k * D; i++) n *= al.size(); for (int i = 0; i < k; i++) n *= wt.size();
			if (k == 3 && !th) n = 0;
			if (n) f.push_back({H::fmt("rank%d", k), n * 2, [=](uint64_t i, H::Ctx& c) {
				H::Choices ch(i); double a[D][D] = {}; const int extra = (int)ch(2);
				std::vector<std::array<double, D>> v(k);
				for (auto& d : v) { const double w = wt[ch(wt.size())]; double r2 = 0; for (auto& x : d) { x = al[ch(al.size())]; r2 += x * x; } for (int p = 0; p < D; p++) for (int q = 0; q < D; q++) a[p][q] += w / r2 * d[p] * d[q]; }
				// one more neighbour in the same subspace: opposite of the first
				if (extra) { double r2 = 0; for (auto x : v[0]) r2 += 1.69 * x * x; for (int p = 0; p < D; p++) for (int q = 0; q < D; q++) a[p][q] += 0.77 / r2 * (-1.3 * v[0][p]) * (-1.3 * v[0][q]); }
				CheckInverse(a, 0.37, k < D, c);
			}});
		}
	}
	return f;
}
int main(int argc, char** argv) { return H::Main(argc, argv, Fams); }
