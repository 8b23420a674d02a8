// Program-level explorer: the real main() on generated input files in a scratch directory (--prop C16..C19).
#include "prog.hpp"

// ------------------------------------------------------------------------------------------------ C16
static std::vector<P> Three()
{
	std::vector<P> ps;
	for (int k = 0; k < 3; k++) { P p; p.type = (k * 2 + 1) % 4; for (std::size_t f = 1; f < COLS.size(); f++) Field(p, f) = (k % 2 ? -1 : 1) * (0.125 * (double)f + 0.01 * k + (f > 2 ? 1 : 0)); ps.push_back(p); }
	return ps;
}
static std::string Cell(const P& p, std::size_t col) { return col == 0 ? std::to_string(p.type) : H::fmt("%.6g", Field(p, col)); }
static const std::vector<std::string> SEP{",", ", ", "\t,", " , \t"};
static const std::vector<std::string> EOL{"\n", "\r\n", "\n\n", "\n \t\n", " \n", "\t\r\n\r\n"};
static const std::vector<std::string> LEAD{"", "\n", " \t\n\r\n", "  "};
static const std::vector<std::string> TRAIL{"", "\n", "\n \n", "  \t"};

static std::string Table(const std::vector<std::size_t>& order, const std::vector<P>& ps, const std::string& lead, const std::string& sep, const std::vector<std::string>& eol, const std::string& trail)
{
	std::string s = lead;
	for (std::size_t k = 0; k < order.size(); k++) s += (k ? sep : "") + COLS[order[k]];
	for (std::size_t i = 0; i < ps.size(); i++) { s += eol[i % eol.size()]; for (std::size_t k = 0; k < order.size(); k++) s += (k ? sep : "") + Cell(ps[i], order[k]); }
	return s + trail;
}
static std::vector<std::size_t> Ident() { std::vector<std::size_t> r; for (std::size_t k = 0; k < COLS.size(); k++) r.push_back(k); return r; }

static const std::vector<std::string> SPELL{"0", "-0", "1", "+2", "-1.5", ".5", "5.", "-.25", "1e3", "1E-3", "2.5e+2", "007", "123456789", "1e-300", "-3e300", "4.9e-324", "-2.5e-310", "0.1234567890123456789",
	"1e400", "-1e400", "", "abc", "1.5abc", "1.5.2", "--1", "+-1", "1e", "1e+", "e5", ".", "-", "+", "1,5", "1;", "0x", "x1", "one", "1.0e2.5", "1_000", "\"1\"", "'1'", "1-", "1/2", "$1", "NULL", "?", "0b1", "1f", "1L", "1d0"};
static const std::vector<std::string> TSPELL{"0", "1", "2", "3", "+1", "00", "03", "4", "-1", "-0", "5", "99", "256", "-256", "2147483648", "4294967296", "4294967297", "99999999999999999999", "", "x", "F", "0x1", "1a", "a1", "--1", "1.", ".", "+", "-", "true", "Wall", "1-", "3e"};

static std::vector<H::Family> MakeC16(bool th)
{
	std::vector<H::Family> f; const auto nc = COLS.size();
	uint64_t fact = 1; for (uint64_t k = 2; k <= nc; k++) fact *= k;
	if (D == 2)
	{
		const uint64_t styles = th ? SEP.size() * EOL.size() * LEAD.size() : 6;
		f.push_back({"columns", fact * styles, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const auto st = ch(styles); auto code = ch(fact); std::vector<std::size_t> pool = Ident(), order;
			while (!pool.empty()) { const auto q = code % pool.size(); code /= pool.size(); order.push_back(pool[q]); pool.erase(pool.begin() + (std::ptrdiff_t)q); }
			if (th) { H::Choices s(st); const auto& sep = SEP[s(SEP.size())]; const auto& eol = EOL[s(EOL.size())]; RunText(c, Table(order, Three(), LEAD[s(LEAD.size())], sep, {eol}, "\n"), "column order"); }
			else RunText(c, Table(order, Three(), LEAD[st % LEAD.size()], SEP[st % SEP.size()], {EOL[st]}, TRAIL[st % TRAIL.size()]), "column order");
		}});
	}
	else
	{
		const uint64_t n = nc * nc * nc * nc;
		f.push_back({"columns", n * 2, [=](uint64_t i, H::Ctx& c) {   // every product of two transpositions
			H::Choices ch(i); auto order = Ident(); const auto st = ch(2); for (int q = 0; q < 2; q++) { const auto a = ch(nc), b = ch(nc); std::swap(order[a], order[b]); }
			RunText(c, Table(order, Three(), LEAD[st], SEP[st], {EOL[st]}, TRAIL[st]), "column order");
		}});
	}
	{
		uint64_t n = SEP.size() * LEAD.size() * TRAIL.size(); for (int k = 0; k < 3; k++) n *= EOL.size();
		f.push_back({"style", n * 4, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const auto rows = ch(4); const auto& sep = SEP[ch(SEP.size())]; const auto& lead = LEAD[ch(LEAD.size())]; const auto& trail = TRAIL[ch(TRAIL.size())];
			std::vector<std::string> eol; for (int k = 0; k < 3; k++) eol.push_back(EOL[ch(EOL.size())]);
			auto ps = Three(); ps.resize(rows); RunText(c, Table(Ident(), ps, lead, sep, eol, trail), "white space");
		}});
	}
	// every spelling of a value in every column of every row; in pairs of columns
	const auto spell = [](std::size_t col, std::size_t k) { return col == 0 ? TSPELL[k % TSPELL.size()] : SPELL[k]; };
	const auto withCells = [](const std::vector<std::vector<std::string>>& rows, const std::string& sep = ", ") { std::string s = "\n"; for (auto& r : rows) { for (std::size_t k = 0; k < r.size(); k++) s += (k ? sep : "") + r[k]; s += "\n"; } return s; };
	const auto cells = [](const std::vector<P>& ps) { std::vector<std::vector<std::string>> r{COLS}; for (auto& p : ps) { std::vector<std::string> v; for (std::size_t k = 0; k < COLS.size(); k++) v.push_back(Cell(p, k)); r.push_back(v); } return r; };
	f.push_back({"value", nc * SPELL.size() * 3 * SEP.size(), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto col = ch(nc), k = ch(SPELL.size()), row = ch(3), sep = ch(SEP.size()); auto r = cells(Three()); r[1 + row][col] = spell(col, k); RunText(c, withCells(r, SEP[sep]), "value");
	}});
	f.push_back({"value2", nc * SPELL.size() * nc * (th ? SPELL.size() : 12), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto col = ch(nc), k = ch(SPELL.size()), col2 = ch(nc), k2 = ch(th ? SPELL.size() : 12);
		auto r = cells(Three()); r[2][col] = spell(col, k); r[3][col2] = spell(col2, th ? k2 : k2 * 4); RunText(c, withCells(r), "two values");
	}});
	// every row of up to columns+2 cells that are good, empty or bad
	for (std::size_t len = 0; len <= nc + 1; len++)
	{
		const std::size_t alpha = D == 3 && !th ? 2 : 3; uint64_t n = 1; for (std::size_t k = 0; k < len; k++) n *= alpha;
		f.push_back({H::fmt("row%zu", len), n * 3, [=](uint64_t i, H::Ctx& c) {
			H::Choices ch(i); const auto at = ch(3); std::vector<std::string> row; for (std::size_t k = 0; k < len; k++) { const auto q = ch(alpha); row.push_back(q == 0 ? "1" : q == 1 ? "" : "x"); }
			auto r = cells(Three()); r.insert(r.begin() + 1 + (std::ptrdiff_t)(at == 2 ? 3 : at), row); RunText(c, withCells(r, ","), "row of cells");
		}});
	}
	// every subset of the columns, with an extra column of every kind at every place
	const std::vector<std::string> extra{"-", "q", "X", "type", "TYPE", "xx", "", "Type", "x", "n", "y2", "0"};
	f.push_back({"header", (1ull << nc) * (nc + 1) * extra.size(), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto mask = ch(1ull << nc), at = ch(nc + 1), e = ch(extra.size()); auto r = cells(Three());
		if (e == 0 && at) return;
		std::vector<std::vector<std::string>> t; for (auto& row : r) { std::vector<std::string> v; for (std::size_t k = 0; k < nc; k++) if (mask & (1ull << k)) v.push_back(row[k]); if (e && at <= v.size()) v.insert(v.begin() + (std::ptrdiff_t)at, &row == &r[0] ? extra[e] : "1"); t.push_back(v); }
		if (e && at > (std::size_t)__builtin_popcountll(mask)) return;
		RunText(c, withCells(t), "header");
	}});
	// every truncation, deletion, insertion and replacement of a byte of a table (thorough: of two)
	{
		const std::string bytes = th ? ",.-+ \n\r\tx1e0;" : ", \nx1-.e"; auto two = Three(); two.resize(2);
		std::vector<std::string> bases{Table(Ident(), two, "\n", ", ", {"\n"}, "\n"), Table({1, 0, 2, 3, 4, 5, 6}, two, "", ",", {"\r\n"}, "")};
		if (D == 3) bases[1] = Table({1, 0, 2, 3, 4, 5, 6, 8, 7}, two, "", ",", {"\r\n"}, "");
		const uint64_t ops = 2 + 2 * bytes.size();
		const auto mutate = [=](std::string s, uint64_t pos, uint64_t op) { pos %= s.size() + 1; if (op == 0) return s.substr(0, pos); if (op == 1) { if (pos < s.size()) s.erase(pos, 1); return s; } const char b = bytes[(op - 2) / 2]; if ((op - 2) % 2) s.insert(pos, 1, b); else if (pos < s.size()) s[pos] = b; return s; };
		for (std::size_t q = 0; q < bases.size(); q++)
		{
			const auto base = bases[q]; const uint64_t n = (base.size() + 1) * ops;
			f.push_back({H::fmt("byte%zu", q), n, [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto op = ch(ops); RunText(c, mutate(base, ch(base.size() + 1), op), "one byte"); }});
			if (th && q == 0)
			{
				// pairs of edits with fewer bytes; the positions in ",\nx1" of the edits' alphabet
				const std::vector<uint64_t> few{0, 1, 2, 3, 6, 7, 8, 9, 10, 11}; const uint64_t m = (base.size() + 1) * few.size();
				f.push_back({"bytes2", m * m, [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto op = few[ch(few.size())], pos = ch(base.size() + 1), op2 = few[ch(few.size())]; RunText(c, mutate(mutate(base, pos, op), ch(base.size() + 1), op2), "two bytes"); }});
			}
		}
	}
	// parameters: none, each, every pair missing or misspelt; the particle format
	Env e; e.eps = 1e-10; e.nu = 0.07; e.l0 = 0.9; e.courant = 0.12; e.rho = 870; e.g = 7.3; e.re = 2.3; e.c = 30; e.surfaceRatio = 0.9; for (int d = 0; d < D; d++) { e.min[d] = -3 - 0.4 * d; e.max[d] = 6 + 0.3 * d; }
	std::vector<P> scene;
	for (int k = 0; k < 7; k++) { P p; p.x = V0(); for (int d = 0; d < D; d++) p.x[d] = 0.4 + 0.67 * (d == 0 ? k % 3 : d == D - 1 ? k / 3 : (k * 2) % 3 * 0.4) + 0.013 * ((k * 5 + d) % 4); p.u = V0(); p.u[0] = k == 4 ? -0.9 : 0.3 * (k % 3) - 0.3; p.u[D - 1] = -0.4 - 0.1 * k; p.type = k < 2 ? W : F; p.p = 10 + k; scene.push_back(p); }
	{ P p; p.x = V0(); for (auto& v : p.x) v = 5.5; p.u = V0(); p.u[0] = 9.5; scene.push_back(p); for (auto& v : p.x) v = -2.7; p.u[0] = 0; p.u[D - 1] = -8; scene.push_back(p); } // these leave soon
	const Doc base = MakeDoc(e, 0.3, 0.6, 0.1, 3, Csv(scene));
	const std::size_t np = base.cond.size() + base.env.size();
	const std::vector<std::string> badv{"", "abc", "1x", "--1", "1e", " "};
	const uint64_t kinds = 2 + badv.size();
	f.push_back({"lost", np * kinds * (np + 1), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto a = ch(np), k = ch(kinds), b = ch(np + 1); Doc d = base; std::string what;
		const auto harm = [&](std::size_t q, uint64_t kind, std::string& w) { auto& g = q < base.cond.size() ? d.cond : d.env; const auto j = q < base.cond.size() ? q : q - base.cond.size(); w += g[j].first; if (kind == 0) { g[j].first = "renamed"; w += " renamed"; } else if (kind == 1) { g[j].first = "gone-" + g[j].first; w += " gone"; } else { g[j].second = badv[kind - 2]; w += " = '" + badv[kind - 2] + "'"; } };
		harm(a, k, what); if (b < np && b != a) { what += ", "; harm(b, 1, what); }
		c.desc = what; const Result r = Run(d.Xml()); c.transitions++; c.interesting(); H::Hash h; h.s(what); c.state(h); H::Hash o; o.s(r.why); c.outcome(o);
		if (!c.expect(r.rejected, "accepted although a parameter is missing or not a number")) return;
		c.expect(r.files.empty(), "rejected, but an output was written first");
	}});
	const std::vector<std::string> attrs{"", " type=\"\"", " type=\"CSV\"", " type=\"csv2\"", " type=\"bin\"", " kind=\"csv\""};
	f.push_back({"format", attrs.size() * 3 + 3, [=](uint64_t i, H::Ctx& c) {
		Doc d = base; if (i < attrs.size() * 3) { d.attr = attrs[i / 3]; if (i % 3 == 1) d.text = ""; if (i % 3 == 2) d.text = "\n \n"; } else if (i == attrs.size() * 3) d.particles = false; else d.text = i % 2 ? "" : " \n\t\r\n";
		c.desc = "format " + d.attr; const Result r = Run(d.Xml()); c.transitions++; c.interesting(); H::Hash h; h.u(i); c.state(h); c.outcome(h);
		if (!c.expect(r.rejected, "accepted although there are no particles in a known format")) return;
		c.expect(r.files.empty(), "rejected, but an output was written first");
	}});
	{
		const std::string xml = MakeDoc(e, 0, 0, 0.1, 1, Csv(Three())).Xml();
		f.push_back({"truncated", xml.size() - 1, [=](uint64_t i, H::Ctx& c) {   // the last byte is a line end
			c.desc = H::fmt("file cut after %llu bytes", (unsigned long long)i); const Result r = Run(xml.substr(0, i)); c.transitions++; c.interesting(); H::Hash h; h.u(i); c.state(h); c.outcome(h);
			if (!c.expect(r.rejected, "a truncated file was accepted")) return;
			c.expect(r.files.empty(), "rejected, but an output was written first");
		}});
	}
	// output intervals that no run can follow
	const std::vector<std::string> noiv{"0", "-0", "0.0", "-0.1", "-1e-300", "1e-400", "-1e300", "-5", "+0e5", "-.1"}, ends{"0.3", "0.6", "0.1", "0.35", "-0.6", "7"};
	f.push_back({"interval", noiv.size() * ends.size() * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); Doc d = base; d["outputInterval"] = noiv[ch(noiv.size())]; d["endTime"] = ends[ch(ends.size())]; d["startTime"] = ((const char*[]){"0", "0.3", "-0.1"})[ch(3)];
		c.desc = "output interval " + d["outputInterval"] + ", from " + d["startTime"] + " to " + d["endTime"]; const Result r = Run(d.Xml()); c.transitions++; c.interesting(); H::Hash h; h.u(i); c.state(h); c.outcome(h);
		if (!c.expect(r.rejected, "accepted although the output interval is not positive")) return;
		c.expect(r.files.empty(), "rejected, but an output was written first");
	}});
	// every parameter (pair of parameters) with other values and spellings: the whole run must be that of these parameters
	const auto variants = [=](const std::string& k, double v) -> std::vector<std::string> {
		if (k == "minStepCountPerOutput") return {"3", "1", "7"};
		if (k == "startTime") return {Num(v), " 0.30 ", "3e-1"};
		if (k == "endTime") return {Num(v), "0.6000", "6.0e-1 "};
		if (k == "outputInterval") return {Num(v), "0.15", " 0.075"};
		if (k == "eps") return {Num(v), "1e-3", "1E-12"};
		if (k.substr(0, 3) == "min" || k.substr(0, 3) == "max") return {Num(v), Num(v * 1.3), H::fmt(" %.3e ", v * 0.93)};
		if (k == "l_0") return {Num(v), "0.8", "1.05"};
		if (k == "courant") return {Num(v), "0.02", "3e-1"};
		if (k == "surfaceRatio") return {Num(v), "0.5", "0.99"};
		if (k == "r_eByl_0") return {Num(v), "1.9", "2.9"};
		return {Num(v), H::fmt("%.6f", v * 1.7), H::fmt("  %.5e", v * 0.4)};
	};
	f.push_back({"params", np * 3 * np * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto a = ch(np), va = ch(3), b = ch(np), vb = ch(3); if (a > b || (a == b && va != vb)) return;
		Doc d = base; const auto set = [&](std::size_t q, uint64_t v) { auto& g = q < base.cond.size() ? d.cond : d.env; auto& kv = g[q < base.cond.size() ? q : q - base.cond.size()]; kv.second = variants(kv.first, strtod(kv.second.c_str(), nullptr))[v]; c.desc += kv.first + "=" + kv.second + " "; };
		set(a, va); if (a != b) set(b, vb);
		const double iv = d.Num("outputInterval"); const std::size_t off = iv == 0.15 ? 2 : iv == 0.075 ? 4 : 3;
		c.interesting(); RunAndCompare(c, d, scene, off, off);
	}});
	f.push_back({"elements", (np + 1) * 4 * 3, [=](uint64_t i, H::Ctx& c) {   // the order of the elements does not matter
		H::Choices ch(i); const auto rot = ch(np + 1), kind = ch(4), at = ch(3); Doc d = base; (void)at;
		std::rotate(d.env.begin(), d.env.begin() + (std::ptrdiff_t)(rot % d.env.size()), d.env.end()); std::rotate(d.cond.begin(), d.cond.begin() + (std::ptrdiff_t)(rot % d.cond.size()), d.cond.end());
		if (kind & 1) std::reverse(d.env.begin(), d.env.end()); if (kind & 2) std::reverse(d.cond.begin(), d.cond.end());
		if (at) d.env.insert(d.env.begin() + (at == 1 ? 0 : (std::ptrdiff_t)d.env.size()), {"comment", "1"});
		c.desc = H::fmt("elements rotated by %llu, reversed %llu, extra %llu", (unsigned long long)rot, (unsigned long long)kind, (unsigned long long)at); c.interesting(); RunAndCompare(c, d, scene, 3, 3);
	}});
	return f;
}

// ------------------------------------------------------------------------------------------------ C17
static std::vector<P> Read(const std::string& file) { std::vector<P> ps; if (Parse(file, ps) == INVALID) ps.clear(); return ps; }

static std::vector<H::Family> MakeC17(bool th)
{
	std::vector<H::Family> f; const auto nc = COLS.size();
	const std::vector<double> vals{0.0, -0.0, 1.0 / 3, -123456.789, 1e-7, 0.000123456789, 1e15 / 7, -1e300, 2.2250738585072014e-308, -2.5e-310, 5e-324, 999999.5, 0.99999951, 1e6, 99999.95, -1e-5, 1.7976931348623157e308, 42};
	const auto nv = vals.size();
	f.push_back({"values", (nc - 1) * nv * (nc - 1) * nv * 4, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto a = 1 + ch(nc - 1), va = ch(nv), b = 1 + ch(nc - 1), vb = ch(nv); const int type = (int)ch(4); if (a > b || (a == b && va != vb && !th)) return;
		auto ps = Three(); Field(ps[1], a) = vals[va]; Field(ps[a == b ? 2 : 1], b) = vals[vb]; for (int k = 0; k < 3; k++) ps[(std::size_t)k].type = (type + (int)((va + vb) % 4) * k) % 4;
		Env e; for (int d = 0; d < D; d++) { e.min[d] = -2; e.max[d] = 3; }
		c.desc = Csv(ps); c.interesting(); H::Hash h; HashState(h, ps); c.state(h);
		const Result r = Run(MakeDoc(e, 0, 0, 0.1, 1, Csv(ps)).Xml()); c.transitions++;
		if (!c.expect(!r.rejected && r.files.count(Name(0)), "rejected: " + r.why)) return;
		const auto first = r.files.at(Name(0));
		if (!Shows(c, first, ps, "initial output")) return;
		const Result q = Run(MakeDoc(e, 0, 0, 0.1, 1, first).Xml()); c.transitions++;
		// rounding to the printed digits can leave the range of a double only for numbers that round up past the largest one
		bool over = false; for (auto& p : ps) for (std::size_t k = 1; k < nc; k++) if (!std::isfinite(strtod(H::fmt("%g", Field(p, k)).c_str(), nullptr))) over = true;
		if (over) { c.count("rounds past the largest number"); return; }
		if (!c.expect(!q.rejected && q.files.count(Name(0)), "an output file was rejected as input: " + q.why + "\n" + first)) return;
		std::vector<P> back = Read(first); if (!Shows(c, q.files.at(Name(0)), back, "output of a restart", 0)) return;
		H::Hash o; o.s(first); c.outcome(o);
	}});
	const std::vector<uint64_t> big{254, 255, 256, 257, 998, 999, 1000, 1001, 4096, 32767, 32768, 65535, 65536, 65537};
	f.push_back({"sizes", 130 + big.size(), [=](uint64_t j, H::Ctx& c) {   // every number of particles
		const uint64_t i = j < 130 ? j : big[j - 130];
		std::vector<P> ps; for (uint64_t k = 0; k < i; k++) { P p; for (int d = 0; d < D; d++) { p.x[d] = 0.1 * (double)((k * (d + 3)) % 7); p.u[d] = (double)k + 0.5 * d; } p.p = 3.0 * (double)k; p.n = (double)k / 7; p.type = (int)(k % 4); ps.push_back(p); }
		Env e; for (int d = 0; d < D; d++) { e.min[d] = -2; e.max[d] = 3; }
		c.desc = H::fmt("%llu particles", (unsigned long long)i); if (i) c.interesting(); H::Hash h; HashState(h, ps); c.state(h);
		const Result r = Run(MakeDoc(e, 0, 0, 0.1, 1, Csv(ps)).Xml()); c.transitions++;
		if (!c.expect(!r.rejected && r.files.count(Name(0)), "rejected: " + r.why)) return;
		if (!Shows(c, r.files.at(Name(0)), ps, "initial output")) return;
		H::Hash o; o.s(r.files.at(Name(0))); c.outcome(o);
	}});
	// runs and restarts from every output, and from every output of the restarted run
	PatchSpec p5{5, 3, 5, {0.62, 0.85}, {1, 3}, {1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	const uint64_t K = 2;
	f.push_back({"restart", p5.Count() * (th ? 3 : 2), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const int fast = (int)ch(th ? 3 : 2); Scenario s = p5.Make(ch.v); for (int d = 0; d < D; d++) { s.env.min[d] = -6; s.env.max[d] = 12; }
		for (std::size_t k = 0; k < s.ps.size(); k++) if (fast && s.ps[k].type == F && k % 2) for (int d = 0; d < D; d++) s.ps[k].u[d] += (fast == 2 ? -1 : 1) * 900.0; // leaves the domain during the run
		s.env.courant = fast ? 1.5 : s.env.courant;
		for (auto& p : s.ps) { for (std::size_t k = 1; k < nc; k++) Field(p, k) = strtod(H::fmt("%g", Field(p, k)).c_str(), nullptr); }
		c.desc = H::fmt("fast=%d ", fast) + s.desc; c.interesting(); if (s.ps.empty()) return;
		Result r; Expect e; if (!RunAndCompare(c, MakeDoc(s.env, 0, 0.04, 0.02, 2, Csv(s.ps)), s.ps, 0, K, &r, &e)) return;
		if (e.failed) c.count("runs ending with a failure");
		for (std::size_t k = 0; k <= K; k++)
		{
			const auto it = r.files.find(Name(k)); if (it == r.files.end()) break;
			const auto back = Read(it->second);
			if (!c.expect(back.size() == s.ps.size(), H::fmt("output %zu cannot be read back", k))) return;
			bool dis = false; for (auto& p : back) if (p.type == DIS) dis = true; if (dis) c.count("restarts with removed particles");
			Result r2; if (!RunAndCompare(c, MakeDoc(s.env, 0.02 * (double)k, 0.02 * (double)k + 0.02, 0.02, 2, it->second), back, k, 1, &r2)) { c.msg = H::fmt("restart from output %zu: ", k) + c.msg; return; }
			const auto j = r2.files.find(Name(k + 1)); if (j == r2.files.end() || k) continue;
			if (!RunAndCompare(c, MakeDoc(s.env, 0.02 * (double)(k + 1), 0.02 * (double)(k + 2), 0.02, 2, j->second), Read(j->second), k + 1, 1)) { c.msg = "restart of a restart: " + c.msg; return; }
		}
	}});
	return f;
}

// ------------------------------------------------------------------------------------------------ C18
static std::vector<H::Family> MakeC18(bool th)
{
	std::vector<H::Family> f;
	// times in units of 1/Q as decimal literals, the way users write them
	const auto run = [](H::Ctx& c, const std::string& start, const std::string& end, const std::string& iv, int steps, std::size_t off, std::size_t n, int scene) {
		Env e; e.eps = 1e-10; e.courant = 0.2; e.g = scene == 2 ? 60 : 9.8; for (int d = 0; d < D; d++) { e.min[d] = -4; e.max[d] = 3; }
		std::vector<P> ps; for (int k = 0; k < scene; k++) { P p; p.x = V0(); p.x[0] = 1.3 * k; p.x[D - 1] = 2.5; p.u = V0(); p.u[0] = k ? 1.1 : 0.2; p.p = 0; p.type = F; ps.push_back(p); }
		for (auto& p : ps) for (std::size_t k = 1; k < COLS.size(); k++) Field(p, k) = strtod(H::fmt("%g", Field(p, k)).c_str(), nullptr);
		Doc d = MakeDoc(e, 0, 0, 1, steps, Csv(ps)); d["startTime"] = start; d["endTime"] = end; d["outputInterval"] = iv;
		c.desc = H::fmt("start=%s end=%s interval=%s steps=%d scene=%d: %zu outputs from %zu", start.c_str(), end.c_str(), iv.c_str(), steps, scene, n, off);
		if (n) c.interesting();
		RunAndCompare(c, d, ps, off, n);
	};
	const auto dec = [](uint64_t num, int digits) { uint64_t p = 1; for (int k = 0; k < digits; k++) p *= 10; return H::fmt("%llu.%0*llu", (unsigned long long)(num / p), digits, (unsigned long long)(num % p)); };
	// intervals in 1/1000; start = a intervals, end = start + n intervals
	const std::vector<uint64_t> ivs{1, 2, 5, 7, 10, 13, 20, 25, 30, 49, 50, 70, 90, 100, 110, 125, 300, 333, 700, 1000, 1100, 2500};
	const uint64_t A = th ? 80 : 40, N = th ? 40 : 16;
	f.push_back({"exact", ivs.size() * A * N, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto iv = ivs[ch(ivs.size())]; const auto n = ch(N), a = ch(A);
		run(c, dec(a * iv, 3), dec((a + n) * iv, 3), dec(iv, 3), 1, a, n, 0);
	}});
	// the same with long histories: the quotient and the sum of the intervals round more and more
	f.push_back({"long", ivs.size() * (th ? 12 : 5) * 2, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto iv = ivs[ch(ivs.size())]; const auto n = 100 + 37 * ch(th ? 12 : 5); const auto a = ch(2) ? 12345 : 0;
		run(c, dec(a * iv, 3), dec((a + n) * iv, 3), dec(iv, 3), 1, a, n, 0);
	}});
	// end not a whole number of intervals: rounded up
	f.push_back({"partial", ivs.size() * 10 * 12 * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto iv = ivs[ch(ivs.size())] * 10; const auto a = ch(10), n = ch(12), part = ch(3); const auto extra = part == 0 ? iv / 10 : part == 1 ? iv / 2 : iv - 1;
		run(c, dec(a * iv, 4), dec((a + n) * iv + extra, 4), dec(iv, 4), 1, a, n + 1, 0);
	}});
	// steps that do not divide the interval, and steps limited by the Courant condition
	f.push_back({"steps", ivs.size() * 7 * 6 * 4 * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto iv = ivs[ch(ivs.size())]; const int st = ((int[]){1, 2, 3, 4, 7, 9, 10})[ch(7)]; const auto n = ch(6), a = ch(4); const int scene = (int)ch(3);
		if (scene && iv > 400) return;
		run(c, dec(a * iv, 3), dec((a + n) * iv, 3), dec(iv, 3), st, a, n, scene);
	}});
	// very many steps per output
	static const int fine[] = {64, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 70000};
	f.push_back({"fine", 15 * 3 * 3 * 2 * 2, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const int st = fine[ch(15)]; const auto iv = ((uint64_t[]){10, 70, 300})[ch(3)]; const auto n = 1 + ch(3), a = ch(2) * 3; const int scene = (int)ch(2);
		if (st > 5000 && !th && (n > 1 || iv != 70)) return;
		run(c, dec(a * iv, 3), dec((a + n) * iv, 3), dec(iv, 3), st, a, n, scene);
	}});
	// very many outputs
	static const int outs[] = {255, 256, 257, 512, 999, 1000, 1001, 1024, 4100, 10001};
	f.push_back({"outputs", 2 * (th ? 10 : 8), [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const uint64_t n = outs[ch(th ? 10 : 8)]; const int scene = (int)ch(2); run(c, "0", dec(n * 70, 3), "0.07", 1, 0, n, scene);
	}});
	// end times at or before the start time: only the initial state
	f.push_back({"backwards", ivs.size() * 12 * 13 * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto iv = ivs[ch(ivs.size())] * 10; const auto a = ch(12), b = ch(13); const int scene = (int)ch(3); // end = b/10 intervals before the start, or at zero
		const auto back = b == 0 ? 0 : b < 7 ? b * iv / 10 : (b - 6) * iv; if (back > a * iv) return;
		run(c, dec(a * iv, 4), dec(a * iv - back, 4), dec(iv, 4), 2, a, 0, scene); c.interesting();
	}});
	// large output numbers: powers of ten, of two and the limits of the integer types on both sides
	const std::vector<uint64_t> nums{254, 998, 4094, 9998, 16382, 32766, 65534, 99998, 131070, 999998, 1048574, 9999998, 16777214, 99999998, 999999998, 2147483646, 4294967294ULL, 9999999998ULL};
	f.push_back({"numbers", nums.size() * 4 * 4 * 4, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto a = nums[ch(nums.size())] + ch(4), n = ch(4); const int k = (int)ch(4);   // intervals that are powers of two: every time is exact
		const double iv = ((double[]){1, 0.5, 0.125, 0.0009765625})[k];
		run(c, Num((double)a * iv), Num((double)(a + n) * iv), Num(iv), 1, a, n, 0);
	}});
	// intervals that are not decimal fractions: 1/3, 1/7, ... with 17 digits
	f.push_back({"thirds", 9 * 12 * 12, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const double iv = 1.0 / ((double[]){3, 7, 9, 11, 13, 30, 60, 120, 1024})[ch(9)]; const auto a = ch(12), n = ch(12);
		run(c, Num((double)a * iv), Num((double)(a + n) * iv), Num(iv), 2, a, n, 1);
	}});
	return f;
}

// ------------------------------------------------------------------------------------------------ C19
static std::vector<H::Family> MakeC19(bool th)
{
	std::vector<H::Family> f;
	const auto check = [](H::Ctx& c, const Scenario& s, double start, std::size_t off, double iv, int steps, std::size_t n) {
		if (s.ps.empty()) return;
		Expect e; if (!RunAndCompare(c, MakeDoc(s.env, start, start + iv * (double)n, iv, steps, Csv(s.ps)), s.ps, off, n, nullptr, &e)) return;
		if (e.failed) { c.interesting(); c.count(e.err == 1 ? "unsolvable pressure equation" : "overcrowded block"); c.count(H::fmt("failure in output interval %zu", e.failOut)); c.count(e.iterations == 0 ? "failure in the first step" : e.iterations < 5 ? "failure in steps 2-5" : "failure later"); }
		else c.count("no failure");
	};
	const auto round = [](Scenario& s) { for (auto& p : s.ps) for (std::size_t k = 1; k < COLS.size(); k++) Field(p, k) = strtod(H::fmt("%g", Field(p, k)).c_str(), nullptr); };
	// a stream of fluid that is carried into one search block until it overflows: the failing step moves with the distance
	const uint64_t dist = th ? 60 : 24;
	f.push_back({"crowd", dist * 4 * 3 * 3 * 4, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto q = ch(dist); const int steps = 1 + (int)ch(4); const auto st = ch(3); const std::size_t n = 2 + 2 * ch(3); const auto variant = ch(4);
		Scenario s; s.env.eps = 1e-10; s.env.g = 0; s.env.nu = 0; s.env.courant = 100; s.env.l0 = 0.01; for (int d = 0; d < D; d++) { s.env.min[d] = -1; s.env.max[d] = 9; }
		s.env.l0 = 0.1; s.env.re = 2.1; s.env.courant = 0.1; for (int d = 0; d < D; d++) { s.env.min[d] = -1; s.env.max[d] = 5; }
		// many particles on two lines, far apart, every one moving towards the same point
		const int m = D == 3 ? 90 : 40; Vec target = V0(); for (auto& v : target) v = 2.05;
		for (int k = 0; k < m; k++)
		{
			P p; const double ang = 6.283185307179586 * k / m; Vec dir = V0(); dir[0] = std::cos(ang); dir[D - 1] = std::sin(ang);
			if (variant & 1) { dir[0] = k % 2 ? 1 : -1; dir[D - 1] = 0.4 * (k / 2 - m / 4) / (double)m; }
			const double r = 0.9 + 0.05 * (double)q + ((variant & 2) ? 0.004 * k : 0); p.x = R::operator+(target, R::operator*(r, dir)); p.u = R::operator*(-6.0, dir); p.type = F; s.ps.push_back(p);
		}
		s.desc = H::fmt("crowd q=%llu steps=%d variant=%llu", (unsigned long long)q, steps, (unsigned long long)variant); c.desc = s.desc; round(s);
		const double iv = 0.05; check(c, s, st == 0 ? 0 : st == 1 ? 0.25 : 7.5, st == 0 ? 0 : st == 1 ? 5 : 150, iv, steps, n);
	}});
	// overcrowded from the beginning
	f.push_back({"first", 3 * 4 * 30, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto st = ch(3); const int type = (int)ch(4); const auto m = ch(30) * (D == 3 ? 4 : 2);
		Scenario s; for (int d = 0; d < D; d++) { s.env.min[d] = -1; s.env.max[d] = 5; } s.env.eps = 1e-10;
		for (uint64_t k = 0; k < m; k++) { P p; p.x = V0(); p.x[0] = 1 + 0.01 * (double)k; p.x[D - 1] = 1 + 0.003 * (double)(k % 5); p.u = V0(); p.type = type; s.ps.push_back(p); }
		c.desc = s.desc = H::fmt("%llu particles of type %d in one block", (unsigned long long)m, type); round(s); check(c, s, st == 0 ? 0 : st == 1 ? 0.1 : 1.3, st == 0 ? 0 : st == 1 ? 1 : 13, 0.1, 3, 2);
	}});
	// scenes whose pressure equation becomes unsolvable at some step
	PatchSpec p6{6, 3, 3, {0.55, 0.75}, {1, 3}, {0, 1}, {1}, {0.01}, {0.1}, {0.3}, {1e-10}, {1.0}, {2.4}, 1};
	f.push_back({"unsolvable", p6.Count() * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto st = ch(3); Scenario s = p6.Make(ch.v); for (int d = 0; d < D; d++) { s.env.min[d] = -6; s.env.max[d] = 12; } round(s); c.desc = s.desc;
		check(c, s, st == 0 ? 0 : st == 1 ? 0.06 : 3, st == 0 ? 0 : st == 1 ? 3 : 150, 0.02, 1 + (int)st, 3);
	}});
	// pairs and triples of particles that meet after some steps (closed groups)
	f.push_back({"meet", 40 * 5 * 3 * 3 * 3, [=](uint64_t i, H::Ctx& c) {
		H::Choices ch(i); const auto q = ch(40); const int steps = 1 + (int)ch(5); const auto st = ch(3); const int m = 2 + (int)ch(3), shape = (int)ch(3);
		Scenario s; s.env.eps = 1e-10; s.env.g = 0; s.env.courant = 0.45; for (int d = 0; d < D; d++) { s.env.min[d] = -6; s.env.max[d] = 14; }
		for (int k = 0; k < m; k++) { P p; p.x = V0(); for (auto& v : p.x) v = 3; p.x[0] += (k % 2 ? 1 : -1) * (1.0 + 0.06 * (double)q) + (k / 2) * 0.45; p.x[D - 1] += 0.31 * k * (shape ? 1 : 0); p.u = V0(); p.u[0] = (k % 2 ? -1 : 1) * (shape == 2 ? 4.0 + k : 3.0); p.type = F; s.ps.push_back(p); }
		s.desc = H::fmt("meet q=%llu steps=%d m=%d shape=%d", (unsigned long long)q, steps, m, shape); c.desc = s.desc; round(s);
		check(c, s, st == 0 ? 0 : st == 1 ? 0.3 : 9, st == 0 ? 0 : st == 1 ? 3 : 90, 0.1, steps, 6);
	}});
	return f;
}

// ------------------------------------------------------------------------------------------------ C26
static std::vector<H::Family> MakeC26(bool th)
{
	std::vector<H::Family> f;
	const auto take = [&](std::vector<H::Family> from, const std::set<std::string>& names) { for (auto& q : from) if (names.count(q.name)) f.push_back(q); };
	take(MakeC18(th), {"long", "partial", "steps", "backwards", "numbers", "thirds", "fine", "outputs"}); take(MakeC17(th), {"restart"}); take(MakeC19(th), {"crowd", "first", "meet"});
	return f;
}

static std::vector<H::Family> Make(bool th)
{
	if (prop == "C26") return MakeC26(th);
	if (prop == "C16") return MakeC16(th);
	if (prop == "C17") return MakeC17(th);
	if (prop == "C18") return MakeC18(th);
	return MakeC19(th);
}
int main(int argc, char** argv)
{
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
	return H::Main(argc, argv, Make);
}
