#ifndef PROG_HPP
#define PROG_HPP
// The real main() as a function of generated input files, run in a scratch directory.
// What the program must write is computed by driving Computer directly; only Main.cpp is under test here.
#include "scen.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
#include <regex>

// the program creates its output directory through the shell; here the call only creates it in the scratch directory
static int systemCalls = 0;
extern "C" int system(const char* cmd) { systemCalls++; if (cmd && strstr(cmd, "mkdir")) return mkdir("result", 0755) ? 256 : 0; return cmd ? -1 : 0; }

#define main openmps_main
#include "Main.cpp"
#undef main

using namespace G;
static std::string prop;

// ------------------------------------------------------------------------------------------------ the program as a function
struct Result { bool rejected = false; std::string why, out; std::map<std::string, std::string> files; };
static void Wipe()
{
	if (DIR* d = opendir("result")) { while (auto* e = readdir(d)) if (e->d_name[0] != '.') unlink((std::string("result/") + e->d_name).c_str()); closedir(d); }
}
static Result Run(const std::string& xml)
{
	Wipe();
	{ std::ofstream f("in.xml", std::ios::binary); f << xml; }
	Result r; std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf());
	const char* argv[] = {"OpenMps", "in.xml", nullptr};
	try { const int rc = openmps_main(2, argv); if (rc) { r.rejected = true; r.why = H::fmt("exit %d", rc); } }
	catch (const std::exception& e) { r.rejected = true; r.why = e.what(); }
	catch (...) { r.rejected = true; r.why = "?"; }
	std::cout.rdbuf(old); r.out = os.str();
	if (DIR* d = opendir("result"))
	{
		while (auto* e = readdir(d)) if (e->d_name[0] != '.') { std::ifstream f(std::string("result/") + e->d_name, std::ios::binary); std::ostringstream s; s << f.rdbuf(); r.files[e->d_name] = s.str(); }
		closedir(d);
	}
	return r;
}

// ------------------------------------------------------------------------------------------------ input files
static const std::vector<std::string> COLS = D == 3 ? std::vector<std::string>{"Type", "x", "y", "z", "u", "v", "w", "p", "n"} : std::vector<std::string>{"Type", "x", "z", "u", "w", "p", "n"};
static double& Field(P& p, std::size_t col) { const auto k = col - 1; if (k < (std::size_t)D) return p.x[k]; if (k < 2 * (std::size_t)D) return p.u[k - D]; return k == 2 * (std::size_t)D ? p.p : p.n; }
static double Field(const P& p, std::size_t col) { return Field(const_cast<P&>(p), col); }

struct Doc
{
	std::vector<std::pair<std::string, std::string>> cond, env;
	std::string text; std::string attr = " type=\"csv\""; bool particles = true;
	std::string Xml() const
	{
		std::string s = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<openmps>\n<condition>\n";
		for (auto& [k, v] : cond) s += "<" + k + " value=\"" + v + "\" /> <!-- c -->\n";
		s += "</condition>\n<environment>\n";
		for (auto& [k, v] : env) s += "<" + k + " value=\"" + v + "\" />\n";
		s += "</environment>\n";
		if (particles) s += "<particles" + attr + ">" + text + "</particles>\n";
		return s + "</openmps>\n";
	}
	std::string& operator[](const std::string& k) { for (auto* g : {&cond, &env}) for (auto& q : *g) if (q.first == k) return q.second; throw std::logic_error(k); }
	double Num(const std::string& k) const { for (auto* g : {&cond, &env}) for (auto& q : *g) if (q.first == k) return strtod(q.second.c_str(), nullptr); throw std::logic_error(k); }
	bool Has(const std::string& k) const { for (auto* g : {&cond, &env}) for (auto& q : *g) if (q.first == k) return true; return false; }
};
static std::string Num(double v) { return H::fmt("%.17g", v); }
static Doc MakeDoc(const Env& e, double start, double end, double interval, int minSteps, const std::string& text)
{
	Doc d; d.text = text;
	d.cond = {{"startTime", Num(start)}, {"endTime", Num(end)}, {"outputInterval", Num(interval)}};
#if !O_EXPL
	d.cond.push_back({"eps", Num(e.eps)});
#endif
	d.env = {{"l_0", Num(e.l0)}, {"minStepCountPerOutput", std::to_string(minSteps)}, {"courant", Num(e.courant)}, {"g", Num(e.g)}, {"rho", Num(e.rho)}, {"nu", Num(e.nu)}, {"r_eByl_0", Num(e.re)}};
#if !O_SPP
	d.env.push_back({"surfaceRatio", Num(e.surfaceRatio)});
#endif
#if O_EXPL
	d.env.push_back({"c", Num(e.c)});
#endif
	static const char* ax[] = {"X", D == 3 ? "Y" : "Z", "Z"};
	for (int k = 0; k < D; k++) d.env.push_back({std::string("min") + ax[k], Num(e.min[k])});
	for (int k = 0; k < D; k++) d.env.push_back({std::string("max") + ax[k], Num(e.max[k])});
	return d;
}
// the environment the written parameters mean
static Env EnvOf(const Doc& d)
{
	Env e; e.l0 = d.Num("l_0"); e.courant = d.Num("courant"); e.g = d.Num("g"); e.rho = d.Num("rho"); e.nu = d.Num("nu"); e.re = d.Num("r_eByl_0");
	e.maxDt = d.Num("outputInterval") / d.Num("minStepCountPerOutput");
	if (d.Has("eps")) e.eps = d.Num("eps"); if (d.Has("surfaceRatio")) e.surfaceRatio = d.Num("surfaceRatio"); if (d.Has("c")) e.c = d.Num("c");
	static const char* ax[] = {"X", D == 3 ? "Y" : "Z", "Z"};
	for (int k = 0; k < D; k++) { e.min[k] = d.Num(std::string("min") + ax[k]); e.max[k] = d.Num(std::string("max") + ax[k]); }
	return e;
}
static std::string Csv(const std::vector<P>& ps)
{
	std::string s = "\n"; for (std::size_t k = 0; k < COLS.size(); k++) s += (k ? ", " : "") + COLS[k]; s += "\n";
	for (auto& p : ps) { s += std::to_string(p.type); for (std::size_t k = 1; k < COLS.size(); k++) s += ", " + Num(Field(p, k)); s += "\n"; }
	return s;
}

// ------------------------------------------------------------------------------------------------ reading of particle tables (reference)
enum Verdict { VALID, INVALID, OPEN };   // OPEN: the properties do not say what such a text means
static std::string Trim(const std::string& s) { const char* ws = " \t\r"; const auto a = s.find_first_not_of(ws); if (a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(ws) - a + 1); }
static Verdict Parse(const std::string& text, std::vector<P>& ps)
{
	ps.clear(); bool open = false; std::vector<int> col; bool header = false;
	std::size_t b = 0;
	while (b <= text.size())
	{
		auto e = text.find('\n', b); if (e == std::string::npos) e = text.size();
		const std::string line = text.substr(b, e - b); b = e + 1;
		if (Trim(line).empty()) continue;
		std::vector<std::string> cells; std::size_t q = 0;
		while (true) { auto c = line.find(',', q); cells.push_back(Trim(line.substr(q, c == std::string::npos ? std::string::npos : c - q))); if (c == std::string::npos) break; q = c + 1; }
		for (auto& c : cells) if (c.find_first_of(" \t\r") != std::string::npos) open = true;
		if (!header)
		{
			header = true; std::set<int> have;
			for (auto& c : cells)
			{
				std::string k; for (char ch : c) if (!strchr(" \t\r", ch)) k += ch;
				const auto it = std::find(COLS.begin(), COLS.end(), k); if (it == COLS.end()) return INVALID;
				if (!have.insert((int)(it - COLS.begin())).second) open = true;
				col.push_back((int)(it - COLS.begin()));
			}
			if (have.size() != COLS.size()) return INVALID;
			continue;
		}
		if (cells.size() < col.size()) return open ? OPEN : INVALID;
		if (cells.size() > col.size()) open = true;
		P p; p.x = V0(); p.u = V0();
		for (std::size_t k = 0; k < col.size(); k++)
		{
			const auto& c = cells[k]; std::size_t i = 0; const auto dig = [&] { std::size_t n = 0; while (i < c.size() && isdigit((unsigned char)c[i])) { i++; n++; } return n; };
			if (i < c.size() && (c[i] == '+' || c[i] == '-')) i++;
			const auto sg = i; std::size_t n = dig(); const bool integer = n > 0 && i == c.size();
			if (i < c.size() && c[i] == '.') { i++; n += dig(); }
			if (n && i < c.size() && (c[i] == 'e' || c[i] == 'E')) { const auto keep = i; i++; if (i < c.size() && (c[i] == '+' || c[i] == '-')) i++; if (!dig()) i = keep; }
			const bool decimal = n > 0 && i == c.size();
			if (col[k] == 0)
			{
				if (integer) { const double v = strtod(c.c_str(), nullptr); if (v < 0 || v > 3) return open ? OPEN : INVALID; p.type = (int)v; }
				else if (decimal || (c.size() > sg && c.find_first_of("xXnNiI", sg) == sg)) { if (decimal) open = true; else return open ? OPEN : INVALID; }
				else return open ? OPEN : INVALID;
			}
			else if (decimal) { const double v = strtod(c.c_str(), nullptr); if (!std::isfinite(v)) return open ? OPEN : INVALID; Field(p, (std::size_t)col[k]) = v; }
			else
			{
				// other spellings of numbers (hexadecimal, infinity, not a number) are left open
				char* end; (void)strtod(c.c_str(), &end); if (!c.empty() && *end == 0) open = true; else return open ? OPEN : INVALID;
			}
		}
		ps.push_back(p);
	}
	if (!header) return INVALID;
	return open ? OPEN : VALID;
}

// the rows of an output file against the particles they must show
static bool Shows(H::Ctx& c, const std::string& text, const std::vector<P>& want, const std::string& what, double rel = 5.1e-6, double abs = 0)
{
	std::vector<std::string> lines; std::size_t b = 0;
	if (!c.expect(!text.empty() && text.back() == '\n', what + ": the file does not end with a complete line")) return false;
	while (b < text.size()) { const auto e = text.find('\n', b); lines.push_back(text.substr(b, e - b)); b = e + 1; }
	const auto split = [](const std::string& l) { std::vector<std::string> r; std::size_t q = 0; while (true) { const auto k = l.find(',', q); r.push_back(Trim(l.substr(q, k == std::string::npos ? std::string::npos : k - q))); if (k == std::string::npos) return r; q = k + 1; } };
	const auto head = split(lines[0]);
	if (!c.expect(lines.size() == want.size() + 1, H::fmt("%s: %zu rows for %zu particles", what.c_str(), lines.size() - 1, want.size()))) return false;
	if (!c.expect(head.size() == COLS.size(), what + ": header is " + lines[0])) return false;
	double us = 0, ps = 0; if (abs > 0) for (auto& p : want) { us = std::max(us, R::len(p.u)); ps = std::max(ps, std::abs(p.p)); }
	for (std::size_t i = 0; i < want.size(); i++)
	{
		const auto cells = split(lines[i + 1]);
		if (!c.expect(cells.size() == COLS.size(), H::fmt("%s: row of particle %zu is %s", what.c_str(), i, lines[i + 1].c_str()))) return false;
		for (std::size_t k = 0; k < COLS.size(); k++)
		{
			const auto it = std::find(head.begin(), head.end(), COLS[k]); if (!c.expect(it != head.end(), what + ": no column " + COLS[k])) return false;
			const auto& cell = cells[(std::size_t)(it - head.begin())]; char* end; const double got = strtod(cell.c_str(), &end);
			const double w = k == 0 ? want[i].type : Field(want[i], k);
			const bool u = k > (std::size_t)D && k <= 2 * (std::size_t)D, x = k && k <= (std::size_t)D;
			const double tol = k == 0 ? 0 : rel * std::abs(w) + abs * (x ? 1.0 : u ? us : k == 2 * (std::size_t)D + 1 ? ps : 1.0);
			const bool same = std::isnan(w) ? std::isnan(got) : std::isinf(w) ? got == w : std::abs(got - w) <= tol;
			if (!c.expect(!cell.empty() && *end == 0 && same, H::fmt("%s: %s of particle %zu is '%s', the state has %.9g", what.c_str(), COLS[k].c_str(), i, cell.c_str(), w))) return false;
		}
	}
	return true;
}
static std::string Name(std::size_t n) { return H::fmt("particles_%05zu.csv", n); }

// ------------------------------------------------------------------------------------------------ a whole run
struct Expect
{
	bool failed = false; std::size_t failOut = 0, iterations = 0; int err = 0;
};
static std::vector<double> Numbers(const std::string& s)
{
	std::vector<double> r; const char* p = s.c_str();
	while (*p) { if (isdigit((unsigned char)*p) || ((*p == '-' || *p == '.') && isdigit((unsigned char)p[1]))) { char* e; r.push_back(strtod(p, &e)); p = e; } else p++; }
	return r;
}

// what the program says about its outputs: one line each, with number, time, steps so far and particles still there
struct Said { std::size_t output; double t; std::size_t it, count; };
static std::size_t Present(const std::vector<P>& ps) { std::size_t n = 0; for (auto& p : ps) n += p.type != DIS; return n; }
static bool Report(H::Ctx& c, const std::string& out, std::size_t read, const std::vector<Said>& want)
{
	const auto stop = std::min(out.find("!ERROR"), out.find("finished")); std::vector<std::string> lines; std::string head; std::size_t b = 0; const std::string text = out.substr(0, stop);
	while (b < text.size()) { auto e = text.find('\n', b); if (e == std::string::npos) e = text.size(); const auto l = text.substr(b, e - b); b = e + 1; if (!l.empty() && l[0] == '#') lines.push_back(l); else if (lines.empty()) head += l + "\n"; }
	const auto hn = Numbers(head);
	if (!c.expect(std::find(hn.begin(), hn.end(), (double)read) != hn.end(), H::fmt("the number of particles read (%zu) is not reported: %s", read, head.c_str()))) return false;
	if (!c.expect(lines.size() == want.size(), H::fmt("%zu outputs announced, %zu written", lines.size(), want.size()))) return false;
	for (std::size_t k = 0; k < want.size(); k++)
	{
		const auto n = Numbers(lines[k]); const auto& w = want[k];
		if (!c.expect(n.size() > 3 && n[0] == (double)w.output && std::abs(n[1] - w.t) <= 5.1e-5 + 1e-12 * std::abs(w.t) && n[2] == (double)w.it && n[3] == (double)w.count,
			H::fmt("output %zu, time %.9g, %zu steps, %zu particles is announced as: %s", w.output, w.t, w.it, w.count, lines[k].c_str()))) return false;
	}
	return true;
}

static double Announced(const std::string& out, std::size_t output)
{
	for (std::size_t q = 0; (q = out.find('#', q)) != std::string::npos; q++) { const auto n = Numbers(out.substr(q + 1, out.find('\n', q) - q - 1)); if (n.size() > 3 && n[0] == (double)output) return n[2]; }
	return -1;
}

// runs the program and compares every output; offset: number of the first output
static bool RunAndCompare(H::Ctx& c, const Doc& d, const std::vector<P>& ps, std::size_t offset, std::size_t n, Result* keep = nullptr, Expect* keepE = nullptr)
{
	const Result r = Run(d.Xml());
	c.transitions += 1;
	if (!c.expect(!r.rejected, "a well-formed input was rejected: " + r.why)) return false;
	// states that may count as having reached an output time only up to rounding: let the twin take both ways
	const double iv = d.Num("outputInterval"), tol = 1e-9 * iv;
	Expect e; Sim s(EnvOf(d)); s.Add(ps); std::size_t it = 0; std::size_t k = 0; bool failed = false; double failT = 0;
	const auto check = [&](std::size_t q, const std::vector<P>& st, H::Ctx& cc) { const auto f = r.files.find(Name(offset + q)); return cc.expect(f != r.files.end(), H::fmt("output %zu is missing", offset + q)) && Shows(cc, f->second, st, H::fmt("output %zu", offset + q), 5.1e-6, q ? 1e-9 : 0); };
	if (!check(0, s.Get(), c)) return false;
	H::Hash h; HashState(h, s.Get()); const double start = d.Num("startTime");
	std::vector<Said> said; const auto say = [&](std::size_t q) { said.push_back({offset + q, start + s.T(), it, Present(s.Get())}); }; say(0);
	for (k = 1; k <= n && !failed; k++)
	{
		const double target = iv * (double)k;
		const auto step = [&]() { const double before = s.T(); if (s.Step()) { it++; return true; } failed = true; failT = before; return false; };
		while (!failed && s.T() < target - tol) { if (!step()) break; if (it > 100000) throw std::runtime_error("too many steps"); }
		if (failed) break;
		// reached only up to rounding: either state may be shown; where both look the same, the program's own count of steps tells which one it took
		if (prop == "C26" && s.T() < target && Announced(r.out, offset + k) == (double)(it + 1)) { if (!step()) break; }
		H::Ctx first; const auto st = s.Get();
		if (check(k, st, first)) { HashState(h, st); say(k); continue; }
		if (s.T() < target + tol && s.T() < target * (1 + 1e-15) + 1e-300) // reached only up to rounding: one more step is allowed
		{
			if (!step()) break;
			c.count("output time met only up to rounding");
			if (!check(k, s.Get(), c)) { c.msg = first.msg + " / " + c.msg; return false; }
			HashState(h, s.Get()); say(k);
			continue;
		}
		return c.fail(first.msg);
	}
	c.transitions += it; c.state(h);
	const std::size_t want = failed ? k : n + 1;
	for (auto& f : r.files) { bool known = false; for (std::size_t q = 0; q < want; q++) if (f.first == Name(offset + q)) known = true; if (!c.expect(known, "unexpected output file " + f.first + (failed ? H::fmt(" (failure in output %zu)", offset + k) : ""))) return false; }
	if (prop == "C26" && !Report(c, r.out, ps.size(), said)) return false;
	// the closing message is the last line, printed once
	const auto fin = r.out.rfind("finished"); const auto tail = fin == std::string::npos ? 0 : r.out.find_first_not_of(" \t\r\n", std::min(r.out.find('\n', fin), r.out.size()));
	if (!c.expect(fin != std::string::npos && tail == std::string::npos && r.out.find("finished") == fin, "the program does not end with its closing message: ..." + r.out.substr(r.out.size() > 200 ? r.out.size() - 200 : 0))) return false;
	const auto err = r.out.find("ERROR");
	if (!c.expect((err != std::string::npos) == failed, failed ? "the failure is not reported" : "an error is reported although nothing failed")) return false;
	if (failed)
	{
		const std::string rep = r.out.substr(err, fin - err); const auto nums = Numbers(rep);
		const auto has = [&](double v, double tl) { for (auto x : nums) if (std::abs(std::abs(x) - v) <= tl) return true; return false; };
		const double t = failT + d.Num("startTime");
		if (!c.expect(has((double)(offset + k), 1e-9), H::fmt("the report of the failure does not give the output number %zu: %s", offset + k, rep.c_str()))) return false;
		if (!c.expect(has((double)it, 1e-9), H::fmt("the report of the failure does not give the iteration %zu: %s", it, rep.c_str()))) return false;
		if (!c.expect(has(std::abs(t), 1e-5 * std::abs(t) + 1e-12), H::fmt("the report of the failure does not give the time %.9g: %s", t, rep.c_str()))) return false;
	}
	H::Hash o; o.u(failed); o.u(it); o.u(want); o.u((uint64_t)s.err); c.outcome(o);
	if (keep) *keep = r;
	if (keepE) { keepE->failed = failed; keepE->failOut = k; keepE->iterations = it; keepE->err = s.err; }
	return true;
}

// a run of a text whose meaning the reference reader decides
static void RunText(H::Ctx& c, const std::string& text, const std::string& what)
{
	static const Env e = [] { Env e; e.eps = 1e-10; for (int d = 0; d < D; d++) { e.min[d] = -2; e.max[d] = 3; } return e; }();
	Doc d = MakeDoc(e, 0, 0, 0.1, 1, text);
	c.desc = what + ": " + text.substr(0, 900);
	std::vector<P> ps; const auto v = Parse(text, ps);
	const Result r = Run(d.Xml()); c.transitions++;
	H::Hash h; h.s(text); c.state(h); H::Hash o; o.u(r.rejected); o.s(r.why); o.u(ps.size()); for (auto& p : ps) o.u((uint64_t)p.type); c.outcome(o);
	if (v == OPEN) { c.count("left open by the property"); return; }
	c.interesting();
	if (v == INVALID)
	{
		c.count("to be rejected");
		if (!c.expect(r.rejected, H::fmt("accepted although it must be rejected (first output: %s)", r.files.empty() ? "none" : r.files.begin()->second.substr(0, 200).c_str()))) return;
		c.expect(r.files.empty(), "rejected, but an output was written first");
		return;
	}
	c.count("well-formed");
	if (!c.expect(!r.rejected, "well-formed, but rejected: " + r.why)) return;
	if (!c.expect(r.files.size() == 1 && r.files.count(Name(0)), H::fmt("%zu output files instead of the initial one", r.files.size()))) return;
	Shows(c, r.files.at(Name(0)), ps, "initial state");
}
#endif
