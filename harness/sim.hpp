// Thin adapter over the real code. It uses the public API of Computer and, through the friend declaration that
// the repository's own tests use (TEST_IMPLICITFORCES), the stage functions those tests call.
#ifndef SIM_HPP
#define SIM_HPP
#include <tuple>
#include <memory>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <cmath>
#include <functional>
#define TEST_IMPLICITFORCES
#include "Computer.hpp"
#include "h.hpp"

// scheme options this build was made with (given by the check's build specification, not read from the code)
#ifndef O_HS
#define O_HS 1
#endif
#ifndef O_HL
#define O_HL 1
#endif
#ifndef O_ECS
#define O_ECS 1
#endif
#ifndef O_DS
#define O_DS 1
#endif
#ifndef O_SPP
#define O_SPP 1
#endif
#ifndef O_GC
#define O_GC 0
#endif
#ifndef O_EXPL
#define O_EXPL 0
#endif
#ifndef O_CENTRAL
#define O_CENTRAL 0
#endif
#ifndef O_DIM
#define O_DIM 2
#endif

namespace S
{
	constexpr int D = O_DIM;
	using Vec = std::array<double, D>;
	inline Vec V0() { Vec v; v.fill(0); return v; }
	enum T : int { F = 0, W = 1, DM = 2, DIS = 3 };

	struct P
	{
		Vec x, u; double p = 0, n = 0; int type = F;
	};

	struct Env
	{
		double maxDt = 0.01, courant = 0.1, g = 9.8, rho = 1000, nu = 1e-6, surfaceRatio = 0.95, re = 2.4, c = 10, l0 = 1, eps = 1e-12;
		Vec min, max;
		Env() { min.fill(-5); max.fill(15); }
	};
}

namespace { namespace OpenMps
{
	struct WallFn { std::function<Vector(std::size_t, double, double)> f; Vector operator()(std::size_t i, double t, double dt) const { return f(i, t, dt); } };
	struct PreFn { std::function<void(double, double)> f; void operator()(double t, double dt) const { f(t, dt); } };
	using Comp = Computer<const WallFn&, const PreFn&>;

	inline Environment MakeEnv(const S::Env& e)
	{
		return Environment(e.maxDt, e.courant, e.g, e.rho, e.nu,
#if !O_SPP
			e.surfaceRatio,
#endif
			e.re,
#if O_EXPL
			e.c,
#endif
			e.l0,
#if O_DIM == 3
			e.min[0], e.min[1], e.min[2], e.max[0], e.max[1], e.max[2]
#else
			e.min[0], e.min[1], e.max[0], e.max[1]
#endif
		);
	}

	inline Vector ToV(const S::Vec& v) { Vector r; for (int d = 0; d < S::D; d++) r[d] = v[d]; return r; }
	inline S::Vec FromV(const Vector& v) { S::Vec r; for (int d = 0; d < S::D; d++) r[d] = v[d]; return r; }

	inline Particle MakeParticle(const S::P& q)
	{
		Particle p(static_cast<Particle::Type>(q.type));
		for (int d = 0; d < S::D; d++) { p.X()[d] = q.x[d]; p.U()[d] = q.u[d]; }
		p.P() = q.p; p.N() = q.n;
		return p;
	}
	inline S::P FromParticle(const Particle& p)
	{
		S::P q; q.x = FromV(p.X()); q.u = FromV(p.U()); q.p = p.P(); q.n = p.N(); q.type = static_cast<int>(p.TYPE());
		return q;
	}

	// the repository's tests reach the stages of a step through a friend of this name
	class ImplicitForcesTest
	{
	public:
		template<typename C> static auto& Particles(C& c) { return c.particles; }
		template<typename C> static void Search(C& c) { c.SearchNeighbor(); }
		template<typename C> static std::size_t Count(C& c, std::size_t i) { return c.NeighborCount(i); }
		template<typename C> static std::size_t Nb(C& c, std::size_t i, std::size_t k) { return c.Neighbor(i, k); }
		template<typename C> static void Densities(C& c) { c.ComputeNeighborDensities(); }
		template<typename C> static double Speed(C& c, std::size_t i) { return c.NeighborDensityVariationSpeed(i); }
		template<typename C> static auto& Ppe(C& c) { return c.ppe; }
		template<typename C> static void SetPpe(C& c) { c.SetPressurePoissonEquation(); }
		template<typename C> static void SolvePpe(C& c) { c.SolvePressurePoissonEquation(); }
		template<typename C> static double R(const Vector& a, const Vector& b) { return C::R(a, b); }
	};
	using Acc = ImplicitForcesTest;
}}

namespace S
{
	// One simulation: the real Computer plus recorded callbacks
	struct Sim
	{
		Env env;
		std::function<Vec(std::size_t, double, double)> wall;
		OpenMps::WallFn wf;
		OpenMps::PreFn pf;
		std::vector<std::pair<double, double>> preCalls;
		std::vector<std::array<double, 3>> wallCalls; // i, t, dt
		std::vector<std::size_t> wallOrder;           // number of pre calls seen at each wall call
		bool record = false;
		OpenMps::Comp c;

		// default: every non-fluid particle stays at the position it was added at
		std::vector<Vec> home;

		explicit Sim(const Env& e)
			: env(e),
			wf{[this](std::size_t i, double t, double dt) {
				if (record) { wallCalls.push_back({(double)i, t, dt}); wallOrder.push_back(preCalls.size()); }
				return OpenMps::ToV(wall ? wall(i, t, dt) : home.at(i)); }},
			pf{[this](double t, double dt) { if (record) preCalls.emplace_back(t, dt); }},
			c(OpenMps::CreateComputer(
#if !O_EXPL
				e.eps,
#endif
				OpenMps::MakeEnv(e), wf, pf))
		{}
		Sim(const Sim&) = delete;

		void Add(const std::vector<P>& ps)
		{
			std::vector<OpenMps::Particle> v;
			for (auto& q : ps) { v.push_back(OpenMps::MakeParticle(q)); home.push_back(q.x); }
			c.AddParticles(std::move(v));
		}
		// the simulation is moved to another object and back
		void Move() { using C = OpenMps::Comp; C t(std::move(c)); c.~C(); new (&c) C(std::move(t)); }
		std::vector<P> Get() const
		{
			std::vector<P> r; r.reserve(c.Particles().size());
			for (auto& p : c.Particles()) { r.push_back(OpenMps::FromParticle(p)); auto& q = r.back(); H::Defined(&q.x, sizeof q.x); H::Defined(&q.u, sizeof q.u); H::Defined(&q.p, sizeof q.p); H::Defined(&q.n, sizeof q.n); H::Defined(&q.type, sizeof q.type); }
			return r;
		}
		double T() const { return c.GetEnvironment().T(); }
		double Dt() const { return c.GetEnvironment().Dt(); }
		// returns false when the step reported a computing error
		bool Step(double dt)
		{
			try { c.ForwardTime(dt); return true; }
			catch (const OpenMps::Comp::Exception&) { err = 1; return false; }
			catch (const OpenMps::Grid::Exception&) { err = 2; return false; }
		}
		bool Step()
		{
			try { c.ForwardTime(); return true; }
			catch (const OpenMps::Comp::Exception&) { err = 1; return false; }
			catch (const OpenMps::Grid::Exception&) { err = 2; return false; }
		}
		int err = 0;
	};

	inline void HashState(H::Hash& h, const std::vector<P>& ps)
	{
		for (auto& p : ps) { for (auto v : p.x) h.d(v); for (auto v : p.u) h.d(v); h.d(p.p); h.d(p.n); h.u(p.type); }
	}

	inline std::string Show(const std::vector<P>& ps, std::size_t max = 12)
	{
		std::string s;
		for (std::size_t i = 0; i < ps.size() && i < max; i++)
		{
			auto& p = ps[i];
			s += H::fmt("%s%c(", i ? " " : "", "FWDX"[p.type & 3]);
			for (int d = 0; d < D; d++) s += H::fmt("%s%.6g", d ? "," : "", p.x[d]);
			s += ";";
			for (int d = 0; d < D; d++) s += H::fmt("%s%.4g", d ? "," : "", p.u[d]);
			s += H::fmt(";p%.4g)", p.p);
		}
		if (ps.size() > max) s += H::fmt(" ... %zu particles", ps.size());
		return s;
	}
}
#endif
