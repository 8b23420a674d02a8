// omc: a controlled OpenMP runtime with access monitoring, for exhaustive exploration of the schedules of real code.
//
// The code under test is compiled with -fopenmp -fsanitize=thread but linked against this runtime instead of libgomp and
// libtsan: GOMP_* entry points run the threads of a team as coroutines under a scheduler that this file controls, and the
// __tsan_* entry points report every access to memory.  Scheduling points are the synchronising operations (atomics,
// critical sections, locks, mutexes, barriers, dynamic loop chunks).  Explore() enumerates every order of them (sleep sets
// skip orders that only swap independent operations), and in every execution every pair of conflicting accesses that no
// synchronisation orders is reported (vector clocks).  If no execution has such a pair, executions that differ only in the
// order of other instructions cannot differ in their result, so the enumeration covers every interleaving.
#ifndef OMC_HPP
#define OMC_HPP
#include <cstdint>
#include <functional>
#include <string>
namespace omc
{
	struct Stats
	{
		std::uint64_t executions = 0, redundant = 0, points = 0, choices = 0, regions = 0, accesses = 0, threads = 0, syncs = 0;
		bool complete = true;
	};
	// runs `run` once for every order of the synchronising operations of the teams it starts (at most `limit` executions).
	// `run` returns false to stop.  Returns an empty string, or the description of a data race / deadlock / divergence.
	std::string Explore(int threads, std::uint64_t limit, const std::function<bool()>& run, Stats& stats);
}
#endif
