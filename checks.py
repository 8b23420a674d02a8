# What each check runs: builds (scheme options of the code under test) and jobs (harness x build).
import itertools


def _b(off=(), macros=(), opt="-O2", **kw):
    """off: options of defines.hpp to switch off; macros: options to switch on."""
    o = {"MPS_HS": "O_HS=0", "MPS_HL": "O_HL=0", "MPS_ECS": "O_ECS=0", "MPS_DS": "O_DS=0", "MPS_SPP": "O_SPP=0"}
    m = {"MPS_GC": "O_GC=1", "PRESSURE_EXPLICIT": "O_EXPL=1", "DIM3": "O_DIM=3", "CENTRAL_GRAVITY": "O_CENTRAL=1"}
    flags = ["-D" + o[x] for x in off if x in o] + ["-D" + x for x in macros] + ["-D" + m[x] for x in macros]
    return dict({"opt": opt, "off": list(off), "flags": flags}, **kw)


BUILDS = {
    "std": _b(),
    "dim3": _b(macros=["DIM3"]),
    "gc2": _b(macros=["MPS_GC"]),
    "gc3": _b(macros=["MPS_GC", "DIM3"]),
    "nospp": _b(["MPS_SPP"]),
    "expl": _b(macros=["PRESSURE_EXPLICIT"]),
    "central": _b(macros=["CENTRAL_GRAVITY"]),
    "central3": _b(macros=["CENTRAL_GRAVITY", "DIM3"]),
    "ublas": _b(["USE_VIENNACL"], omp=False),
    "plain": _b(["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP"]),
    "plain3": _b(["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP"], ["DIM3"]),
    "asan": _b(opt="-O1", asan=True),
    "asan3": _b(macros=["DIM3"], opt="-O1", asan=True),
    "asangc": _b(macros=["MPS_GC"], opt="-O1", asan=True),
    "asangc3": _b(macros=["MPS_GC", "DIM3"], opt="-O1", asan=True),
    "asanplain": _b(["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP", "USE_VIENNACL"], opt="-O1", asan=True),
    "asanexpl": _b(macros=["PRESSURE_EXPLICIT"], opt="-O1", asan=True),
    # every value watched by memcheck
    "vg": _b(opt="-O1", vg=True),
    "vggc3": _b(macros=["MPS_GC", "DIM3"], opt="-O1", vg=True),
    "vggc": _b(macros=["MPS_GC"], opt="-O1", vg=True),
    "vg3": _b(macros=["DIM3"], opt="-O1", vg=True),
    "vgplain": _b(["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP", "USE_VIENNACL"], opt="-O1", vg=True),
    "vgexpl": _b(macros=["PRESSURE_EXPLICIT"], opt="-O1", vg=True),
    # under the controlled OpenMP runtime
    "omc": _b(opt="-O1", omc=True),
    "omc3": _b(macros=["DIM3"], opt="-O1", omc=True),
    "omcgc3": _b(macros=["MPS_GC", "DIM3"], opt="-O1", omc=True),
    "omcgc": _b(macros=["MPS_GC"], opt="-O1", omc=True),
    "omcplain": _b(["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP", "USE_VIENNACL"], opt="-O1", omc=True),
    "omcublas": _b(["USE_VIENNACL"], opt="-O1", omc=True),
    "omcnospp": _b(["MPS_SPP"], opt="-O1", omc=True),
    "omcexpl": _b(macros=["PRESSURE_EXPLICIT"], opt="-O1", omc=True),
}


# C15: every combination of the scheme options, the backend and OpenMP, as a bit string over FACTORS
FACTORS = ["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP", "MPS_GC", "DIM3", "USE_VIENNACL", "_OPENMP", "PRESSURE_EXPLICIT"]
DEFAULT = (1, 1, 1, 1, 1, 0, 0, 1, 1, 0)


def combo(c):
    name = "o" + "".join(map(str, c))
    off = [f for f, x in zip(FACTORS, c) if not x and f in ("MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP", "USE_VIENNACL")]
    on = [f for f, x in zip(FACTORS, c) if x and f in ("MPS_GC", "DIM3", "PRESSURE_EXPLICIT")]
    BUILDS[name] = _b(off, on, opt="-O1", omp=bool(c[8]))
    return name


def covering(n, tail, strength=2):
    """Greedy covering array: every combination of `strength` of the first n factors occurs (tail is appended)."""
    cells = {(p, v) for p in itertools.combinations(range(n), strength) for v in itertools.product((0, 1), repeat=strength)}
    rows, every = [], list(itertools.product((1, 0), repeat=n))
    cov = lambda c: {(p, tuple(c[i] for i in p)) for p in itertools.combinations(range(n), strength)}
    cells -= cov(DEFAULT)
    while cells:
        best = max(every, key=lambda c: len(cov(c) & cells))
        rows.append(best + tail)
        cells -= cov(best)
    return rows


def step(prop, build="std", **kw):
    return dict({"name": "step-" + build, "src": "step.cpp", "build": build, "args": ["--prop", prop]}, **kw)


def option_jobs():
    """quick: every pair of settings of the options; thorough: all 128 scheme combinations, every triple of settings on every backend."""
    quick = [DEFAULT] + covering(9, (0,)) + [(1, 1, 1, 1, 1, 0, 0, 1, 1, 1), (0, 0, 0, 0, 0, 1, 1, 0, 0, 1)]
    more = [c + (1, 1, 0) for c in itertools.product((1, 0), repeat=7)] + covering(9, (0,), 3) + covering(9, (1,))
    jobs, seen = [dict(step("FULL", b), args=["--prop", "FULL", "--lite"], shards=4) for b in ("central", "central3")], set()
    for c in quick + more:
        if c not in seen:
            seen.add(c)
            b = combo(c)
            jobs.append({"name": b, "src": "step.cpp", "build": b, "args": ["--prop", "FULL", "--lite" if c in quick else "--small"],
                         "thorough_only": c not in quick, "shards": 4})
    return jobs


def job(src, build="std", args=(), **kw):
    return dict({"name": src.replace(".cpp", "") + "-" + build, "src": src, "build": build, "args": list(args)}, **kw)



def meta(prop, build="std", **kw):
    return dict({"name": "meta-" + build, "src": "meta.cpp", "build": build, "args": ["--prop", prop]}, **kw)


def app(prop, build="std", *args, **kw):
    return dict({"name": "app-" + build, "src": "app.cpp", "build": build, "args": ["--prop", prop] + list(args)}, **kw)


def omp(prop, build, **kw):
    return dict({"name": "omp-" + build, "src": "omp.cpp", "build": build, "args": ["--prop", prop]}, **kw)


def sub(j, families, **kw):
    """the job restricted to some families"""
    return dict(j, args=j["args"] + ["--family", families], **kw)


def prop(src, p, build="std", **kw):
    return dict(job(src, build, ["--prop", p]), name="%s-%s-%s" % (src.replace(".cpp", ""), p, build), **kw)


def memory_jobs():
    lite = lambda b, **kw: dict(step("FULL", b), args=["--prop", "FULL", "--lite"], **kw)
    T = {"thorough_only": True}
    return [sub(app("C16", "asan"), "row0,row1,row2,row3,row4,row5,row6,row7,row8,header,byte0,byte1,lost,truncated,interval,params,elements,value"), job("nb.cpp", "asan"), job("grid.cpp", "asan"), lite("asan"), lite("asangc3"),
            job("gc.cpp", "asangc"), sub(prop("meta.cpp", "C14", "asan"), "history,moved"), sub(prop("meta.cpp", "C05", "asan"), "far"), sub(prop("app.cpp", "C17", "asan"), "sizes"), sub(prop("app.cpp", "C19", "asan"), "first"),
            prop("mem.cpp", "C23"), prop("mem.cpp", "C23", "dim3", **T), prop("mem.cpp", "C23", "gc2", **T), prop("mem.cpp", "C23", "ublas", **T),
            job("nb.cpp", "asan3", **T), job("grid.cpp", "asan3", **T), job("gc.cpp", "asangc3", **T), lite("asanplain", **T), lite("asanexpl", **T), lite("asan3", **T), lite("asangc", **T),
            dict(prop("meta.cpp", "C14", "asan", **T), name="meta-C14-all"), dict(prop("meta.cpp", "C05", "asan", **T), name="meta-C05-all"), dict(prop("meta.cpp", "C05", "asan3", **T), name="meta-C05-3d"), sub(prop("app.cpp", "C18", "asan", **T), "backwards,steps"), dict(prop("meta.cpp", "C12", "asan", **T), name="meta-C12-all"),
            dict(prop("app.cpp", "C17", "asan", **T), name="app-C17-all"), dict(prop("app.cpp", "C19", "asan", **T), name="app-C19-all"), dict(prop("app.cpp", "C16", "asan3", **T), name="app-C16-3d")]


SCHED_ASSUME = ["sequentially consistent executions plus race detection: a race-free program has no others",
                "accesses made by uninstrumented library code (libstdc++.so) are not monitored, except memcpy/memmove/memset",
                "g++ -std=c++17, IEEE doubles"]

STEP_RULE = ("every index of every scenario family is executed on the real code: patch families put every combination of "
             "{empty, fluid, wall, dummy, disabled} on the sites of a small patch, times spacing, velocity field, initial pressure, "
             "patch origin, time step, Courant number, viscosity, length scale and influence radius; pool families replace every "
             "single site (pair) of a tank with every content; hist families run 2-3 steps; the large family runs columns and tanks of 200-1100 particles (C08, C20: none). ")

CHECKS = {
    "C01": {"jobs": [job("nb.cpp"), job("nb.cpp", "dim3")],
            "rule": "every pair and triple of particles on an alphabet of coordinates at, just below, just above and between all bucket borders and domain ends "
                    "(three domain shapes, three parameter sets), every move of a particle between two such points with bystanders and a particle added afterwards, "
                    "every offset of crowded lattices, and blocks filled to capacity, in 2D and 3D: the neighbour lists are compared with brute force. "
                    "Non-trivial: at least one pair of neighbours exists."},
    "C02": {"jobs": [job("grid.cpp"), job("grid.cpp", "dim3")],
            "rule": "every sequence of clear / store in block / store outside up to the depth that fits (families seqN), every occupancy pattern of the blocks "
                    "(counts 0..2 in 2D, all block tuples with and without an occupied plane in 3D), every block filled to and past capacity (up to 66049), twice, on four grid shapes, and grids of up to 131070 blocks in a row with numbers up to 2^64-256: "
                    "iterating from every block is compared with a map from block to particles. Non-trivial: something is stored."},
    "C03": {"jobs": [omp("C03", "omc"), omp("C03", "omc3")],
            "technique": "stateless model checking of the real code under a controlled OpenMP scheduler (all interleavings, sleep sets, happens-before race detection)",
            "rule": "the real Grid::Store called by 2-4 (thorough: 2-6) threads with 1-3 (1-4) stores each, for every assignment of the stores to three blocks (the same, touching, far) and every fill level of the blocks beforehand "
                    "(empty, one, full, full less 1..3), with and without a clear and a second round, in 2D and 3D: every order of the synchronising operations is executed; in each one no two accesses race, refusals equal the excess, "
                    "and iteration yields every stored particle once. Non-trivial: more than one schedule.",
            "assumptions": SCHED_ASSUME},
    "C04": {"jobs": [omp("C04", "omc"), omp("C04", "omc3"), omp("C04", "omcgc"), omp("C04", "omcplain"), omp("C04", "omcublas", thorough_only=True), omp("C04", "omcgc3", thorough_only=True),
                     omp("C04", "omcnospp", thorough_only=True), omp("C04", "omcexpl", thorough_only=True)],
            "technique": "stateless model checking of the real code under a controlled OpenMP scheduler (all interleavings, sleep sets, happens-before race detection)",
            "rule": "one to three whole steps of every scene of the patch and tank families, in builds with different scheme options, run with 2, 3 (thorough: 4, 7) threads and with as many threads as particles (every iteration of every loop "
                    "on its own thread): every order of the synchronising operations is executed, no two accesses of different threads race (so that every assignment of iterations and every interleaving is equivalent to one explored), "
                    "and the states equal those of one thread. Non-trivial: some parallel region was run.",
            "assumptions": SCHED_ASSUME},
    "C20": {"jobs": [job("gc.cpp", "gc2"), job("gc.cpp", "gc3"), step("C11", "gc2"), step("C11", "gc3")],
            "rule": "every matrix over a small alphabet of entries, symmetric matrices at several magnitudes, moment matrices of few neighbours (spanning or not), in 2D and 3D; "
                    "and every step of the scenario families in builds with gradient correction, against the reference model. Non-trivial: the matrix is invertible / the pressure is non-zero."},
    "C06": {"jobs": [step("C06")], "rule": STEP_RULE + "Non-trivial: some particle's density exceeds the reference density."},
    "C07": {"jobs": [step("C07"), dict(step("C07", "central"), args=["--prop", "C07", "--lite"])], "rule": STEP_RULE + "Non-trivial: the viscous acceleration is non-zero and no pressure acts."},
    "C08": {"jobs": [step("C08")], "rule": STEP_RULE + "Non-trivial: at least one wall or dummy particle moved."},
    "C09": {"jobs": [step("C09")], "rule": STEP_RULE + "Non-trivial: some particle's density exceeds the reference density (non-zero source term)."},
    "C10": {"jobs": [step("C10")], "rule": STEP_RULE + "Non-trivial: the solver had a non-zero initial residual or the system is unsolvable."},
    "C11": {"jobs": [step("C11")], "rule": STEP_RULE + "Non-trivial: the pressure solution is non-zero."},
    "C05": {"jobs": [meta("C05"), meta("C05", "dim3")],
            "rule": "every patch of particles with every extra particle (removed or outside the domain, at every place of the list), heaps of 2-140 removed particles at one place, every cluster flying out through each side, "
                    "every pair of points at and around the ends of the domain, and every far point (up to 1.7e308, infinite, not a number), 2-8 steps: each step is compared with a fresh run of the particles that are still there, in 2D and 3D. "
                    "Non-trivial: some particles are removed and some are left."},
    "C12": {"jobs": [meta("C12"), meta("C12", "dim3")],
            "rule": "every combination of kind and speed class for 3 particles (4 in the thorough tier) times 16 parameter sets, four steps mixing automatic and given lengths; every sequence of four steps that are automatic or given as 1e-6, 0.37, 2.5 or 40 times the maximum; and every patch evolving for six "
                    "automatic steps. Oracle: the length is the smaller of the maximum and Courant*l0/fastest speed, and an automatic step equals a given step of that length. Non-trivial: the Courant limit acts."},
    "C13": {"jobs": [meta("C13"), dict(meta("C13", "nospp"), name="momentum-nospp", args=["--prop", "C13", "--family", "momentum9,momentum12"]), meta("C13", "nospp", thorough_only=True), meta("C13", "dim3", thorough_only=True)],
            "rule": "every patch and every tank variant, every one of the 120 orders of five particles, every mirror, shift, common velocity and system of units of a list, two or three steps: both runs must agree up to the map; "
                    "and, without SPP, every patch of free fluid (9 or 12 sites): the momentum is kept. Non-trivial: pressures or interactions act."},
    "C14": {"jobs": [meta("C14"), meta("C14", "ublas", thorough_only=True), meta("C14", "dim3", thorough_only=True)],
            "rule": "every sequence of 4 (thorough: 5) operations from {step, automatic step, add fluid / other kinds / nothing, leave, squeeze, relax, crowd (failing step), scatter}, and from {move the object, steps, add, leave, squeeze, crowd}, on 4 scenes; every split of a particle list "
                    "into batches after 0-2 steps; every restart after 1-2 (1-5) steps: the continuation equals that of a fresh run from the same particles. Non-trivial: every one."},
    "C15": {"jobs": option_jobs(),
            "rule": "the real step in builds with different options: quick covers every pair of settings of {high-order source, high-order Laplacian, error correction, dynamic stabilisation, virtual particles, gradient correction, "
                    "3D, ViennaCL, OpenMP}, explicit pressure and central gravity; thorough all 128 scheme combinations, and every triple of settings with the backends. In each build every index of the scenario families "
                    "(patches, histories, scales, tanks) is executed and every particle of every step compared with the reference model of that combination. Non-trivial: the motion of a step was compared."},
    "C16": {"jobs": [app("C16"), app("C16", "nospp", "--family", "params"), app("C16", "expl", "--family", "params"), app("C16", "dim3", thorough_only=True)],
            "rule": "the real main() on every generated input file: every column order, every combination of separators, line ends and blank lines, every spelling of a value in every cell (pairs of cells), every row of good, empty and bad "
                    "cells up to one more than the columns, every subset of columns with every extra column, every one-byte edit and truncation of a table (thorough: every pair of edits), "
                    "every truncation of the file, every parameter (pair) missing or misspelt, output intervals that are not positive, every parameter (pair) changed: accepted exactly when the reference reader accepts, and then with its particles and parameters "
                    "(the whole run equals Computer driven with them). Non-trivial: the property decides what must happen."},
    "C17": {"jobs": [app("C17"), app("C17", "dim3", thorough_only=True)],
            "rule": "the real main() for every pair of extreme values in every pair of columns times kinds, every number of particles up to 129 and 14 numbers up to 65537, and every run of a patch family with particles leaving the domain: "
                    "every output row equals the state to six digits, every output is read back and restarted, and every restart restarted again. Non-trivial: there are particles."},
    "C18": {"jobs": [app("C18"), app("C18", "dim3", thorough_only=True)],
            "rule": "the real main() for every start (0-39 intervals), number of outputs (0-15; 100-248 in the long family) and 22 decimal intervals, whole or partial last interval, 1-10 steps per output with and without "
                    "the Courant limit, end times up to six intervals before the start, intervals that are no decimal fractions, and output numbers around powers of two and ten up to 10^10: the set of files, and the state in each, are those of Computer driven directly. Non-trivial: at least one interval."},
    "C19": {"jobs": [app("C19"), app("C19", "dim3", thorough_only=True)],
            "rule": "the real main() on every scene of four families whose runs fail (overcrowded blocks, unsolvable pressure equations) in different steps and output intervals, and on those that do not: earlier outputs are complete and equal "
                    "the states of Computer driven directly, nothing is written for the failed interval, the report names output, iteration and time, the closing message follows. Non-trivial: the run fails."},
    "C22": {"jobs": [job("fault.cpp"), job("fault.cpp", "dim3", thorough_only=True)],
            "technique": "exhaustive fault and crash-point exploration of the real program (every system call and allocation of a run times every fault)",
            "rule": "the real main() in a child process under a system call filter, on 20 scenes (no, few, many particles, a failing computation; results of an earlier run present or not; a continued run): for every operation on a file or the log "
                    "(open, read, write, close, mkdir) and every fault of it - killed before it, killed after a part of the transfer, failing once or from then on (ENOSPC, EIO, EACCES), short transfer, short transfer and then a full disk, interrupted - "
                    "and for every allocation that fails, one execution; thorough: every byte count of every transfer, and memory running out for good. After each one the files are compared with those of the run without faults, and the run is started again. "
                    "Non-trivial: the fault occurred.",
            "assumptions": ["a file keeps what a successful or partial write call put there (no loss of the page cache: the program never asks for durability)", "the shell command that makes the output directory is replaced by the mkdir call",
                            "x86-64 Linux, seccomp available"]},
    "C26": {"jobs": [app("C26"), sub(prop("fault.cpp", "C26"), "kill,torn-first,torn-half,full-once,io-once,full,part-half"), app("C26", "dim3", thorough_only=True), dict(prop("fault.cpp", "C26", thorough_only=True), name="fault-C26-all")],
            "technique": "bounded-exhaustive exploration of inputs, and of crash points and faults, of the real program",
            "rule": "the real main() on every run of the schedule, restart and failure families of C17, C18 and C19: the log announces each output file once, in order, with its number, time, count of steps and count of particles that are not removed, as in "
                    "Computer driven directly, and nothing else; and for every operation of 20 runs and every crash, torn write, failing or partial write at it: what the log announces is completely in its file. Non-trivial: at least one interval; the fault occurred.",
            "assumptions": ["numbers of an announcement are recognised by their order (output, time, steps, particles), not by the words between them", "as C22 for the crash points"]},
    "C23": {"jobs": memory_jobs(),
            "technique": "bounded-exhaustive state exploration of the real code with a memory and undefined-behaviour monitor on every execution",
            "rule": "the scenario families of the neighbour search, the grid, the step (with and without gradient correction, 2D and 3D), the correction matrix, histories of operations, departing particles and input files, "
                    "in builds where every access, conversion and arithmetic operation is monitored (AddressSanitizer, UndefinedBehaviorSanitizer, float-cast-overflow, libstdc++ assertions); and every scene of the memory families run with "
                    "every history, with every allocation and release counted: what a simulation allocates is released with it, and a scene at rest uses no more memory after 8 or 12 steps than after 4. Non-trivial: as in the families.",
            "assumptions": ["g++ -std=c++17 -O1 instrumentation; accesses inside libstdc++.so are seen only where it is intercepted", "reads of uninitialised memory are decided by C24"]},
    "C24": {"jobs": [prop("mem.cpp", "C24"), prop("mem.cpp", "C24", "vg"), sub(dict(step("FULL", "vggc3"), args=["--prop", "FULL", "--lite"]), "patch9"), sub(dict(step("FULL", "vgplain"), args=["--prop", "FULL", "--lite"]), "patch9,large")]
            + [dict(step("FULL", b), name="full-" + b, args=["--prop", "FULL", "--lite"], thorough_only=True) for b in ("vg", "vg3", "vggc", "vggc3", "vgplain", "vgexpl")]
            + [sub(prop("app.cpp", "C16", "vg", thorough_only=True), "row3,row5,header,byte0,params,elements"), sub(prop("app.cpp", "C17", "vg", thorough_only=True), "sizes"), sub(prop("nb.cpp", "C01", "vg", thorough_only=True), ",".join("%s-s%d-p%d" % (f, s, p) for f in ("crowd", "full", "move") for s in range(3) for p in range(3)))]
            + [prop("mem.cpp", "C24", b, thorough_only=True) for b in ("dim3", "gc2", "gc3", "nospp", "expl", "ublas")],
            "technique": "bounded-exhaustive exploration of memory contents, histories and interleavings of simulations on the real code",
            "rule": "every patch, tank and special scene with seven histories of operations, run with every new block of memory (and the stack) filled with 0x00, 0xff (NaN), 0x7f (huge) and 0x3c (about one), bit by bit the same; every interleaving of the "
                    "operations construct, add, step, automatic step, destroy of two (252 each) and three simulations of 12 scenes with 12 sets of parameters: each one gives bit by bit what it gives alone in a fresh process; and the program run on every scene, again after "
                    "every other one, and with other memory contents: the output files of a fresh process. A part of the scenes runs under memcheck, where no value that was never written may decide anything or appear in a state. Non-trivial: there are particles.",
            "assumptions": ["x86-64 glibc malloc interposition; one process, one thread"]},
    "C25": {"jobs": [job("env.cpp", b) for b in ("std", "dim3", "plain", "plain3", "nospp", "gc2", "gc3", "expl")],
            "rule": "the constants for every influence radius on a fine grid and close to every shell of the lattice, times 8 particle distances; the limits of a step for every combination of parameters; and every block of the regular lattice (7 to 10 radii, "
                    "3 distances, 4 Courant numbers, 5 offsets, 5 sizes, 4 kinds of edges, 3 common velocities), three steps, in builds with different options, 2D and 3D. Oracle: sums over the infinite lattice; no step fails, "
                    "every particle moves with the common velocity, surrounded ones have the reference density. Non-trivial: every one."},
    "C27": {"jobs": [meta("C27"), meta("C27", "dim3"), meta("C27", "plain", thorough_only=True), meta("C27", "ublas", thorough_only=True)],
            "rule": "every row of particles next to every other row, in every direction, touching the search distance or far away, numbered before, after or alternately; and every row copied until the scene has 90 to 66000 particles (3D: 1700): "
                    "in two steps, and for a violent next to a quiet group in one, every particle moves and gets the pressure as in the run of its group alone. Non-trivial: some pressure acts."},
    "C21": {"jobs": [step("C21")], "rule": STEP_RULE + "Non-trivial: a pair is closer than the stabilisation distance."},
}

NOTE = ("Bounded-exhaustive: every execution of the stated finite families was run on the real code, compiled from the working "
        "tree; nothing is claimed about scenes outside them. Trusts the compiler, the harness and its reference model.")
for _k, _c in CHECKS.items():
    _c.setdefault("technique", "bounded-exhaustive state exploration of the real code against a reference model")
    _c.setdefault("note", NOTE)
    _c.setdefault("assumptions", ["g++ -std=c++17, IEEE doubles", "cases within 1e-9 (relative) of a discrete threshold of the scheme are executed but not compared"])
