#!/usr/bin/env python3
"""Runs the model-checking check of one property against /repo's working tree.

  check.py <ID> [--tier quick|thorough] [--replay FILE] [--list] [--keep]

Exit 0: the property held on every execution explored.  Exit 1: a line VIOLATION property=<ID> replay=<path>.
Exit 2: the check itself could not run.
"""
import argparse, array, resource, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "OpenMps")
CPUS = min(8, os.cpu_count() or 1)
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from checks import CHECKS, BUILDS  # noqa: E402

STALL = 60          # seconds without finishing a case before a shard is looked at
ALONE = 120         # seconds a suspicious case gets when it is run alone
OMC_WRAPS = ["memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
             "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
BUDGET = int(os.environ.get("VERIF_BUDGET", "0"))


class CheckError(Exception):
    pass


def viennacl():
    for d in (os.path.join(REPO, "src", "viennacl"), os.path.join(REPO, "src")):
        if os.path.isfile(os.path.join(d, "viennacl", "vector.hpp")):
            return ["-isystem", d]
    return []


def prepare(build, tmp):
    """Copies the sources under test and sets the scheme options the build asks for. Returns the copy."""
    b = BUILDS[build]
    dst = os.path.join(tmp, "src-" + build)
    if os.path.isdir(dst):
        return dst
    os.makedirs(dst)
    for f in os.listdir(SRC):
        p = os.path.join(SRC, f)
        if os.path.isfile(p) and not f.endswith((".vcxproj", ".filters", ".user")):
            shutil.copy(p, dst)
        elif os.path.isdir(p) and f not in ("test",):
            shutil.copytree(p, os.path.join(dst, f))
    off = b.get("off", [])
    if off:
        p = os.path.join(dst, "defines.hpp")
        s = open(p, encoding="utf-8-sig", newline="").read()
        for o in off:
            s = re.sub(r"(?m)^([ \t]*)#([ \t]*)define([ \t]+)" + o + r"\b", r"\1//#define \3" + o, s)
        open(p, "w", encoding="utf-8", newline="").write(s)
    return dst


def compile_job(job, tmp, lock=threading.Lock()):
    b = BUILDS[job["build"]]
    with lock:
        src = prepare(job["build"], tmp)
    exe = os.path.join(tmp, "bin-%s-%s" % (job["src"].replace(".cpp", ""), job["build"]))
    cxx = b.get("cxx", "g++")
    cmd = [cxx, "-std=c++17", b.get("opt", "-O1"), "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + src, "-I" + HARNESS] + viennacl()
    cmd += b.get("flags", [])
    if b.get("omp", True):
        cmd.append("-fopenmp")
    if b.get("asan"):
        cmd += ["-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                "-fno-builtin-floor", "-fno-builtin-ceil", "-fno-builtin-round"]   # a folded (long)floor(x) would lose its range check
    if b.get("vg"):
        cmd += ["-g1", "-DMC_VALGRIND"]
    if b.get("omc"):
        # instrumented code under test, linked with the controlled OpenMP runtime instead of libgomp and libtsan
        rt = os.path.join(tmp, "omc.o")
        cmds = [[cxx, "-std=c++17", "-O2", "-w", "-fno-builtin", "-c", os.path.join(VERIF, "omc", "omc.cpp"), "-o", rt + "." + job["build"]],
                cmd + ["-g1", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-c", os.path.join(HARNESS, job["src"]), "-o", exe + ".o"],
                [cxx, "-no-pie", exe + ".o", rt + "." + job["build"], "-o", exe] + ["-Wl,--wrap=" + w for w in OMC_WRAPS]]
    else:
        cmds = [cmd + [os.path.join(HARNESS, job["src"])] + b.get("extra", []) + b.get("libs", []) + ["-o", exe]]
    with lock:
        if exe in compile_job.done:
            ev = compile_job.done[exe]
            mine = False
        else:
            ev = compile_job.done[exe] = {"e": threading.Event(), "err": None}
            mine = True
    if not mine:
        ev["e"].wait()
        if ev["err"]:
            raise CheckError(ev["err"])
        return exe
    try:
        for cmd in cmds:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
            if r.returncode:
                ev["err"] = "cannot build %s (%s):\n%s" % (job["src"], job["build"], r.stdout[-4000:])
                raise CheckError(ev["err"])
    finally:
        ev["e"].set()
    return exe


compile_job.done = {}


def limits(job):
    if not (BUILDS[job["build"]].get("asan") or BUILDS[job["build"]].get("vg")):   # the address sanitizer reserves a large part of the address space
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def env_for(job, tmp):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "GOMP_", "KMP_", "ASAN_", "UBSAN_", "TSAN_"))}
    e.update({"OMP_NUM_THREADS": "1", "LC_ALL": "C", "TZ": "UTC", "CHECK_TMP": tmp,
              "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1", "UBSAN_OPTIONS": "print_stacktrace=1"})
    e.update(job.get("env", {}))
    return e


def scratch(prefix, tmp):
    """A fresh working directory for one process; in memory where possible (some harnesses write many small files)."""
    global SHM
    if SHM is None:
        SHM = ""
        try:
            SHM = tempfile.mkdtemp(prefix="mc-", dir="/dev/shm")
        except OSError:
            pass
    return tempfile.mkdtemp(prefix=prefix, dir=SHM or tmp)


SHM = None


def under(job, exe):
    """The command that runs an explorer: by itself or under memcheck."""
    return (["valgrind", "-q", "--error-limit=no", "--num-callers=6", exe] if BUILDS[job["build"]].get("vg") else [exe])


def run_case(job, exe, case, tier, tmp, timeout=ALONE):
    """Runs one case alone. Returns (kind, text): ok, fail, crash, hang."""
    cwd = scratch("case-", tmp)
    cmd = under(job, exe) + job.get("args", []) + ["--case", case] + (["--thorough"] if tier == "thorough" else [])
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env_for(job, cwd), start_new_session=True, preexec_fn=lambda: limits(job))
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    shutil.rmtree(cwd, ignore_errors=True)
    text = out.decode("utf-8", "replace")
    if rc is None:
        return "hang", "does not finish within %d s\n%s" % (timeout, text[-1500:])
    if rc == 0:
        return "ok", text
    if rc == 1:
        return "fail", text
    if rc == 3:
        raise CheckError("cannot replay %s: %s" % (case, text[-500:]))
    return "crash", "process died (%s)\n%s" % (("signal %d" % -rc) if rc < 0 else "exit %d" % rc, text[-1500:])


def run_shard(job, exe, i, n, tier, tmp, stop, prefix=""):
    tag = prefix + "%s-%d" % (job["name"], i)
    out, prog = os.path.join(tmp, "out-" + tag), os.path.join(tmp, "prog-" + tag)
    cwd = scratch("run-", tmp)
    log = open(os.path.join(tmp, "log-" + tag), "wb")
    cmd = under(job, exe) + job.get("args", []) + ["--shard", str(i), str(n), "--progress", prog, "--out", out] + (["--thorough"] if tier == "thorough" else [])
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=cwd, env=env_for(job, cwd), start_new_session=True, preexec_fn=lambda: limits(job))
    last, since, rc, kind, t0 = None, time.time(), None, None, time.time()
    while rc is None:
        try:
            rc = p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            cur = open(prog, "rb").read(256).split(b"\n")[0]
        except OSError:
            cur = b""
        if cur != last:
            last, since = cur, time.time()
        elif time.time() - since > STALL:
            kind = "stall"
        if stop.is_set():
            kind = "stopped"
        if kind:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    log.close()
    shutil.rmtree(cwd, ignore_errors=True)
    res = {"job": job, "s": time.time() - t0, "shard": i, "shards": n, "kind": kind, "rc": rc, "json": None, "at": None, "out": out}
    if kind is None and rc == 0:
        res["json"] = json.load(open(out))
    else:
        try:
            res["at"] = open(prog, "rb").read(256).split(b"\n")[0].decode().split(" ", 1)[1].strip()
        except (OSError, IndexError):
            pass
        res["log"] = open(log.name, errors="replace").read()[-1500:]
    return res


def in_context(job, exe, case, shard, tier, tmp):
    """Runs a whole shard again: does the same case fail in it again? (what a case does may depend on the cases before it)"""
    r = run_shard(job, exe, shard[0], shard[1], tier, tmp, threading.Event(), "again-")
    if r["json"] is not None:
        return next((f["msg"] for f in r["json"]["fails"] if f["case"] == case), None)
    return (r.get("log") or "process died") if r["at"] == case and r["kind"] is None else None


def read_hashes(path):
    a = array.array("Q")
    try:
        with open(path, "rb") as f:
            a.frombytes(f.read())
    except OSError:
        pass
    return a


def known_findings(prop):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.isfile(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) case=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                r.append({"job": m.group(2), "case": m.group(3), "text": m.group(4)})
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in (["g++", "--version"], ["clang++", "--version"]):
            print(subprocess.run(t, stdout=subprocess.PIPE, text=True).stdout.splitlines()[0])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        return 0
    if a.prop not in CHECKS:
        print("unknown property", a.prop)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % a.prop)
    try:
        return go(a, seed, tmp)
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        if SHM:
            shutil.rmtree(SHM, ignore_errors=True)


def go(a, seed, tmp):
    t0 = time.time()
    spec = CHECKS[a.prop]
    tier = a.tier
    jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    if a.replay:
        rp = json.load(open(a.replay))
        job = next(j for j in spec["jobs"] if j["name"] == rp["job"])
        exe = compile_job(job, tmp)
        kind, text = run_case(job, exe, rp["case"], rp["tier"], tmp)
        if rp.get("context"):
            text = in_context(job, exe, rp["case"], rp["context"], rp["tier"], tmp)
            kind = "fail" if text else "ok"
        print(text)
        if kind == "ok":
            return 0
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1

    with cf.ThreadPoolExecutor(CPUS) as ex:
        exes = {}
        for j, e in zip(jobs, ex.map(lambda j: compile_job(j, tmp), jobs)):
            exes[j["name"]] = e
    tb = time.time()

    stop = threading.Event()
    results = []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        futs = []
        for j in jobs:
            n = j.get("shards", CPUS)
            for i in range(n):
                futs.append(ex.submit(run_shard, j, exes[j["name"]], i, n, tier, tmp, stop))
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            if r["json"] is None or len(r["json"]["fails"]) >= 5:
                stop.set()   # something is wrong already: no need to finish the sweep

    # collect suspicious cases, replay each alone, twice
    suspects = []
    for r in results:
        if r["json"] is not None:
            for f in r["json"]["fails"]:
                suspects.append((r["job"], f["case"], f["msg"], "fail", (r["shard"], r["shards"])))
        elif r["kind"] == "stopped":
            pass
        elif r["at"]:
            suspects.append((r["job"], r["at"], r.get("log", ""), "stall" if r["kind"] == "stall" else "crash", (r["shard"], r["shards"])))
        else:
            raise CheckError("job %s shard %d ended (%s, rc %s) before its first case: %s" % (r["job"]["name"], r["shard"], r["kind"], r["rc"], r.get("log")))
    known = known_findings(a.prop)
    seen_known, confirmed, unstable = {}, [], []
    order = {"fail": 0, "crash": 1, "stall": 2}
    suspects.sort(key=lambda s: (order[s[3]], len(s[2])))
    contexts = 0
    for job, case, msg, kind, shard in suspects:
        if len(confirmed) >= 3:
            break
        k1, t1 = run_case(job, exes[job["name"]], case, tier, tmp)
        context = None
        if k1 == "ok":
            if kind != "stall" and contexts < 2 and not confirmed:
                contexts += 1
                m = in_context(job, exes[job["name"]], case, shard, tier, tmp)
                if m:
                    k1, t1, context = "fail", "(only after the cases before it in shard %d of %d) %s" % (shard[0], shard[1], m), list(shard)
            if not context:
                unstable.append("%s %s (%s) did not fail when replayed alone: %s" % (job["name"], case, kind, msg[:300]))
                continue
        elif k1 != "hang" and run_case(job, exes[job["name"]], case, tier, tmp)[0] == "ok":
            unstable.append("%s %s failed once of two times alone: %s" % (job["name"], case, t1[-300:]))
            continue
        kf = next((k for k in known if k["job"] == job["name"] and re.fullmatch(k["case"], case)), None)
        if kf:
            seen_known[kf["text"]] = seen_known.get(kf["text"], 0) + 1
            continue
        confirmed.append((job, case, k1, t1, context))

    # evidence
    states, outcomes = set(), set()
    ev, tr, nt = 0, 0, 0
    counters, fams, live, samples = {}, {}, {}, []
    complete = not stop.is_set()
    for r in sorted(results, key=lambda r: (r["job"]["name"], r["shard"])):
        j = r["json"]
        if j is None:
            continue
        complete = complete and not j["stopped_early"]
        ev += j["evaluations"]
        tr += j["transitions"]
        nt += j["nontrivial"]
        for k, v in j["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in j["families"].items():
            fams[r["job"]["name"] + ":" + k] = fams.get(r["job"]["name"] + ":" + k, 0) + v
            live[r["job"]["name"] + ":" + k] = live.get(r["job"]["name"] + ":" + k, 0) + j.get("live", {}).get(k, 0)
        if len(samples) < 12:
            samples += [r["job"]["name"] + " " + s for s in j["samples"][:2]]
        for h in read_hashes(r["out"] + ".states"):
            states.add(h)
        for h in read_hashes(r["out"] + ".outcomes"):
            outcomes.add(h)
    wall = time.time() - t0
    cov = {
        "states": len(states), "transitions": tr,
        "traces_validated_against_impl": counters.pop("traces compared", ev),
        "evaluations": ev, "distinct_nontrivial": min(nt, len(states)) if states else nt,
        "nontrivial_executions": nt, "distinct_outcomes": len(outcomes),
        "rule": spec["rule"], "samples": samples[:8] or ["(none)"],
        "exhaustive": complete, "families": fams, "families_nontrivial": live, "counters": counters,
        "bounds": spec.get("bounds", ""), "builds": sorted({j["build"] for j in jobs}),
        "build_s": round(tb - t0, 1), "job_s": {j["name"]: round(sum(r["s"] for r in results if r["job"] is j), 1) for j in jobs},
    }
    if unstable:
        cov["not_reproducible"] = unstable[:5]
    evidence = {"property": a.prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    print("%s %s: %d executions, %d transitions, %d distinct states, %d distinct outcomes, %d non-trivial, %.1f s%s" % (
        a.prop, tier, ev, tr, len(states), len(outcomes), nt, wall, "" if complete else " (stopped early)"))
    for k in sorted(counters):
        print("   %s: %d" % (k, counters[k]))
    for u in unstable[:5]:
        print("   not reproducible: " + u)
    for t in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, t))
    if confirmed:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for job, case, kind, text, context in confirmed:
            rid = hashlib.sha1(("%s %s %s" % (a.prop, job["name"], case)).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (a.prop, rid))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "job": job["name"], "case": case, "tier": tier, "kind": kind, "text": text, "context": context,
                           "replay_cmd": "python3 check.py %s --replay %s" % (a.prop, path)}, f, indent=1)
            print(text[-1200:].rstrip())
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if unstable:
        raise CheckError("a failure could not be reproduced: " + unstable[0])
    if nt == 0 or ev == 0:
        raise CheckError("vacuous exploration")
    return 0


if __name__ == "__main__":
    sys.exit(main())
