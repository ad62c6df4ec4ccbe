#!/usr/bin/env python3
"""Run the check of one property:  check.py Pxx [quick|thorough]

Builds the harnesses of the property from /repo's working tree, runs them, merges what their monitors saw, matches
violations against known_findings.json and writes evidence/Pxx.json.
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: no answer (build or machinery failure).
"""
import concurrent.futures, glob, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
COMPAT = "/opt/vp/compat"
sys.path.insert(0, HERE)
from plan import CHECKS, TARGETS  # noqa: E402

LIBS = ["-Wl,--as-needed", "-Wl,-rpath," + COMPAT, COMPAT + "/libtpetra_int_int.so"] + [
    "-ltrilinos_" + n for n in ("tpetraext tpetrainout tpetra kokkostsqr tpetraclassic belostpetra belos kokkoskernels "
                                "teuchoskokkoscomm teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm "
                                "teuchosparameterlist teuchosparser teuchoscore kokkosalgorithms kokkoscontainers "
                                "kokkoscore zoltan").split()
] + ["-lyaml-cpp"] + ["-lvtk%s-9.1" % n for n in "IOXML IOXMLParser CommonExecutionModel CommonDataModel CommonCore sys".split()] + [
    "-llapack", "-lblas", "-ldl", "-lpthread"]
INC = ["-I" + REPO, "-I" + HERE + "/shim", "-I" + HERE + "/harness", "-isystem", "/usr/include/trilinos",
       "-isystem", "/usr/include/vtk-9.1", "-isystem", "/usr/include/eigen3"]
BASE = ["-include", COMPAT + "/trilinos13.hpp", "-std=c++14", "-w", "-fno-omit-frame-pointer"]
FLAVORS = {
    # as the project builds (asserts compiled out), a little less optimised to keep builds short
    "opt": (["-O1", "-g1", "-DNDEBUG", "-fopenmp"], ["-fopenmp"]),
    # address + undefined behaviour, asserts and the standard library's own checks on
    "asan": (["-O1", "-g1", "-DNDEBUG", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address",
              "-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,unreachable,"
              "return,null,bool,enum,nonnull-attribute,returns-nonnull-attribute,vla-bound",
              "-fno-sanitize-recover=all"],
             ["-fopenmp", "-fsanitize=address,undefined"]),
    # thread sanitizer; OpenMP comes from harness/tsan_gomp.cpp, whose synchronisation the sanitizer can see
    "tsan": (["-O1", "-g1", "-DNDEBUG", "-fopenmp", "-fsanitize=thread"], ["-fopenmp", "-fsanitize=thread"]),
}
MPIENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
          "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
          "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_plm_rsh_agent": "false",
          "OMPI_MCA_pmix_base_async_modex": "0", "OMP_WAIT_POLICY": "passive", "LANG": "C.UTF-8", "HOME": "/root"}


def note(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------- build
def compile_one(src, flavor, defs, objdir):
    cflags, _ = FLAVORS[flavor]
    key = hashlib.sha1((src + flavor + " ".join(defs)).encode()).hexdigest()[:10]
    obj = os.path.join(objdir, os.path.basename(src) + "." + key + ".o")
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="4G",
               CCACHE_COMPILERCHECK="content", **{k: MPIENV[k] for k in ("LANG", "HOME")})
    comp = (["ccache"] if shutil.which("ccache") else []) + ["mpicxx"]
    if os.path.basename(src) == "tsan_gomp.cpp":  # it tells the sanitizer itself what it does
        cflags = [f for f in cflags if f != "-fsanitize=thread"]
    cmd = comp + BASE + cflags + INC + defs + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return obj, "compile of %s failed:\n%s" % (src, p.stdout[-3000:])
    return obj, None


def target_sources(t):
    out = []
    for s in TARGETS[t]["src"]:
        if s.startswith("h:"):
            out.append(os.path.join(HERE, "harness", s[2:]))
        else:
            m = sorted(glob.glob(os.path.join(REPO, s)))
            m = [x for x in m if not (x.endswith("_test.cpp") or x.endswith("_main.cpp") or "_test_" in os.path.basename(x))]
            if not m:
                raise NoAnswer("source %s not found" % s)
            out += m
    return out


def build(targets, workdir):
    """targets: set of (name, flavor) -> {(name, flavor): exe}"""
    objdir = os.path.join(workdir, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs = {}
    for t, fl in targets:
        for s in target_sources(t):
            jobs.setdefault((s, fl, tuple(TARGETS[t].get("defs", []))), None)
        if fl == "tsan":
            jobs.setdefault((os.path.join(HERE, "harness", "tsan_gomp.cpp"), fl, ()), None)
    # the biggest first
    order = sorted(jobs, key=lambda j: -weight(j[0]))
    with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        fut = {ex.submit(compile_one, j[0], j[1], list(j[2]), objdir): j for j in order}
        for f in concurrent.futures.as_completed(fut):
            obj, err = f.result()
            if err:
                raise NoAnswer(err)
            jobs[fut[f]] = obj
    exes = {}
    for t, fl in targets:
        objs = [jobs[(s, fl, tuple(TARGETS[t].get("defs", [])))] for s in target_sources(t)]
        if fl == "tsan":
            objs.append(jobs[(os.path.join(HERE, "harness", "tsan_gomp.cpp"), fl, ())])
        exe = os.path.join(workdir, "%s.%s" % (t, fl))
        libs = LIBS if TARGETS[t].get("libs", True) else ["-Wl,--as-needed", "-lyaml-cpp", "-ldl", "-lpthread"]
        p = subprocess.run(["mpicxx"] + FLAVORS[fl][1] + objs + ["-o", exe] + libs + TARGETS[t].get("ld", []), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise NoAnswer("link of %s failed:\n%s" % (t, p.stdout[-3000:]))
        exes[(t, fl)] = exe
    return exes


def weight(src):
    b = os.path.basename(src)
    return {"SylinderSystem.cpp": 10, "ConstraintSolver.cpp": 7, "CPSolver.cpp": 7,
            "BCQPSolver.cpp": 7, "ConstraintCollector.cpp": 7, "ConstraintOperator.cpp": 7, "TpetraUtil.cpp": 7,
            "Boundary.cpp": 3}.get(b, 6 if b.startswith("h_") else 2)


# ---------------------------------------------------------------- run
def read_progress(base, rank):
    try:
        with open("%s.%d.progress" % (base, rank)) as f:
            s = f.read().strip()
        a = s.split(" ", 1)
        return (a[0], a[1] if len(a) > 1 else "") if s else None
    except OSError:
        return None


def launch(exe, run, args, out, cwd, log, timeout):
    np_ = run.get("np", 1)
    env = dict(os.environ)
    env.update(MPIENV)
    for k in ("VF_TRACE",):
        env.pop(k, None)
    env["OMP_NUM_THREADS"] = str(run.get("threads", 1))
    env["TMPDIR"] = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    if run.get("flavor") == "tsan":
        env["PMIX_MCA_gds"] = "hash"  # the shared memory one wants an address the sanitizer occupies
    env["TSAN_OPTIONS"] = "exitcode=0:halt_on_error=0:log_path=%s.tsan:history_size=4:ignore_noninstrumented_modules=1" % out
    env.update(run.get("env", {}))
    cmd = [exe] + args + ["--out", out]
    if run.get("tool") == "memcheck":
        cmd = ["valgrind", "-q", "--num-callers=25", "--fullpath-after=", "--error-limit=no", "--log-file=%s.vg.%%p" % out] + cmd
    if run.get("mpi", True) and (np_ > 1):
        cmd = ["mpirun", "-n", str(np_)] + cmd
    t0 = time.time()
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        rc = None
        last, lastt = None, time.time()
        while True:
            try:
                rc = p.wait(timeout=1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = tuple(read_progress(out, r) for r in range(np_))
            if cur != last:
                last, lastt = cur, time.time()
            if time.time() - lastt > run.get("stall", 150) or time.time() - t0 > timeout:
                rc = "stall"
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    shutil.rmtree(env["TMPDIR"], ignore_errors=True)
    return rc, time.time() - t0


def collect(out, np_):
    viols, summ = [], []
    for r in range(np_):
        try:
            with open("%s.%d" % (out, r)) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    (summ if d["t"] == "summary" else viols).append(d)
        except OSError:
            pass
    return viols, summ


def repo_frames(lines, paths):
    res = []
    for line in lines:
        i = min((line.find(p) for p in paths if p in line), default=-1)
        if i >= 0:
            res.append(line[i:].split()[0].rstrip(")"))
    return res


def tsan_reports(out):
    """-> [(key, text)] of the race reports with a frame of the repository"""
    res = []
    for fn in sorted(glob.glob(out + ".tsan.*")):
        with open(fn, errors="replace") as f:
            txt = f.read()
        for block in txt.split("=================="):
            if "WARNING: ThreadSanitizer" not in block:
                continue
            acc = block.strip().split("\n\n")[:2]  # the two accesses; what follows says where memory and threads come from
            loc = [(repo_frames(a.splitlines(), [REPO + "/"]) or [""])[0] for a in acc]
            if any(loc):
                res.append(("race:" + "|".join(sorted(set(l.replace(REPO + "/", "") for l in loc if l))), block.strip()[:3500]))
    return res


def memcheck_reports(out):
    res = []
    for fn in sorted(glob.glob(out + ".vg.*")):
        with open(fn, errors="replace") as f:
            lines = [l.split("== ", 1)[-1].rstrip() if "==" in l[:14] else l.rstrip() for l in f]
        block = []
        for line in lines + [""]:
            if line.strip().strip("=0123456789"):
                block.append(line)
                continue
            head = block[0] if block else ""
            if any(k in head for k in ("Invalid ", "uninitialised", "Mismatched free", "overlap in", "fishy")) and "Syscall param" not in head:
                fr = repo_frames(block, [REPO + "/", os.path.join(HERE, "harness") + "/"])
                if fr:
                    res.append(("memcheck:%s:%s" % (head.strip().split(" of size")[0].replace(" ", "-"), fr[0].replace(REPO + "/", "")),
                                "\n".join(block)[:3000]))
            block = []
    return res


def tool_reports(out, run):
    return [{"t": "violation", "key": k, "what": run["mode"], "case": "0", "rank": 0, "detail": d}
            for k, d in tsan_reports(out) + memcheck_reports(out)]


def do_run(exe, pid, run, idx, seed, tier, workdir, prev=None):
    """-> (violations, summaries, note)"""
    args = ["--prop", pid, "--seed", str(seed), "--mode", run["mode"], "--tier", tier]
    cases = run["cases"][1 if tier == "thorough" else 0] if isinstance(run.get("cases"), (list, tuple)) else run.get("cases", 100)
    args += ["--cases", str(cases)]
    for k, v in run.get("opts", {}).items():
        args += ["--" + k, str(v)]
    if run.get("case"):
        args += ["--case", run["case"]]
    if prev:
        args += ["--prev", prev]
    attempts = []
    for attempt in range(2):
        cwd = os.path.join(workdir, "run%d_%d" % (idx, attempt))
        os.makedirs(cwd, exist_ok=True)
        out = os.path.join(cwd, "out")
        log = os.path.join(cwd, "log.txt")
        rc, dt = launch(exe, run, args, out, cwd, log, run.get("timeout", 700 if tier == "quick" else 7000))
        viols, summ = collect(out, run.get("np", 1))
        prog = [read_progress(out, r) for r in range(run.get("np", 1))]
        with open(log, errors="replace") as f:
            tail = f.read()[-20000:]
        started = any(prog)
        if rc == 0 and len(summ) == run.get("np", 1):
            viols += tool_reports(out, run)
            return viols, summ, tail, cwd
        viols += tool_reports(out, run)
        attempts.append((rc, viols, summ, prog, tail, started))
        if not started:
            continue  # the launcher, not the code: try again
        if rc == "stall" or attempt == 0:
            continue
    rc, viols, summ, prog, tail, started = attempts[-1]
    rc0 = attempts[0][0]
    if not started or not attempts[0][5]:
        raise NoAnswer("run %s did not start (rc %s):\n%s" % (run["mode"], rc, tail[-2000:]))
    # it ended abnormally twice, in the same cases of the same deterministic workload
    p = next((x for x in prog if x), ("0", ""))
    kind = "hang" if rc == "stall" else "crash"
    if rc == "stall" and rc0 != "stall":
        kind = "crash"
    msg = san_headline(attempts[0][4]) or san_headline(tail) or tail[-600:]
    viols.append({"t": "violation", "key": "%s:%s" % (kind, san_key(attempts[0][4]) or p[1].split(" ")[0]),
                  "what": p[1], "case": p[0], "rank": 0,
                  "detail": "%s (exit %s) in case %s [%s]: %s" % (kind, rc, p[0], p[1], msg)})
    return viols, summ, tail, None


def san_headline(txt):
    for line in txt.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line or "Assertion" in line or "terminate called" in line:
            i = txt.index(line)
            return txt[i:i + 900]
    return None


def san_key(txt):
    for line in txt.splitlines():
        if "runtime error:" in line:
            return "ubsan:" + line.split("runtime error:")[0].strip().split(REPO + "/")[-1].split(":")[0] + ":" + \
                line.split("runtime error:")[1].strip().split(" ")[0]
        if "ERROR: AddressSanitizer" in line:
            fr = repo_frames(txt[txt.index(line):].splitlines()[:60], [REPO + "/"])
            return "asan:" + line.split("AddressSanitizer:")[1].strip().split(" ")[0] + ":" + \
                (fr[0].replace(REPO + "/", "").split(":")[0] if fr else "")
        if "Assertion '" in line and "/c++/" in line:
            return "stdlib:" + line.split("/c++/")[1].split(":")[0]
    return None


# ---------------------------------------------------------------- main
def main():
    pid = sys.argv[1]
    if pid == "--setup":  # nothing is kept between runs: a check builds what it needs; only look whether the tools are there
        for t in ("mpicxx", "mpirun"):
            if not shutil.which(t):
                note("missing " + t)
                return 1
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    only = None
    if len(sys.argv) > 4 and sys.argv[3] == "--replay":
        only = json.load(open(sys.argv[4]))
    os.makedirs(BUILD, exist_ok=True)
    workdir = os.path.join(BUILD, "work", "%s.%d" % (pid, os.getpid()))
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    status = 2
    try:
        status = check(pid, tier, seed, spec, t0, workdir, only)
    except NoAnswer as e:
        note("NO ANSWER property=%s %s" % (pid, e))
        status = 2
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(workdir, ignore_errors=True)
    return status


def check(pid, tier, seed, spec, t0, workdir, only):
    runs = [dict(r) for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    for r in runs:
        if "after" in r:
            r["dep"] = {k: v for k, v in runs[r["after"]].items() if k != "dep"}
    if only:
        case = only["case"] if only["case"] != "0" else None
        runs = [dict(only["run"], case=case)]
        if "dep" in runs[0]:  # what it reads was written by another run
            runs = [dict(runs[0]["dep"], case=case), dict(runs[0], after=0)]
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf))["findings"]:
            if k["property"] == pid and k["status"] == "known":
                known[k["key"]] = k
    exes = build({(r["target"], r.get("flavor", "opt")) for r in runs}, workdir)
    tb = time.time() - t0
    note("built %d harness(es) in %.1f s" % (len(exes), tb))
    viols, evals, counters, maxima, samples, dist, logs, perrun = [], 0, {}, {}, [], set(), [], []
    slots = int(os.environ.get("VF_JOBS", os.cpu_count() or 4))

    # runs are independent: pack them on the cores
    import threading
    cond = threading.Condition()
    free = [slots]
    results = [None] * len(runs)
    ended = [threading.Event() for _ in runs]

    def work(i):
        try:
            work1(i)
        finally:
            ended[i].set()

    def work1(i):
        r = runs[i]
        prev = None
        if "after" in r:
            ended[r["after"]].wait()
            d = results[r["after"]]
            if not isinstance(d, tuple) or d[3] is None:  # it reports for itself
                results[i] = ([], [], "", None) if isinstance(d, tuple) else NoAnswer("the run before it gave no answer")
                return
            prev = d[3]
        need = min(slots, r.get("np", 1) * (1 if r.get("np", 1) > 1 else min(r.get("threads", 1), 4)))
        with cond:
            while free[0] < need:
                cond.wait()
            free[0] -= need
        try:
            results[i] = do_run(exes[(r["target"], r.get("flavor", "opt"))], pid, r, i, seed, tier, workdir, prev)
        except NoAnswer as e:
            results[i] = e
        finally:
            with cond:
                free[0] += need
                cond.notify_all()

    with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, len(runs))) as ex:
        list(ex.map(work, range(len(runs))))
    for i, (r, res) in enumerate(zip(runs, results)):
        if isinstance(res, NoAnswer):
            raise res
        v, summ, tail, _ = res
        for x in v:
            x["run"] = i
        viols += v
        ev = sum(s["evaluations"] for s in summ)
        evals += ev
        for s in summ:
            for k, n in s["counters"].items():
                counters[k] = counters.get(k, 0) + n
            for k, n in s["maxima"].items():
                if isinstance(n, (int, float)) and (k not in maxima or n > maxima[k]):
                    maxima[k] = n
            for x in s["samples"]:
                if len(samples) < 12:
                    samples.append(x)
            dist |= set(s["distinct"])
        perrun.append({"mode": r["mode"], "flavor": r.get("flavor", "opt"), "ranks": r.get("np", 1),
                       "threads": r.get("threads", 1), "evaluations": ev})
    # offline comparisons across runs
    if spec.get("post") and not only:
        import post
        pv, pe = getattr(post, spec["post"])(workdir, runs, counters, samples, dist)
        for x in pv:
            x.setdefault("run", 0)
        viols += pv
        evals += pe
    if spec.get("keys"):  # a property about how it runs, not what it computes: the rest is for the other properties
        rest = {v["key"] for v in viols if not v["key"].startswith(spec["keys"])}
        viols = [v for v in viols if v["key"].startswith(spec["keys"])]
        if rest:
            note("note: not of this property: " + ", ".join(sorted(rest))[:400])
            if not viols and any(k.startswith(("crash:", "hang:")) for k in rest):
                raise NoAnswer("a run ended early: " + ", ".join(sorted(rest))[:400])
    if spec.get("count"):
        evals = sum(counters.get(c, 0) for c in spec["count"])
    floor = spec.get("floor", 1)
    if not viols and not only and (evals < floor or len(dist) < spec.get("dfloor", 1)):
        raise NoAnswer("observed too little: %d evaluations, %d distinct" % (evals, len(dist)))
    new = [v for v in viols if v["key"] not in known]
    seen = {}
    for v in viols:
        seen.setdefault(v["key"], v)
    for k, f in known.items():
        if k in seen:
            note("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        else:
            note("note: known finding %s did not show in this run" % k)
    status = 0
    if new:
        status = 1
        rdir = os.path.join(BUILD, "replays", pid)
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for v in new:
            if v["key"] in done or len(done) >= 8:
                continue
            done.add(v["key"])
            path = os.path.join(rdir, "%s_%d.json" % (tier, len(done)))
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, "case": v["case"], "what": v["what"],
                           "run": runs[v["run"]], "key": v["key"], "detail": v["detail"],
                           "replay": "VERIF_SEED=%d python3 /verif/check.py %s %s --replay %s" % (seed, pid, tier, path)}, f, indent=1)
            note("VIOLATION property=%s replay=%s" % (pid, path))
            note("  key=%s case=%s: %s" % (v["key"], v["case"], v["detail"][:1500]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(dist), "rule": spec["rule"],
                       "samples": samples or ["none recorded"], "observed": counters,
                       "largest_deviation_seen": {k: v for k, v in maxima.items()}, "runs": perrun,
                       "known_findings_seen": [k for k in known if k in seen]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    note("%s %s: %d evaluations, %d distinct, %d violation(s), %.1f s" % (pid, tier, evals, len(dist), len(new), time.time() - t0))
    return status


if __name__ == "__main__":
    sys.exit(main())
