#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py build                 build the simulator from /repo's working tree
  check.py run ID [TIER]         decide one property (VERIF_SEED; TIER or VERIF_TIER: quick, thorough)
  check.py replay ID FILE        re-execute a replay file
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
CC, CXX = "clang", "clang++"
LIST_INIT = {0: 32, 1: 1}          # tuning knob of the GMP tracker, one value per build variant
COMMON = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fcommon", "-w", "-fno-delete-null-pointer-checks"]
COV = ["-fsanitize-coverage=inline-8bit-counters,pc-table"]

def die(msg, code=2):
    print("ERROR: " + msg); sys.stdout.flush(); sys.exit(code)

# the demonstration programs see simulated files, output streams, random numbers and processor clock
APPENV = ["-D%s=app_%s" % (f, f) for f in ("printf", "fprintf", "vprintf", "vfprintf", "puts", "fputs", "putchar", "fputc", "perror", "fopen", "fclose", "rand", "srand", "clock")]

def units(more):
    """(tag, source, flags) of every unit of the code under test; the MATLAB interface ("mex") and the
    demonstration programs ("app") only on request."""
    inc = ["-I" + os.path.join(REPO, d) for d in
           ("SLIP_LU/Include", "SLIP_LU/Source", "SLIP_LU/Demo", "AMD/Include", "COLAMD/Include", "SuiteSparse_config")]
    u = []
    for s in sorted(glob.glob(REPO + "/SLIP_LU/Source/*.c")):
        u.append(("slip", s, inc, True))
    for s in sorted(glob.glob(REPO + "/AMD/Source/*.c")):
        for tag, d in (("i", "-DDINT"), ("l", "-DDLONG")):
            u.append(("amd" + tag, s, inc + [d], False))
    for s in sorted(glob.glob(REPO + "/COLAMD/Source/*.c")):
        u.append(("coli", s, inc, False))
        u.append(("coll", s, inc + ["-DDLONG"], False))
    for s in sorted(glob.glob(REPO + "/SuiteSparse_config/*.c")):
        u.append(("cfg", s, inc, False))
    minc = inc + ["-I" + os.path.join(REPO, "SLIP_LU/MATLAB/Source"), "-I" + SIM + "/mexstub", "-DMATLAB_MEX_FILE"]
    for s in sorted(glob.glob(REPO + "/SLIP_LU/MATLAB/*.c") + glob.glob(REPO + "/SLIP_LU/MATLAB/Source/*.c")) if more == "mex" else []:
        u.append(("mex", s, minc, True))
    u.append(("demo", REPO + "/SLIP_LU/Demo/demos.c", inc + APPENV, False))
    for d in ("SLIPLU", "example", "example2") if more == "app" else ():
        u.append(("app", REPO + "/SLIP_LU/Demo/%s.c" % d, inc + APPENV + ["-Dmain=app_" + d], True))
    return u, inc

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(f):
    with open(f, "rb") as fh:
        return fh.read()

def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")

def build(more=None):
    """Builds both variants; objects are keyed by the contents they depend on."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    us, inc = units(more)
    if not any(u[0] == "slip" for u in us):
        die("no sources found in " + REPO)
    # a header can be any file the sources may include
    hdrs = []
    for d in ("SLIP_LU/Include", "SLIP_LU/Source", "SLIP_LU/Demo", "SLIP_LU/MATLAB/Source", "AMD/Include", "COLAMD/Include", "SuiteSparse_config"):
        hdrs += sorted(glob.glob(os.path.join(REPO, d, "*.h")))
    hh = sha(*[x for h in hdrs for x in (os.path.relpath(h, REPO), read(h))])
    simh = sha(*[read(h) for h in sorted(glob.glob(SIM + "/*.h") + glob.glob(SIM + "/mexstub/*.h"))])
    jobs, objs = [], {0: [], 1: []}
    for tag, src, flags, perv in us:
        vs = (0, 1)
        text = read(src)
        for v in vs:
            extra = list(COV)
            extra += ["-DSLIP_GMP_LIST_INIT=%d" % LIST_INIT[v]] if perv else []
            extra += ["-ftrivial-auto-var-init=" + ("zero" if v else "pattern")]
            cmd = [CC, "-c"] + COMMON + extra + flags + ["-x", "c", src]
            o = os.path.join(BUILD, "obj", "%s_%s_%s.o" % (tag, os.path.basename(src)[:-2], sha(hh, simh if tag == "mex" else "", text, " ".join(cmd))))
            objs[v].append(o)
            if not os.path.exists(o):
                jobs.append((cmd + ["-o", o + ".tmp"], o))
    for src in sorted(glob.glob(SIM + "/*.cpp")):
        # the harness itself is not instrumented
        cmd = [CXX, "-c", "-O2", "-g1", "-w", "-std=c++17", "-I" + SIM] + inc + [src]
        o = os.path.join(BUILD, "obj", "sim_%s_%s.o" % (os.path.basename(src)[:-4], sha(hh, simh, read(src), " ".join(cmd))))
        objs[0].append(o); objs[1].append(o)
        if not os.path.exists(o):
            jobs.append((cmd + ["-o", o + ".tmp"], o))
    def one(j):
        rc, out = run_cc(j[0])
        if rc == 0:
            os.replace(j[1] + ".tmp", j[1])
        return rc, out, j[0]
    with ThreadPoolExecutor(8) as ex:
        for rc, out, cmd in ex.map(one, jobs):
            if rc:
                die("build failed: %s\n%s" % (" ".join(cmd), out[-3000:]))
    exes = []
    for v in (0, 1):
        exe = os.path.join(BUILD, "simrun%d_%s" % (v, sha(*objs[v])))
        if not os.path.exists(exe):
            cmd = [CXX, "-fsanitize=address", "-fsanitize-coverage=inline-8bit-counters", "-o", exe + ".tmp"] + objs[v] + \
                  ["-Wl,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=time", "-lmpfr", "-lgmp", "-lm", "-lrt"]
            rc, out = run_cc(cmd)
            if rc:
                die("link failed:\n" + out[-3000:])
            os.replace(exe + ".tmp", exe)
        exes.append(exe)
    # drop what this tree no longer uses
    keep = set(objs[0] + objs[1] + exes)
    now = time.time()
    for f in glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/simrun*"):
        try:
            if f not in keep and now - os.path.getmtime(f) > 3600:
                os.unlink(f)
        except OSError:
            pass
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exes


# ---------------------------------------------------------------------------------------------
# running a property
# ---------------------------------------------------------------------------------------------
MORE = {"C25": "mex", "C27": "app"}
TECH = "deterministic simulation with fault injection"
LEVEL = "exploration"
# executions per build variant at the quick tier
RUNS = {"default": 24000, "C01": 20000, "C02": 18000, "C03": 16000, "C05": 24000, "C06": 24000, "C07": 24000, "C12": 9000, "C15": 10000, "C16": 14000,
        "C17": 16000, "C21": 10000, "C25": 16000, "C27": 16000, "C22": 40000, "C23": 16000}
SCALE = {"quick": 1, "thorough": 6}
WALL = {"quick": 240, "thorough": 720}
REAL = ["SLIP_LU/Source (all files)", "AMD/Source (int and long builds)", "COLAMD/Source (int and long builds)",
        "SuiteSparse_config/SuiteSparse_config.c", "SLIP_LU/Demo/demos.c (matrix readers)", "GMP and MPFR (installed libraries, uninstrumented)"]
STUB = ["allocator (SuiteSparse_config function pointers and the allocator passed to symamd): simulated arena with fault injector",
        "print function (SuiteSparse_config.printf_func): recording sink", "clock (clock_gettime, gettimeofday, time): simulated",
        "input streams: simulated FILE with scheduled short reads, errors, early end and altered bytes",
        "client programs: interleaved simulated callers", "address-space layout: fixed"]
MEX_REAL = ["SLIP_LU/MATLAB/SLIP_mex_soln.c and SLIP_LU/MATLAB/Source (all files)"]
MEX_STUB = ["MATLAB: simulated host (sim/ops_mex.cpp): arrays, allocator that ends the call on refusal, error exits, automatic release after a call"]
APP_REAL = ["SLIP_LU/Demo/SLIPLU.c, example.c, example2.c (main functions) and demos.c"]
APP_STUB = ["surroundings of a program (sim/ops_app.cpp): files by name, output and error streams, arguments, random numbers, processor clock"]
RULE = {
 "default": "One case is one simulated execution: a seed draws the allocator's behaviour (contents, reuse order, moving or not, spacing), the print sink, 1-3 "
    "clients, and an interleaved list of steps; most steps are first tried under one or more injected faults and then once without. A case is "
    "non-trivial if it made more than two calls into the code under test; distinct means a distinct signature of executed edges with hit-count classes.",
 "C27": "One case is one simulated execution: a seed draws 1-5 runs of a demonstration program with drawn arguments, files (good, damaged, missing, mismatching, "
    "singular) and injected faults; runs with a refused allocation are repeated without. A case is non-trivial if it made more than two calls into the "
    "code under test; distinct means a distinct signature of executed edges with hit-count classes.",
 "C25": "One case is one simulated execution: a seed draws a sequence of 1-7 calls of the MATLAB function with drawn systems, options and invalid inputs; "
    "some calls are made again with a refused allocation, which ends them, and then once more. A case is non-trivial if it made more than two calls into the "
    "code under test; distinct means a distinct signature of executed edges with hit-count classes.",
 "C22": "One case is one simulated execution: a seed draws an initial clock, up to 4 timers and an interleaving of start, read and simulated clock advances "
    "(zero, nanoseconds, second boundaries, up to 104 days). Every case reads a started timer at least once, which makes it non-trivial; distinct means a "
    "distinct event log (operations, clock values and results).",
}
ASSUME = ["GMP and MPFR compute correctly when memory is available (the oracle uses Boost.Multiprecision, independent of both)",
          "sampling, not enumeration: a clean run is evidence, not proof",
          "callers keep to the documented preconditions except where the property says otherwise"]

def known():
    """classes of violations recorded as known findings: {property: {class: text}}"""
    k = {}
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) class=\[([^\]]*)\] (.*)", line.strip())
            if m:
                k.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return k

def sim_env():
    return {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}

def plan_run(exe, pid, plan):
    """executes one plan in a fresh process; returns its result record"""
    p = subprocess.run([exe, "--plan", pid, plan], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sim_env(), timeout=300)
    if p.returncode not in (0, 1):
        die("simulator ended with status %d on %s: %s" % (p.returncode, plan, p.stderr.decode(errors="replace")[-500:]))
    return json.loads(p.stdout.decode().strip().splitlines()[-1])

def run(pid, tier=None):
    t0 = time.time()
    props = {json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()}
    if pid not in props:
        die("unknown property " + pid)
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in SCALE:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(sha(os.environ["VERIF_SEED"])[:8], 16)
    print("property=%s tier=%s VERIF_SEED=%d" % (pid, tier, seed)); sys.stdout.flush()
    exes = build(MORE.get(pid))
    tb = time.time()
    kn = known().get(pid, {})
    runs = int(os.environ.get("SIM_RUNS", RUNS.get(pid, RUNS["default"]) * SCALE[tier]))
    jobs_n = max(1, int(os.environ.get("SIM_JOBS", min(8, os.cpu_count() or 1))))
    wall = float(os.environ.get("SIM_WALL", WALL[tier]))
    tmp = tempfile.mkdtemp(prefix="sim_%s_" % pid)
    try:
        return decide(pid, tier, seed, exes, kn, runs, jobs_n, wall, tmp, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(pid, tier, seed, exes, kn, runs, jobs_n, wall, tmp, t0, tb):
    # chunk k of variant v executes the indices k, k+chunks, ...; the chunks do not depend on the number of workers
    chunks = 4
    todo = [(v, k) for k in range(chunks) for v in (0, 1)]
    base = [int(sha("%d/%s/%d" % (seed, pid, v))[:15], 16) for v in (0, 1)]
    active, done, found_at = {}, [], None
    def start(v, k):
        out = os.path.join(tmp, "b%d_%d" % (v, k))
        cmd = [exes[v], "--batch", pid, str(base[v]), str(k), str(chunks), str(runs), str(v), out, str(wall * jobs_n / max(jobs_n, len(todo)))] + sorted(kn)
        err = open(out + ".err", "wb")
        active[(v, k)] = (subprocess.Popen(cmd, stdout=err, stderr=err, env=sim_env()), out)
    queue = list(todo)
    errors = []
    while queue or active:
        while queue and len(active) < jobs_n and found_at is None:
            start(*queue.pop(0))
        if found_at is not None:
            queue = []
        for key, (p, out) in list(active.items()):
            rc = p.poll()
            if rc is None:
                continue
            del active[key]
            try:
                d = json.load(open(out + ".json"))
            except Exception:
                errors.append("worker %s ended with status %s and no result: %s" % (key, rc, open(out + ".err", errors="replace").read()[-400:]))
                continue
            d["cov_file"] = out + ".cov"; d["variant"] = key[0]
            done.append(d)
            if any(x["repeatable"] for x in d["violations"]) and found_at is None:
                found_at = time.time()
        # a violation decides the property: give the others a moment to finish
        if found_at is not None and time.time() - found_at > 5:
            for key, (p, out) in active.items():
                p.kill(); p.wait()
            active = {}
        if active:
            time.sleep(0.02)
    search_s = time.time() - tb
    viols = sorted(((x, d["variant"]) for d in done for x in d["violations"]), key=lambda t: (not t[0]["repeatable"], t[0]["index"], t[1]))
    report, gate_fail = None, []
    for x, v in viols:
        if not x["repeatable"]:
            gate_fail.append("seed %s: %s is not repeatable within the worker" % (x["seed"], x["result"]["cls"])); continue
        r = plan_run(exes[v], pid, x["plan"])
        if r["kind"] is None or r["cls"] != x["result"]["cls"] or r["log"] != x["result"]["log"]:
            gate_fail.append("seed %s: a fresh process does not reproduce %s" % (x["seed"], x["result"]["cls"])); continue
        report = (x, v, r); break
    rc = 0
    if report:
        x, v, r = report
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        mini = os.path.join(tmp, "min.plan")
        used, res = x["plan"], r
        try:
            p = subprocess.run([exes[v], "--min", pid, x["plan"], mini, "60"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=sim_env(), timeout=200)
            if p.returncode == 1 and os.path.exists(mini):
                a = plan_run(exes[v], pid, mini); b = plan_run(exes[v], pid, mini)
                if a["cls"] == r["cls"] and a == b:
                    used, res = mini, a
        except subprocess.TimeoutExpired:
            pass
        path = os.path.join(VERIF, "replays", "%s-%s.plan" % (pid, x["seed"]))
        orig = open(x["plan"]).read()
        with open(path, "w") as f:
            f.write("# property %s: %s\n# %s\n# VERIF_SEED=%d, run seed %s, build variant %d, log %s\n# replay: python3 check.py replay %s %s\n"
                    % (pid, res["cls"], res["msg"].replace("\n", " "), seed, x["seed"], v, res["log"], pid, path))
            f.write(open(used).read())
            f.write("# the schedule before it was minimised:\n" + "".join("#   " + l + "\n" for l in orig.splitlines()))
        print("found: %s" % res["msg"].replace("\n", " "))
        print("seed %s, steps %d -> %d" % (x["seed"], orig.count("\n") - 1, open(used).read().count("\n") - 1))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif gate_fail:
        print("ERROR: " + "; ".join(gate_fail[:5])); rc = 2
    elif errors:
        print("ERROR: " + "; ".join(errors[:3])); rc = 2
    mism = sum(d["mismatches"] for d in done)
    if rc == 0 and mism:
        print("ERROR: %d executions were not repeatable" % mism); rc = 2
    evidence(pid, tier, seed, done, 1 if report else 0, t0, tb, search_s, runs, gate_fail)
    for c, text in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    n = sum(d["runs"] for d in done)
    print("%d executions in %.1f s (build %.1f s), %d repeated, %d mismatches" % (n, search_s, tb - t0, sum(d["repeated"] for d in done), mism))
    return rc

def evidence(pid, tier, seed, done, nviol, t0, tb, search_s, runs, gate_fail):
    tot = {}
    cov, faults, logs, edges = set(), set(), set(), {}
    for d in done:
        for k, n in d["counters"].items():
            tot[k] = tot.get(k, 0) + n
        # the two variants are different programs: keep their signatures apart
        cov |= {(d["variant"], x) for x in d["cov"]}; faults |= set(d["faults"]); logs |= {(d["variant"], x) for x in d["logs"]}
        try:
            b = read(d["cov_file"]); e = edges.setdefault(d["variant"], bytearray(len(b)))
            for i, c in enumerate(b):
                if c: e[i] = 1
        except OSError:
            pass
    n = sum(d["runs"] for d in done)
    kinds = [k for k in tot if k.startswith(("refuse_", "stream_", "print_sink", "flipped_", "swapped_", "clock_jumps"))]
    samples = [s for d in done for s in d["samples"]][:4]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "violations": nviol, "wall_s": round(time.time() - t0, 2),
          "assumptions": ASSUME,
          "coverage": {
              "evaluations": n,
              "distinct_nontrivial": min(len(logs if pid == "C22" else cov), sum(d["nontrivial"] for d in done)),
              "rule": RULE.get(pid, RULE["default"]),
              "samples": samples or [{"note": "no execution completed"}],
              "runs_planned": 2 * runs,
              "runs_stopped_early": any(d["stopped"] for d in done),
              "executions_and_seeds_per_hour": round(n / max(search_s, 1e-3) * 3600),
              "simulated_time_s": round(sum(d["sim_ns"] for d in done) / 1e9, 3),
              "faults_injected": {k: tot[k] for k in sorted(kinds)},
              "rare_conditions_reached": {k: tot[k] for k in sorted(tot) if k not in kinds},
              "distinct_event_logs": len(logs),
              "distinct_fault_point_sequences": len(faults),
              "edges_reached_per_variant": {str(v): sum(e) for v, e in edges.items()},
              "edges_instrumented": max([d["edges_total"] for d in done] or [0]),
              "executions_repeated_for_determinism": sum(d["repeated"] for d in done),
              "repeat_mismatches": sum(d["mismatches"] for d in done),
              "inconclusive": sum(d["inconclusive"] for d in done),
              "known_finding_hits": sum(d["known_hits"] for d in done),
              "violations_failing_the_repeat_gate": len(gate_fail),
              "build_variants": "0: tracker list of 32, locals preset to a pattern; 1: tracker list of 1, locals preset to zero",
              "real_components": REAL + (MEX_REAL if pid == "C25" else APP_REAL if pid == "C27" else []), "stubbed_components": STUB + (MEX_STUB if pid == "C25" else APP_STUB if pid == "C27" else [])}}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    f = os.path.join(VERIF, "evidence", pid + ".json")
    with open(f + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(f + ".tmp", f)

def replay(pid, plan):
    m = re.search(r"^cfg .*\bvariant=(\d)", open(plan).read(), re.M)
    if not m:
        die("not a replay file: " + plan)
    exes = build(MORE.get(pid))
    r = plan_run(exes[int(m.group(1)) & 1], pid, plan)
    if r["kind"] is None:
        print("no violation"); return 0
    print(r["msg"]); print("log %s" % r["log"]); print("VIOLATION property=%s replay=%s" % (pid, plan))
    return 1

def main(a):
    if a[:1] == ["build"]:
        print("\n".join(build() + build("mex") + build("app"))); return 0
    if a[:1] == ["run"] and (len(a) == 2 or len(a) == 3 and a[2] in SCALE):
        return run(*a[1:])
    if a[:1] == ["replay"] and len(a) == 3:
        return replay(a[1], a[2])
    print(__doc__); return 2

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
