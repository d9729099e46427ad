#!/usr/bin/env python3
"""Runs the check of one property.

    check.py ID                 build the harnesses of ID from /repo's working tree, explore, report
    check.py --replay FILE      re-execute the single case recorded in FILE
"""
import array, json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MITO_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from registry import CHECKS  # noqa: E402

CXX = "g++-14"
LIBDIR = "/usr/lib/x86_64-linux-gnu"
INCLUDES = ["-I%s/lib" % REPO, "-I%s/harness" % VERIF,
            "-isystem", LIBDIR + "/openmpi/include",
            "-isystem", LIBDIR + "/openmpi/include/openmpi",
            "-isystem", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include",
            "-isystem", "/opt/pyre/include"]
BASE = ["-std=c++23", "-w", "-g1", "-Wno-psabi", "-DMITO_CORE", "-DWITH_MPI", "-DWITH_PETSC",
        "-DWITH_METIS", "-fno-diagnostics-color"]
LINK = ["-L/opt/pyre/lib", "-lpyre", "-ljournal", "-Wl,-rpath,/opt/pyre/lib", "-lpthread"]
NCPU = os.cpu_count() or 4


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def compile_job(job, workdir, n, tier="quick"):
    """compile one harness; returns (binary, log or None)"""
    exe = os.path.join(workdir, "h%d" % n)
    cmd = [CXX] + BASE + [job.get("opt", "-O1")] + INCLUDES
    if job.get("shim"):
        cmd += ["-include", os.path.join(VERIF, "harness", "compat.h")]
    if job.get("asan"):
        cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    cmd += job.get("flags", [])
    if tier == "thorough":
        cmd += job.get("deep", [])
    cmd += [os.path.join(VERIF, "harness", job["src"])]
    for s in job.get("repo_src", []):
        cmd += [os.path.join(REPO, s)]
    cmd += ["-o", exe] + LINK + job.get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    errors = "\n".join(l[:600] for l in p.stdout.splitlines() if re.search(r"error|Killed|out of memory|undefined", l))[:4000]
    return exe, (None if p.returncode == 0 else " ".join(cmd) + "\n" + p.stdout[-4000:] + "\n" + errors)


def rejected(log):
    return re.search(r"error: ", log) is not None and not re.search(
        r"internal compiler error|Killed|out of memory|cannot allocate|fatal error|undefined reference|No space left", log)


def write_evidence(prop, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))


def environment():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:"
                           "handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:"
                           "allocator_may_return_null=1:use_sigaltstack=0")
    env["OMPI_ALLOW_RUN_AS_ROOT"] = "1"
    env["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    env["OMPI_MCA_btl"] = "self"
    env["OMPI_MCA_plm_rsh_agent"] = ""
    env["OMPI_MCA_plm"] = "isolated"
    env["OMP_NUM_THREADS"] = "1"
    env["HOME"] = env.get("HOME", "/root")
    return env


def run_one(exe, out, cwd, tier, seed, shard, nshards, known, case=None, limit=780):
    cmd = [exe, "--out", out, "--tier", tier, "--seed", str(seed), "--shard", str(shard),
           "--nshards", str(nshards)]
    for k in known:
        cmd += ["--known", k]
    if case is not None:
        cmd += ["--case", case]
    os.makedirs(cwd, exist_ok=True)
    with open(out + ".log", "w") as log:
        p = subprocess.Popen(cmd, cwd=cwd, env=environment(), stdin=subprocess.DEVNULL,
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    viols = []
    if os.path.exists(out + ".viol"):
        for line in open(out + ".viol", errors="replace"):
            try:
                viols.append(json.loads(line))
            except ValueError:
                pass
    summ = None
    if os.path.exists(out + ".json"):
        try:
            summ = json.load(open(out + ".json"))
        except ValueError:
            summ = None
    tail = open(out + ".log", errors="replace").read()[-3000:]
    return dict(rc=rc, viols=viols, summ=summ, tail=tail)


def replay(path):
    rec = json.load(open(path))
    prop = rec["property"]
    job = CHECKS[prop]["jobs"][rec["job"]]
    work = tempfile.mkdtemp(prefix="mito-replay-")
    try:
        exe, err = compile_job(job, work, 0, rec["tier"])
        if rec.get("illformed"):
            if err and rejected(err):
                print("reproduced: " + err[-1500:])
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            print("not reproduced: it compiles" if not err else err)
            return 0
        if err:
            die("the harness does not compile:\n" + err)
        r = run_one(exe, os.path.join(work, "out"), os.path.join(work, "cwd"), rec["tier"],
                    rec["seed"], rec.get("shard", 0), rec.get("nshards", 1), [],
                    None if rec.get("whole_run") else rec["case"])
        bad = [v for v in r["viols"] if v["kind"] == "violation"]
        if bad or r["rc"] not in (0, 2):
            print("reproduced: " + (bad[0]["msg"] if bad else "harness ended with %s\n%s" % (r["rc"], r["tail"])))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if r["rc"] == 2:
            die(r["tail"])
        print("not reproduced: property %s holds on this case" % prop)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
    known_keys = [k["key"] for k in known]
    t0 = time.time()
    budget = 840 if tier == "quick" else 6 * 3600
    work = tempfile.mkdtemp(prefix="mito-%s-" % prop)
    try:
        jobs = spec["jobs"]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            built = list(ex.map(lambda nj: compile_job(nj[1], work, nj[0], tier), enumerate(jobs)))
        # an expression that the property promises may be ill-formed: that is a violation, provided
        # that the compiler rejects it (it did not crash) and accepts the rest of the harness
        illformed = []
        for n, (exe, err) in enumerate(built):
            if not err:
                continue
            if jobs[n].get("must_compile") and rejected(err) and any(not e for _, e in built):
                illformed.append((n, err))
            else:
                die("the harness does not compile against %s:\n%s" % (REPO, err))
        if illformed:
            n, err = illformed[0]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, os.getpid()))
            json.dump(dict(property=prop, job=n, src=jobs[n]["src"], tier=tier, seed=seed, illformed=True,
                           key="ill-formed", case=None, msg=err), open(path, "w"), indent=1)
            print("what: %s is ill-formed: %s" % (jobs[n]["must_compile"], err[-1500:]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            write_evidence(prop, dict(property=prop, tier=tier, seed=seed, level="other", coverage=dict(
                explanation="%s is ill-formed: nothing was run" % jobs[n]["must_compile"]),
                wall_s=round(time.time() - t0, 2), violations=1))
            sys.exit(1)
        t_build = time.time() - t0
        tasks = []
        for n, job in enumerate(jobs):
            ns = job.get("shards", 1)
            if ns == "all":
                ns = NCPU
            for s in range(ns):
                tasks.append((n, s, ns))

        def go(t):
            n, s, ns = t
            tag = os.path.join(work, "out-%d-%d" % (n, s))
            return run_one(built[n][0], tag, os.path.join(work, "cwd-%d-%d" % (n, s)), tier, seed,
                           s, ns, known_keys, limit=max(60, budget - (time.time() - t0)))

        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(go, tasks))

        if os.environ.get("MC_VERBOSE"):
            for t, r in zip(tasks, results):
                if t[1] == 0:
                    print(r["tail"])
        # gather
        cov = dict(states=0, transitions=0, traces=0, evaluations=0, nontrivial=0, checks=0)
        samples, notes, complete, full = [], {}, True, 0
        seen_known, bad = {}, []
        for (n, s, ns), r in zip(tasks, results):
            for v in r["viols"]:
                if v["kind"] == "known":
                    seen_known[v["key"]] = v
            vs = [v for v in r["viols"] if v["kind"] == "violation"]
            if vs:
                bad.append((n, s, ns, vs[0], r))
            elif r["rc"] != 0:
                if r["rc"] == 2:
                    die("harness %s failed:\n%s" % (jobs[n]["src"], r["tail"]))
                if r["rc"] == "timeout":
                    die("harness %s ran out of time" % jobs[n]["src"])
                bad.append((n, s, ns, dict(key="died", case=None, msg="the harness process ended "
                            "with %s: %s" % (r["rc"], r["tail"][-1500:])), r))
            sm = r["summ"]
            if sm is None:
                complete = False
                continue
            for k in ("transitions", "traces", "evaluations", "nontrivial", "checks"):
                cov[k] += sm[k]
            complete = complete and sm["complete"]
            full += sm["table_full"]
            for x in sm["samples"]:
                if len(samples) < 12 and x not in samples:
                    samples.append(x)
            for k, v in sm["notes"].items():
                notes[jobs[n]["src"].rsplit(".", 1)[0] + ": " + k] = v
        for n in range(len(jobs)):
            u = set()
            for (m, s, ns) in tasks:
                f = os.path.join(work, "out-%d-%d.states" % (m, s))
                if m == n and os.path.exists(f):
                    a = array.array("Q")
                    a.frombytes(open(f, "rb").read())
                    u.update(a)
            cov["states"] += len(u)

        # replay before reporting
        violations = 0
        if bad:
            n, s, ns, v, r = bad[0]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, os.getpid()))
            rec = dict(property=prop, job=n, src=jobs[n]["src"], tier=tier, seed=seed, shard=s,
                       nshards=ns, case=v["case"], key=v["key"], msg=v["msg"])
            confirmed = False
            if v["case"]:
                rr = run_one(built[n][0], os.path.join(work, "replay"), os.path.join(work, "rcwd"),
                             tier, seed, 0, 1, known_keys, case=v["case"], limit=300)
                confirmed = any(x["kind"] == "violation" for x in rr["viols"]) or rr["rc"] not in (0, 2)
            if not confirmed:
                rec["whole_run"] = True
                rr = run_one(built[n][0], os.path.join(work, "replay2"), os.path.join(work, "rcwd2"),
                             tier, seed, s, ns, known_keys, limit=400)
                confirmed = any(x["kind"] == "violation" for x in rr["viols"]) or rr["rc"] not in (0, 2)
            json.dump(rec, open(path, "w"), indent=1)
            if not confirmed:
                die("a violation did not reproduce on replay: %s" % json.dumps(rec))
            violations = 1
            print("case: %s" % v["case"])
            print("what: %s: %s" % (v["key"], v["msg"]))
            print("replay with: python3 %s --replay %s" % (os.path.abspath(__file__), path))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)

        for k in known:
            if k["key"] in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
            elif not bad:
                print("note: the recorded finding '%s' did not show on this tree" % k["key"])

        level = spec["level"]
        coverage = {}
        if level == "model_checking":
            coverage.update(states=cov["states"], transitions=cov["transitions"],
                            traces_validated_against_impl=cov["traces"])
            if cov["evaluations"]:
                coverage["input_cases"] = cov["evaluations"]
        else:
            coverage.update(evaluations=cov["evaluations"], distinct_nontrivial=cov["nontrivial"],
                            rule=spec["rule"])
            if cov["transitions"]:
                coverage.update(transitions=cov["transitions"], histories=cov["traces"])
        coverage["oracle_comparisons"] = cov["checks"]
        coverage["samples"] = samples
        coverage["exhaustive"] = bool(complete and not bad and not full)
        coverage["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
        if any(": diverged " in k for k in notes):
            coverage["exhaustive"] = False
        coverage["notes"] = notes
        coverage["build_s"] = round(t_build, 1)
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                  violations=violations)
        write_evidence(prop, ev)
        print("%s: %s; %s; %.1f s (build %.1f s)" % (
            prop, "VIOLATED" if violations else "held on everything explored",
            ", ".join("%s=%s" % (k, v) for k, v in cov.items() if v), time.time() - t0, t_build))
        sys.exit(1 if violations else 0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
