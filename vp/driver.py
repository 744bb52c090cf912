"""Runs the sub-checks of a property in worker processes, reports, writes evidence and replay files."""
import importlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CASE_LIMIT = 120          # seconds one case may take before it counts as not answering
BUDGET = {"quick": 150, "thorough": 3000}   # seconds a worker goes on generating


def load(pid):
    return importlib.import_module("vp.props." + pid.lower()).PROP


def prepare(mode):
    """Import the code under test from REPO, in the requested MPI mode."""
    import logging, warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    if mode == "fakempi":
        from vp import fakempi
        fakempi.install()
    elif mode == "nompi":
        sys.modules["mpi4py"] = None
    import numpy as np
    np.seterr(all="ignore")
    import bet
    where = os.path.realpath(bet.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("bet imported from %s, not from %s" % (where, REPO))


def run_case(sub, case):
    """One evaluation. Returns the tally; raises on a violation."""
    import numpy as np
    from vp.core import Tally, Violation
    random.seed(12345)
    np.random.seed(12345)
    tally = Tally()

    def onalarm(*_):
        raise Violation("no answer within %d s" % CASE_LIMIT)
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_LIMIT)
    try:
        sub.fn(case, tally)
    finally:
        signal.alarm(0)
    return tally


def worker(pid, name, seed, n, out, tier):
    prop = load(pid)
    sub = [s for s in prop.subs if s.name == name][0]
    prepare(sub.needs)
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 60
    from vp.core import case_hash
    st = dict(evals=0, seen=set(), labels={}, samples=[], failing=None, error=None, fail_at=None, skipped=0)
    t0 = time.time()
    budget = BUDGET[tier]

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
              report_multiple_bugs=False, verbosity=Verbosity.quiet,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
    @given(sub.strategy)
    def body(case):
        if st["failing"] is None and time.time() - t0 > budget:
            st["skipped"] += 1
            return
        st["evals"] += 1
        try:
            tally = run_case(sub, case)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            if st["failing"] is None:
                st["fail_at"] = st["evals"]
            st["failing"] = json.loads(json.dumps(case))
            st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
            if isinstance(e, Exception):
                raise
            raise RuntimeError("%s: %s" % (type(e).__name__, e))   # e.g. SystemExit
        for l in tally.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if tally.nontriv:
            h = case_hash(case)
            if h not in st["seen"]:
                st["seen"].add(h)
                if len(st["seen"]) in (1, 30, 150) and len(json.dumps(case)) < 4000:
                    st["samples"] = ([case] + st["samples"])[:2]

    harness_error = None
    try:
        body()
    except BaseException:
        if st["failing"] is None:
            harness_error = traceback.format_exc()
    res = dict(sub=name, seed=seed, evaluations=st["evals"], distinct=sorted(st["seen"]), labels=st["labels"],
               samples=st["samples"], failing=st["failing"], error=st["error"], fail_at=st["fail_at"],
               harness_error=harness_error, skipped=st["skipped"], wall=time.time() - t0)
    with open(out, "w") as f:
        json.dump(res, f)
    os._exit(0)


def replay(pid, path):
    prop = load(pid)
    d = json.load(open(path))
    sub = [s for s in prop.subs if s.name == d["sub"]][0]
    prepare(sub.needs)
    try:
        run_case(sub, d["case"])
    except Exception:
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay of %s: property %s holds on this case" % (path, pid))
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--worker", nargs=5)
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    if a.worker:
        name, seed, n, out, tier = a.worker
        worker(pid, name, int(seed), int(n), out, tier)
        return 0
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        os.makedirs(os.environ["MPLCONFIGDIR"])
        if a.replay:
            path = os.path.abspath(a.replay)
            os.chdir(scratch)
            return replay(pid, path)
        return campaign(pid, a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def campaign(pid, a, scratch):
    t0 = time.time()
    prop = load(pid)
    subs = [s for s in prop.subs if not a.sub or s.name in a.sub]
    jobs = []
    for s in subs:
        n = s.quick * prop.more if a.tier == "quick" and s.quick >= 50 else s.quick if a.tier == "quick" else s.thorough
        n = max(1, int(n * a.scale))
        if a.tier == "quick":
            shards = min(a.jobs, max(1, n // 400))
        else:
            shards = min(4, n)
        for k in range(shards):
            jobs.append((s, a.seed * 1000 + k, max(1, n // shards)))
    jobs.sort(key=lambda j: -j[2])
    running, results, errors = [], [], []

    def reap(block):
        while running:
            for item in list(running):
                p, s, seed, out, log = item
                if p.poll() is None:
                    continue
                running.remove(item)
                if os.path.exists(out):
                    results.append(json.load(open(out)))
                else:
                    errors.append("worker %s/%s died with %s\n%s" % (
                        pid, s.name, p.returncode, open(log, errors="replace").read()[-3000:]))
                return
            if not block:
                return
            time.sleep(0.05)

    for i, (s, seed, n) in enumerate(jobs):
        while len(running) >= a.jobs:
            reap(True)
        wd = os.path.join(scratch, "w%d" % i)
        os.makedirs(wd)
        out, log = os.path.join(scratch, "r%d.json" % i), os.path.join(scratch, "l%d" % i)
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "run.py"), pid, "--worker", s.name,
                              str(seed), str(n), out, a.tier],
                             cwd=wd, stdout=open(log, "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        running.append((p, s, seed, out, log))
    while running:
        reap(True)

    known = known_findings(prop)
    violations = []
    evals, distinct, labels, samples, per = 0, set(), {}, [], {}
    for r in sorted(results, key=lambda r: (r["sub"], r["seed"])):
        if r["harness_error"]:
            errors.append("%s/%s: %s" % (pid, r["sub"], r["harness_error"]))
        evals += r["evaluations"]
        distinct |= set((r["sub"], h) for h in r["distinct"])
        for k, v in r["labels"].items():
            labels[r["sub"] + "/" + k] = labels.get(r["sub"] + "/" + k, 0) + v
        pe = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, wall_s=0, not_run_for_time=0))
        pe["evaluations"] += r["evaluations"]
        pe["nontrivial"] += len(r["distinct"])
        pe["wall_s"] = round(pe["wall_s"] + r["wall"], 2)
        pe["not_run_for_time"] += r["skipped"]
        for c in r["samples"][:1]:
            if sum(1 for x in samples if x["sub"] == r["sub"]) < 1:
                samples.append(dict(sub=r["sub"], case=c))
        if r["failing"] is not None and not any(v["sub"] == r["sub"] for v in violations):
            violations.append(r)
    rule = "Cases are drawn by Hypothesis (seeded by VERIF_SEED) per sub-check, non-trivial as follows. " + " ".join(
        "[%s] %s" % (s.name, s.rule) for s in subs)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=rule, samples=samples,
                            per_subcheck=per, labels=labels),
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for line in known:
        print(line)
    for k in sorted(per):
        print("%s/%s: %d cases, %d distinct non-trivial, %.1f s" % (
            pid, k, per[k]["evaluations"], per[k]["nontrivial"], per[k]["wall_s"]))
    code = 0
    for v in violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, v["sub"]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=v["sub"], case=v["failing"], error=v["error"], seed=v["seed"]), f, indent=1)
        print("--- %s/%s, first failing case was number %s; shrunk case: %s" % (
            pid, v["sub"], v["fail_at"], json.dumps(v["failing"])[:1500]))
        print(v["error"][-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    if code == 0 and errors:
        for e in errors:
            print("HARNESS-ERROR " + e)
        code = 2
    print("%s: %d evaluations, %d distinct non-trivial, %d violation(s), %.1f s" % (
        pid, evals, len(distinct), len(violations), time.time() - t0))
    return code


def known_findings(prop):
    """Lines for the recorded (not repaired) findings of this property, from the committed file."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop.pid and d.get("status") == "known":
                    out.append("KNOWN-FINDING: property=%s %s" % (prop.pid, d["what"]))
    return out
