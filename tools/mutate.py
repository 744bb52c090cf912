"""Mutation testing of the checks themselves (development tool; no registered check uses it).

mutate.py cover OUT.json                 which sub-checks execute which lines of bet (run on the clean tree)
mutate.py run COVER.json OUT.jsonl [--files a,b] [--scale X] [--max N] [--lines a-b]   evaluate mutants, 8 at a time
Survivors (mutants no covering sub-check rejects) are then reviewed by hand, after the repository's tests were run on them."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
SRC = os.environ.get("MUT_REPO", "/repo")
FILES = ["bet/sample.py", "bet/util.py", "bet/Comm.py", "bet/surrogates.py", "bet/calculateP/calculateP.py", "bet/calculateP/calculateR.py",
         "bet/calculateP/calculateError.py", "bet/calculateP/simpleFunP.py", "bet/postProcess/compareP.py", "bet/postProcess/plotP.py",
         "bet/postProcess/plotDomains.py", "bet/postProcess/postTools.py", "bet/postProcess/plotVoronoi.py", "bet/sampling/basicSampling.py",
         "bet/sampling/LpGeneralizedSamples.py", "bet/sampling/useLUQ.py", "bet/sensitivity/chooseQoIs.py", "bet/sensitivity/gradients.py"]
PIDS = ["C%02d" % i for i in range(1, 60)]


def props():
    from vp import driver
    out = []
    for p in PIDS:
        if os.path.exists(os.path.join(VERIF, "vp/props", p.lower() + ".py")):
            out.append(driver.load(p))
    return out


def hunt(pid, sub, n, seed, secs):
    """True if some generated case is rejected."""
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    from vp import driver
    bad = []
    t0 = time.time()

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False, verbosity=Verbosity.quiet,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate])
    @given(sub.strategy)
    def body(case):
        if time.time() - t0 > secs:
            return
        try:
            driver.run_case(sub, case)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except BaseException as e:
            bad.append("%s: %s" % (type(e).__name__, str(e)[:150]))
            raise RuntimeError("x")
    try:
        body()
    except BaseException as e:
        if not bad:
            bad.append("harness %r" % e)
    return bad[0] if bad else None


def cover_one(spec, out):
    """Child: run sub-checks of one mode, write executed lines."""
    from vp import driver
    mode, pid, name, n = spec
    prop = driver.load(pid)
    sub = [s for s in prop.subs if s.name == name][0]
    root = os.path.realpath(driver.REPO) + "/"
    lines = {}
    m = sys.monitoring
    m.use_tool_id(3, "cov")

    def on(code, line):
        f = code.co_filename
        if f.startswith(root + "bet/"):
            lines.setdefault(f[len(root):], set()).add(line)
        return m.DISABLE
    m.register_callback(3, m.events.LINE, on)
    m.set_events(3, m.events.LINE)
    driver.prepare(sub.needs)
    imported = {f: set(v) for f, v in lines.items()}
    for f in lines:
        lines[f].clear()
    m.restart_events()
    hunt(pid, sub, n, 5, 60)
    json.dump(dict(pid=pid, sub=name, lines={f: sorted(v) for f, v in lines.items()}), open(out, "w"))
    os._exit(0)


def cover(out):
    d = tempfile.mkdtemp()
    todo = [(p.pid, s.name, max(20, int(s.quick * 0.2))) for p in props() for s in p.subs]
    run, res = [], []

    def wait(k):
        while len(run) > k:
            for x in list(run):
                if x[0].poll() is not None:
                    run.remove(x)
                    res.append(json.load(open(x[1])) if os.path.exists(x[1]) else print("died", x[2]))
            time.sleep(0.05)
    for i, t in enumerate(todo):
        wait(7)
        w = os.path.join(d, "w%d" % i)
        os.makedirs(w)
        o = os.path.join(d, "o%d" % i)
        e = dict(os.environ, VP_REPO=SRC, PYTHONPATH=SRC + ":" + VERIF + ":" + VERIF + "/vendor")
        run.append((subprocess.Popen(launch("_cover", json.dumps(["", *t]), o), cwd=w, env=env(e), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), o, t))
    wait(0)
    tab = {}
    for r in res:
        if r:
            for f, ls in r["lines"].items():
                for l in ls:
                    tab.setdefault(f, {}).setdefault(str(l), []).append([r["pid"], r["sub"]])
    json.dump(tab, open(out, "w"))
    shutil.rmtree(d)


def launch(*a):
    return ["/opt/venv/bin/python", "-W", "ignore", os.path.abspath(__file__)] + list(a)


def env(e):
    e = dict(e, MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMPI_MCA_btl="self", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return e


# ------------------------------------------------------------------ mutants
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"]}
NAMES = {"max": "min", "min": "max", "argmin": "argmax", "argmax": "argmin", "sum": "max", "logical_and": "logical_or", "logical_or": "logical_and",
         "less": "less_equal", "greater": "greater_equal", "less_equal": "less", "greater_equal": "greater", "zeros": "ones", "ones": "zeros",
         "vstack": "hstack", "floor": "ceil", "ceil": "floor", "mean": "median", "any": "all", "all": "any", "isnan": "isinf", "isinf": "isnan",
         "allreduce": None, "append": None, "copy": None, "maximum": "minimum", "minimum": "maximum", "sort": None, "argsort": None, "prod": "sum",
         "abs": None, "absolute": None, "sqrt": None, "SUM": "MAX", "MAX": "SUM", "equal": "not_equal", "not_equal": "equal"}


def mutants(path, rel):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    data = src.encode()

    def off(line, col):
        return starts[line - 1] + col

    def seg(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    out = []

    def add(node, a, b, new, kind):
        out.append(dict(file=rel, line=node.lineno, end=node.end_lineno, a=a, b=b, old=data[a:b].decode(), new=new, kind=kind, text=lines[node.lineno - 1]))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    infun = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for x in ast.walk(n):
                infun.add(x)
    for n in ast.walk(tree):
        if n not in infun or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = seg(n.left)[1], seg(n.comparators[0])[0]
            for new in CMP.get(type(n.ops[0]), []):
                txt = data[a:b].decode()
                pre, post = txt[:len(txt) - len(txt.lstrip(" )"))], txt[len(txt.rstrip(" (")):]
                add(n, a, b, pre + " " + new + " " + post, "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            a, b = seg(n.left)[1], seg(n.right)[0]
            txt = data[a:b].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}[type(n.op)]
            if txt.count(sym) >= 1:
                k = txt.index(sym)
                for new in BIN[type(n.op)]:
                    add(n, a + k, a + k + len(sym), new, "bin")
        elif isinstance(n, ast.BoolOp):
            a, b = seg(n.values[0])[1], seg(n.values[1])[0]
            txt = data[a:b].decode()
            w = "and" if isinstance(n.op, ast.And) else "or"
            if w in txt:
                k = txt.index(w)
                add(n, a + k, a + k + len(w), "or" if w == "and" else "and", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = seg(n)
            c, d = seg(n.operand)
            add(n, a, b, "(" + data[c:d].decode() + ")", "unary")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            a, b = seg(n)
            v = n.value
            news = ["False"] if v is True else ["True"] if v is False else ["0"] if v is None else \
                [repr(v + 1)] + ([repr(v - 1)] if v else []) if isinstance(v, int) else [repr(v * 2), repr(v + 0.25)] if v else ["1.0"]
            for new in news:
                if v is not None:
                    add(n, a, b, new, "const")
        elif isinstance(n, ast.Attribute):
            a, b = seg(n)
            c = seg(n.value)[1]
            txt = data[c:b].decode()
            if n.attr in NAMES and NAMES[n.attr]:
                add(n, c, b, txt.replace(n.attr, NAMES[n.attr]), "name")
            if n.attr.endswith("_local") and n.attr not in ("global_to_local",):
                add(n, c, b, txt.replace("_local", ""), "local")
        elif isinstance(n, ast.If) or isinstance(n, ast.While):
            a, b = seg(n.test)
            if isinstance(n, ast.If):
                add(n.test, a, b, "(True)", "iftrue")
            add(n.test, a, b, "(False)", "iffalse")
        elif isinstance(n, ast.IfExp):
            a, b = seg(n.test)
            add(n.test, a, b, "True", "iftrue")
            add(n.test, a, b, "False", "iffalse")
        elif isinstance(n, ast.Break):
            add(n, *seg(n), "pass", "break")
        elif isinstance(n, ast.Continue):
            add(n, *seg(n), "pass", "continue")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name == "copy" and not n.args and isinstance(f, ast.Attribute):
                add(n, *seg(n), data[slice(*seg(f.value))].decode(), "nocopy")
            if name in ("abs", "absolute", "sqrt", "sort", "unique", "copy", "deepcopy", "array", "ravel", "squeeze", "asarray", "int", "float") \
                    and len(n.args) >= 1:
                add(n, *seg(n), "(" + data[slice(*seg(n.args[0]))].decode() + ")", "unwrap")
            if len(n.args) == 2:
                x, y = [data[slice(*seg(q))].decode() for q in n.args]
                a, b = seg(n.args[0])[0], seg(n.args[1])[1]
                if not any(isinstance(q, ast.Starred) for q in n.args):
                    add(n, a, b, y + ", " + x, "swapargs")
            for k in n.keywords:
                if k.arg and name not in ("format",):
                    a, b = seg(k)
                    # drop the keyword
                    rest = data[b:]
                    add(k, a, b, "**{}", "dropkw")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "attr", "") in (
                    "warning", "info", "debug", "warn"):
                continue
            add(n, *seg(n), "pass", "delete")
        if isinstance(n, ast.AugAssign):
            a, b = seg(n.target)[1], seg(n.value)[0]
            add(n, a, b, " = ", "aug")
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, *seg(n), "return None", "retnone")
    good = []
    seen = set()
    for m in out:
        new = data[:m["a"]] + m["new"].encode() + data[m["b"]:]
        if new in seen or m["old"] == m["new"]:
            continue
        seen.add(new)
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        good.append(m)
    return good


def child(mfile):
    """Evaluate one mutant in one mode: list of [pid, sub, n]."""
    d = json.load(open(mfile))
    from vp import driver
    driver.CASE_LIMIT = 20
    driver.prepare(d["mode"] or None)
    for pid, name, n in d["subs"]:
        prop = driver.load(pid)
        sub = [s for s in prop.subs if s.name == name][0]
        r = hunt(pid, sub, n, 77, d["secs"])
        if r:
            json.dump(dict(killed=[pid, name], how=r), open(mfile + ".res", "w"))
            os._exit(0)
    json.dump(dict(killed=None), open(mfile + ".res", "w"))
    os._exit(0)


def evaluate(m, tab, scale, secs, order):
    d = tempfile.mkdtemp(prefix="mut_")
    t0 = time.time()
    try:
        subprocess.run(["cp", "-a", SRC + "/bet", d + "/bet"])
        p = os.path.join(d, m["file"])
        data = open(p, "rb").read()
        open(p, "wb").write(data[:m["a"]] + m["new"].encode() + data[m["b"]:])
        cov = []
        for l in range(m["line"], m["end"] + 1):
            for x in tab.get(m["file"], {}).get(str(l), []):
                if x not in cov:
                    cov.append(x)
        if not cov:
            return dict(m, result="uncovered")
        cov.sort(key=lambda x: (-order.get((m["file"], x[0], x[1]), 0), SIZE.get((x[0], x[1]), 0)))
        cov = [x for x in cov if NEEDS[tuple(x)] != "fakempi"][:a.most] + [x for x in cov if NEEDS[tuple(x)] == "fakempi"][:a.most // 3]
        for mode in ("", "nompi", "fakempi"):
            subs = [[x[0], x[1], max(10, int(QUICK[(x[0], x[1])] * scale))] for x in cov if (NEEDS[(x[0], x[1])] or "") == mode]
            if not subs:
                continue
            f = d + "/m.json"
            w = d + "/w" + mode
            os.makedirs(w)
            json.dump(dict(mode=mode, subs=subs, secs=secs), open(f, "w"))
            try:
                subprocess.run(launch("_child", f), cwd=w, env=env(dict(os.environ, VP_REPO=d, PYTHONPATH=d + ":" + VERIF + ":" + VERIF + "/vendor", MPLCONFIGDIR=d)),
                               stdout=open(d + "/log", "w"), stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                return dict(m, result="timeout")
            if not os.path.exists(f + ".res"):
                return dict(m, result="died", log=open(d + "/log").read()[-300:])
            r = json.load(open(f + ".res"))
            os.remove(f + ".res")
            if r["killed"]:
                k = (m["file"], r["killed"][0], r["killed"][1])
                order[k] = order.get(k, 0) + 1
                return dict(m, result="killed", by=r["killed"], how=r["how"])
        return dict(m, result="SURVIVED", cov=cov, secs=time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "_cover":
        sys.path.insert(0, os.path.join(VERIF, "vendor"))
        sys.path.insert(0, os.environ.get("VP_REPO", SRC))
        cover_one(json.loads(sys.argv[2]), sys.argv[3])
    elif sys.argv[1] == "_child":
        child(sys.argv[2])
    elif sys.argv[1] == "cover":
        sys.path.insert(0, os.path.join(VERIF, "vendor"))
        cover(sys.argv[2])
    else:
        sys.path.insert(0, os.path.join(VERIF, "vendor"))
        import argparse
        from concurrent.futures import ThreadPoolExecutor
        ap = argparse.ArgumentParser()
        ap.add_argument("cmd"), ap.add_argument("cover"), ap.add_argument("out")
        ap.add_argument("--files", default=",".join(FILES)), ap.add_argument("--scale", type=float, default=0.5)
        ap.add_argument("--max", type=int, default=10 ** 9), ap.add_argument("--jobs", type=int, default=8)
        ap.add_argument("--secs", type=float, default=60)
        ap.add_argument("--most", type=int, default=24)
        ap.add_argument("--again", help="only the survivors of an earlier run"), ap.add_argument("--without", help="not those of an earlier run")
        a = ap.parse_args()
        tab = json.load(open(a.cover))
        QUICK = {(p.pid, s.name): s.quick for p in props() for s in p.subs}
        NEEDS = {(p.pid, s.name): s.needs for p in props() for s in p.subs}
        SIZE = {}
        for f in tab:
            for l in tab[f]:
                for x in tab[f][l]:
                    SIZE[tuple(x)] = SIZE.get(tuple(x), 0) + 1
        done = set()
        if os.path.exists(a.out):
            for l in open(a.out):
                r = json.loads(l)
                done.add((r["file"], r["a"], r["b"], r["new"]))
        def listed(path, results):
            return [(r["file"], r["kind"], r["old"], r["new"], r["text"]) for r in map(json.loads, open(path)) if r["result"] in results]
        again = set(listed(a.again, ("SURVIVED", "uncovered"))) if a.again else None
        without = set(listed(a.without, ("SURVIVED", "uncovered", "killed", "died", "timeout"))) if a.without else set()
        todo = []
        for f in a.files.split(","):
            ms = [m for m in mutants(SRC + "/" + f, f)
                  if (again is None or (f, m["kind"], m["old"], m["new"], m["text"]) in again) and (f, m["kind"], m["old"], m["new"], m["text"]) not in without]
            random.Random(7).shuffle(ms)
            todo += ms[:a.max]
        random.Random(9).shuffle(todo)
        todo = [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in done]
        print(len(todo), "mutants", flush=True)
        order = {}
        with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as fo:
            from concurrent.futures import as_completed
            for fut in as_completed([ex.submit(evaluate, m, tab, a.scale, a.secs, order) for m in todo]):
                r = fut.result()
                fo.write(json.dumps(r) + "\n")
                fo.flush()
