"""Make and try out planted bugs (development tool; no registered check uses it).

A spec file defines BUGS, a list of dicts: id, property, file, edits [(old, new), ...], needs, breaks, demo (Python source,
exits nonzero when the property is broken).  `plant.py SPEC [ID ...]` makes, for each, a scratch copy of /repo, applies the
edits, checks that they replace lines of the original repository only, runs build, stable tests and demo, and the quick check
of the property; it writes /verif/seeded/<id> when everything is as a planted bug needs, and reports whether it was caught."""
import json, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "3ac27ab"
ENV = dict(os.environ, MPLBACKEND="agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMPI_MCA_btl="self", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
DEMO = '#!/bin/bash\nexport MPLBACKEND=agg OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMPI_ALLOW_RUN_AS_ROOT=1 ' \
       'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 PYTHONDONTWRITEBYTECODE=1\nhere="$(cd "$(dirname "$0")" && pwd)"\n' \
       'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"\n'
STABLE = None


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests(copy):
    w = tempfile.mkdtemp()
    os.symlink(copy + "/test", w + "/test")
    rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + copy, "-W", "ignore",
                  "-p", "no:randomly", copy + "/test"], cwd=w, env=dict(ENV, PYTHONPATH=copy))
    shutil.rmtree(w)
    return rc, out


def original(copy, f, patch):
    """Does the patch remove or change only lines of the original repository, and at least one?"""
    rc, out = sh(["git", "-C", copy, "blame", "-s", "-l", "HEAD", "--", f])
    blame = [l.split()[0].lstrip("^") for l in out.splitlines()]
    rc, base = sh(["git", "-C", copy, "rev-list", BASE])
    base = set(x[:39] for x in base.split())
    n = 0
    ln = 0
    for l in patch.splitlines():
        if l.startswith("@@"):
            ln = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            if blame[ln - 1][:39] not in base:
                return False
            n += 1
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return n > 0


def one(b):
    copy = tempfile.mkdtemp(prefix="plant_")
    shutil.rmtree(copy)
    try:
        sh(["cp", "-a", "/repo", copy])
        path = os.path.join(copy, b["file"])
        s = open(path).read()
        for old, new in b["edits"]:
            if s.count(old) != 1:
                return b["id"], "EDIT matches %d times: %r" % (s.count(old), old[:60])
            s = s.replace(old, new)
        open(path, "w").write(s)
        rc, patch = sh(["git", "-C", copy, "diff"])
        if not original(copy, b["file"], patch):
            return b["id"], "changes lines that are not original (or none)"
        d = tempfile.mkdtemp(prefix="demo_")
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write(b["demo"])
        rc0, o0 = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
        rc1, o1 = sh(["bash", d + "/demo.sh"], cwd=copy, timeout=300)
        if rc0 != 0 or rc1 == 0:
            return b["id"], "DEMO clean %d, patched %d: %s" % (rc0, rc1, (o0 if rc0 else o1)[-400:])
        rc, out = tests(copy)
        if rc != 0:
            return b["id"], "TESTS fail: " + " | ".join(l for l in out.splitlines() if l.startswith("FAILED"))[:300]
        e = dict(os.environ, VP_REPO=copy, VERIF_SEED="1")
        caught = []
        for p in [b["property"]] + b.get("also", []):
            rc, out = sh(["python3", VERIF + "/run.py", p, "--no-evidence"], cwd=VERIF, env=e, timeout=1500)
            caught.append("%s:%s" % (p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR")))
        t = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        open(t + "/patch.diff", "w").write(patch)
        shutil.copy(d + "/demo.sh", t)
        shutil.copy(d + "/demo.py", t)
        shutil.rmtree(d)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(t + "/meta.json", "w"), indent=1)
        return b["id"], " ".join(caught)
    except Exception as e:
        return b["id"], "EXC %r" % e
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    bugs = [b for b in bugs if not want or b["id"] in want]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, bugs):
            print("%-28s %s" % (i, r), flush=True)
