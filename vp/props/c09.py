"""C09: saving and loading returns an equal object; equality is exact."""
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen

ARR = ["volumes", "probabilities", "jacobians", "error_estimates", "region", "error_id", "densities"]
META = ["domain", "reference_value", "p_norm", "label", "labels", "prob", "prob_init", "weights", "weights_init", "cluster_maps",
        "kdtree", "radii", "bounding_box"]
LOCAL = ["values_local", "volumes_local", "probabilities_local", "jacobians_local", "error_estimates_local",
         "region_local", "error_id_local", "densities_local"]


@st.composite
def set_descs(draw, dim=None, n=None):
    dim = dim or draw(st.integers(1, 3))
    n = n or draw(sizes(1, 5, big=300))
    return dict(kind=draw(st.sampled_from(["sample_set", "sample_set", "voronoi", "rectangle", "ball", "cartesian"])), dim=dim, n=n,
                seed=draw(st.integers(0, 999)), attrs=draw(st.lists(st.sampled_from(ARR), unique=True)),
                meta=draw(st.lists(st.sampled_from(META), unique=True)), local=draw(st.sampled_from(["no", "all", "values"])))


def build(d):
    import scipy.stats
    import bet.sample as samp
    dim, n, rs = d["dim"], d["n"], np.random.RandomState(d["seed"])
    if d["kind"] == "rectangle":
        s = samp.rectangle_sample_set(dim)
        lo = np.arange(n)[:, None] + rs.random_sample((n, dim)) * 0.4
        s.setup(maxes=(lo + 0.5).tolist(), mins=lo.tolist())
        m = n + 1
    elif d["kind"] == "ball":
        s = samp.ball_sample_set(dim)
        s.setup((np.arange(n)[:, None] + rs.random_sample((n, dim)) * 0.1).tolist(), (0.1 + 0.2 * rs.random_sample(n)).tolist())
        m = n + 1
    elif d["kind"] == "cartesian":
        s = samp.cartesian_sample_set(dim)
        s.setup([np.linspace(0.0, 1.0 + rs.random_sample(), n + 1 if i == 0 else 2) for i in range(dim)])
        m = n + 1
    else:
        s = samp.sample_set(dim) if d["kind"] == "sample_set" else samp.voronoi_sample_set(dim)
        s.set_values(layout(rs.random_sample((n, dim))))
        m = n
    for a in ARR:
        if a in d["attrs"]:
            if a == "jacobians":
                v = rs.random_sample((m, 2, dim))
            elif a == "error_estimates":
                v = rs.random_sample((m, dim))
            elif a in ("region", "error_id"):
                v = rs.randint(0, 9, m)
            else:
                v = rs.random_sample(m)
            getattr(s, "set_" + a)(v)
    w = rs.random_sample(m)
    for a in d["meta"]:
        if a == "domain":
            s.set_domain(np.array([[-1.0, 2.5 + rs.random_sample()]] * dim))
        elif a == "reference_value":
            s.set_reference_value(rs.random_sample(dim))
        elif a == "p_norm":
            s.set_p_norm(1.0 + rs.randint(0, 3))
        elif a == "label":
            s.set_label("set %d" % rs.randint(9))
        elif a == "labels":
            s.set_labels(["x%d" % i for i in range(dim)])
        elif a in ("prob", "prob_init"):
            k = rs.randint(3)
            suf = "" if a == "prob" else "_init"
            if k == 0:
                typ, par = "rv", [["beta", {"a": float(1 + rs.randint(3)), "b": 2.0}] for _ in range(dim)]
            elif k == 1:
                typ, par = "gmm", (rs.random_sample((2, dim)), [np.eye(dim), 2 * np.eye(dim)], [0.25, 0.75])
            else:
                typ, par = "kde", ([[scipy.stats.gaussian_kde(rs.random_sample(5)) for _ in range(2)] for _ in range(dim)], [0.25, 0.75])
            getattr(s, "set_prob_type" + suf)(typ)
            getattr(s, "set_prob_parameters" + suf)(par)
        elif a == "weights":
            s.set_weights(w)
        elif a == "weights_init":
            s.set_weights_init(w[::-1].copy())
        elif a == "cluster_maps":
            s.set_cluster_maps([rs.random_sample((2, 2)), rs.random_sample((3, 2))])
        elif a == "kdtree" and d["kind"] in ("sample_set", "voronoi"):
            s.set_kdtree()
        elif a == "radii" and d["kind"] in ("sample_set", "voronoi"):
            s._normalized_radii = rs.random_sample(m)
        elif a == "bounding_box":
            s.set_bounding_box()
    if d["local"] == "all":
        s.global_to_local()
    elif d["local"] == "values":
        s.set_values_local(np.array(s.get_values()))
    return s


@st.composite
def disc_descs(draw):
    n = draw(sizes(1, 5, big=300))
    di, do = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    plain = ["sample_set", "voronoi"]
    d = dict(disc=True, ptrs=draw(st.lists(st.sampled_from(["io", "ii", "oo"]), unique=True)), glob=draw(st.booleans()))
    for name, dim in (("input", di), ("output", do)):
        d[name] = draw(set_descs(dim=dim, n=n))
        if d[name]["kind"] not in plain:
            d[name]["kind"] = "sample_set"
    for name, dim in (("prob", do), ("em_in", di), ("em_out", do), ("obs", do)):
        d[name] = draw(st.none() | set_descs(dim=dim))
        if d[name] is not None and name != "prob" and d[name]["kind"] not in plain:
            d[name]["kind"] = "sample_set"
    return d


def build_any(d):
    import bet.sample as samp
    if not d.get("disc"):
        return build(d)
    s = {k: (None if d[k] is None else build(d[k])) for k in ("input", "output", "prob", "em_in", "em_out", "obs")}
    x = samp.discretization(s["input"], s["output"], output_probability_set=s["prob"], emulated_input_sample_set=s["em_in"],
                            emulated_output_sample_set=s["em_out"], output_observed_set=s["obs"])
    if "io" in d["ptrs"] and s["prob"] is not None:
        x.set_io_ptr(globalize=d["glob"])
    if "ii" in d["ptrs"] and s["em_in"] is not None:
        x.set_emulated_ii_ptr(globalize=d["glob"])
    if "oo" in d["ptrs"] and s["em_out"] is not None and s["prob"] is not None:
        x.set_emulated_oo_ptr(globalize=d["glob"])
    return x


# ------------------------------------------------------------------ field-wise comparison through the getters
def contents(s):
    """Everything a user can read off a set or discretization, as {name: value}."""
    import bet.sample as samp
    out = {}
    if s is None:
        return None
    if isinstance(s, samp.discretization):
        for k in ("input_sample_set", "output_sample_set", "output_probability_set", "emulated_input_sample_set",
                  "emulated_output_sample_set", "output_observed_set"):
            out[k] = contents(getattr(s, "get_" + k)())
        for k in ("io_ptr", "emulated_ii_ptr", "emulated_oo_ptr"):
            out[k] = getattr(s, "get_" + k)()
            out[k + "_local"] = getattr(s, "_" + k + "_local")
        return out
    for k in ["values"] + ARR + LOCAL + ["domain", "reference_value", "p_norm", "label", "labels", "prob_type", "prob_parameters",
                                         "prob_type_init", "prob_parameters_init", "weights", "weights_init", "cluster_maps", "dim"]:
        out[k] = getattr(s, "get_" + k)()
    out["class"] = type(s).__name__
    out["radii"] = s._normalized_radii
    return out


def diff(a, b, path=""):
    """Names of the fields that differ, None for none."""
    import scipy.stats
    if isinstance(a, scipy.stats.gaussian_kde) and isinstance(b, scipy.stats.gaussian_kde):
        return diff([a.dataset, a.weights, a.covariance], [b.dataset, b.weights, b.covariance], path)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        ok = isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and \
            np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
        return None if ok else path
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return path
        for k in a:
            r = diff(a[k], b[k], path + "/" + str(k))
            if r is not None:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return path
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, path + "[%d]" % i)
            if r is not None:
                return r
        return None
    return None if type(a) is type(b) and a == b else path


def truth(x, what):
    check(x is True or x is False or isinstance(x, np.bool_), what + ": comparison gives a truth value", got=x)
    return bool(x)


# ------------------------------------------------------------------ round trip
@st.composite
def file_cases(draw):
    return dict(obj=draw(st.one_of(set_descs(), disc_descs())),
                name=draw(st.sampled_from(["plain", "with.dots", "sub/inner", "./here", "abs", "sub/proc_odd", "proc_odd", "long name"])),
                globalize=draw(st.booleans()), localize=draw(st.booleans()), overwrite=draw(st.booleans()),
                via=draw(st.sampled_from(["method", "util"])))


def roundtrip(case, t):
    import bet.util as util
    import bet.sample as samp
    tmp = tempfile.mkdtemp(prefix="c09_", dir=".")
    home = os.getcwd()
    os.chdir(tmp)
    try:
        os.mkdir("sub")
        name = os.path.join(os.getcwd(), "abs") if case["name"] == "abs" else case["name"]
        x = build_any(case["obj"])
        before = contents(x.copy())
        gathered = x.copy()
        gathered.local_to_global()
        if case["overwrite"]:
            gen.plain_set([[1.0, 2.0]], 2).save(name)
        if case["via"] == "method":
            x.save(name, globalize=case["globalize"])
        else:
            check(util.save_object(x, name, globalize=case["globalize"]) == name, "name of the file saved")
        check(os.path.exists(name + ".p"), "file is where asked", files=os.listdir("."))
        now = contents(x)
        if not case["globalize"]:
            check(diff(before, now) is None, "saving leaves the object alone", field=diff(before, now))
        else:
            check(diff(contents(gathered), now) is None, "saving gathers the local arrays, nothing else", field=diff(contents(gathered), now))
        y = util.load_object(name, localize=case["localize"])
        check(y is not x and type(y) is type(x), "type of the object loaded")
        if not case["localize"] or case["name"] == "proc_odd":
            check(diff(now, contents(y)) is None, "contents after loading", field=diff(now, contents(y)))
            check(truth(x == y, "saved == loaded") and truth(y == x, "loaded == saved"), "the loaded object equals the saved one")
            check(not truth(x != y, "saved != loaded"), "the loaded object does not differ")
        else:
            x.global_to_local()
            check(diff(contents(x), contents(y)) is None, "contents after loading and localizing", field=diff(contents(x), contents(y)))
            check(truth(x == y, "saved == loaded"), "the localized loaded object equals the localized original")
        # answers
        a, b = (x, y) if isinstance(x, samp.sample_set_base) else (x.get_input_sample_set(), y.get_input_sample_set())
        q = np.random.RandomState(3).random_sample((6, a.get_dim())) * 2
        (d1, p1), (d2, p2) = a.query(q), b.query(q)
        same(d2, d1, "distances from the loaded set")
        same(p2, p1, "cells from the loaded set")
        if a.get_prob_type() is not None and a.get_prob_parameters() is not None:
            same(b.pdf(q), a.pdf(q), "density from the loaded set")
        t.nontrivial(len([k for k in ("attrs", "meta") if case["obj"].get(k)]) > 0 or bool(case["obj"].get("disc")))
        t.label("disc" if case["obj"].get("disc") else case["obj"]["kind"])
    finally:
        os.chdir(home)
        shutil.rmtree(os.path.join(home, tmp), ignore_errors=True)


# ------------------------------------------------------------------ equality
SETFIELDS = ["values"] + ARR + ["domain", "reference_value", "p_norm", "label", "labels", "prob_type", "prob_parameters",
                                "prob_type_init", "prob_parameters_init", "weights", "weights_init", "cluster_maps", "radii"] + LOCAL


@st.composite
def eq_cases(draw):
    obj = draw(st.one_of(set_descs(), set_descs(), disc_descs()))
    return dict(obj=obj, where=draw(st.sampled_from(["input", "output", "prob", "em_in", "em_out", "obs", "ptr"])),
                field=draw(st.sampled_from(SETFIELDS)), how=draw(st.sampled_from(["entry", "drop", "shape", "entry"])), pick=draw(st.integers(0, 99)))


def change(v, how, pick):
    """A different value of the same kind, or None."""
    import scipy.stats
    if how == "drop" or v is None:
        return None
    if isinstance(v, np.ndarray):
        if how == "shape":
            return np.concatenate([v, v[:1]]) if pick % 2 else v[..., None]
        w = v.copy()
        i = [k for k in np.ndindex(*w.shape) if np.isfinite(w[k])]
        i = i[pick % len(i)]
        w[i] = w[i] + (1 if w.dtype.kind in "iu" else 2.0 ** -20)
        return w
    if isinstance(v, str):
        return v + "'"
    if isinstance(v, float):
        return v + 0.5
    if isinstance(v, list):
        i = pick % len(v)
        return v[:i] + [change(v[i], "entry", pick)] + v[i + 1:] if how == "entry" else v + v[:1]
    if isinstance(v, tuple):
        idx = [i for i in range(len(v)) if v[i] is not None]
        i = idx[pick % len(idx)]
        return v[:i] + (change(v[i], "entry", pick),) + v[i + 1:] if how == "entry" else v + v[:1]
    if isinstance(v, dict):
        k = sorted(v)[pick % len(v)]
        return dict(v, **{k: change(v[k], "entry", pick)})
    if isinstance(v, scipy.stats.gaussian_kde):
        d = v.dataset.copy()
        d.flat[pick % d.size] += 2.0 ** -10
        return scipy.stats.gaussian_kde(d)
    raise RuntimeError("no change for %r" % (v,))


def equality(case, t):
    import bet.sample as samp
    x, y = build_any(case["obj"]), build_any(case["obj"])
    check(truth(x == y, "twin") and truth(y == x, "twin"), "two objects with the same contents are equal")
    check(not truth(x != y, "twin"), "two objects with the same contents do not differ")
    check(truth(x == x, "self"), "an object equals itself")
    z = y.copy()
    check(truth(y == z, "copy") and truth(z == y, "copy"), "a copy is equal")
    target, owner = y, None
    if isinstance(y, samp.discretization):
        if case["where"] == "ptr":
            name = ["_io_ptr", "_emulated_ii_ptr", "_emulated_oo_ptr"][case["pick"] % 3] + ("_local" if case["pick"] % 2 else "")
            old = getattr(y, name)
            new = np.array([1, 2, 3]) if old is None else change(np.asarray(old), case["how"], case["pick"])
            setattr(y, name, new)
            check(not truth(x == y, "pointer changed") and not truth(y == x, "pointer changed"),
                  "discretizations with different %s are different" % name)
            t.nontrivial()
            t.label("pointer")
            return
        attr = dict(input="_input_sample_set", output="_output_sample_set", prob="_output_probability_set", em_in="_emulated_input_sample_set",
                    em_out="_emulated_output_sample_set", obs="_output_observed_set")[case["where"]]
        target = getattr(y, attr)
        if target is None or (case["how"] == "drop" and case["pick"] % 4 == 0):
            if target is None:
                setattr(y, attr, gen.plain_set([[0.5]], 1))
            else:
                setattr(y, attr, None)
            check(not truth(x == y, "set changed") and not truth(y == x, "set changed"), "discretizations that differ in having a set differ", attr=attr)
            t.nontrivial()
            t.label("set present or not")
            return
    f = case["field"]
    name = "_normalized_radii" if f == "radii" else "_" + f
    old = getattr(target, name)
    if old is None:
        # present in one, absent in the other
        add = dict(p_norm=3.0, label="a", labels=["a"], prob_type="rv", prob_parameters=[["norm", {}]], prob_type_init="rv",
                   prob_parameters_init=[["norm", {}]], cluster_maps=[np.zeros(2)])
        new = add.get(f, np.array([0.5, 0.25]))
    else:
        new = change(old, case["how"], case["pick"])
    setattr(target, name, new)
    check(diff(contents(x), contents(y)) is not None, "harness: the change is visible")
    check(not truth(x == y, f) and not truth(y == x, f), "objects that differ in %s (%s) are different" % (f, case["how"]), old=old, new=new)
    check(truth(x != y, f), "objects that differ in %s compare as different" % f)
    setattr(target, name, old)
    check(truth(x == y, f), "undoing the difference makes them equal again", field=f)
    t.nontrivial()
    t.label("absent" if old is None else case["how"], f)


PROP = Prop("C09", "save, load, equality", [
    Sub("roundtrip", file_cases(), roundtrip, quick=1200, thorough=30000, rule="non-trivial: a discretization, or a set with further attributes"),
    Sub("equality", eq_cases(), equality, quick=2500, thorough=80000, rule="non-trivial: exactly one difference was introduced and undone"),
], assumptions=["one process; files are written in a scratch directory"])
