"""C11: selecting, clipping, merging and copying discretizations keeps input-output pairs."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o

INP = ["volumes", "probabilities", "jacobians", "error_estimates", "region", "error_id"]
WTS = ["weights", "weights_init"]


@st.composite
def descs(draw, di, do, n):
    return dict(n=n, seed=draw(st.integers(0, 10 ** 6)), inp=draw(st.lists(st.sampled_from(INP + WTS), unique=True)),
                out=draw(st.lists(st.sampled_from(["error_estimates", "region", "probabilities", "volumes"]), unique=True)),
                domain=draw(st.booleans()), ref=draw(st.booleans()), local=draw(st.sampled_from(["no", "no", "all", "input"])),
                prob=draw(st.booleans()), em_in=draw(st.booleans()), em_out=draw(st.booleans()), obs=draw(st.booleans()),
                p=draw(st.sampled_from(gen.PNORMS)), po=draw(st.sampled_from(gen.PNORMS)), ptr=draw(st.booleans()))


def build(d, di, do):
    """Inputs are distinct; the output of an input is a function of it, so a broken pair shows."""
    import bet.sample as samp
    rs = np.random.RandomState(d["seed"])
    n = d["n"]
    A = np.random.RandomState(77).randint(1, 9, (di, do)).astype(float)
    x = rs.permutation(64 * n * di)[:n * di].reshape(n, di) / 64.0
    s = gen.plain_set(x, di, d["p"])
    y = gen.plain_set(np.dot(x, A) + 1.0, do, d.get("po", 2.0))

    def arr(a, m, dim):
        if a == "jacobians":
            return rs.permutation(m * do * dim).reshape(m, do, dim) / 4.0
        if a == "error_estimates":
            return rs.permutation(m * dim).reshape(m, dim) / 4.0
        if a in ("region", "error_id"):
            return rs.permutation(m)
        return rs.permutation(m) / 8.0
    for a in d["inp"]:
        getattr(s, "set_" + a)(arr(a, n, di))
    for a in d["out"]:
        getattr(y, "set_" + a)(arr(a, n, do))
    if d["domain"]:
        s.set_domain(np.array([[-1.0 - i, 4096.0 + i] for i in range(di)]))
        y.set_domain(np.array([[-2.0 - i, 9999.0 + i] for i in range(do)]))
    if d["ref"]:
        s.set_reference_value(np.arange(di) + 0.25)
        y.set_reference_value(np.arange(do) + 0.5)
    if d["local"] != "no":
        s.global_to_local()
    if d["local"] == "all":
        y.global_to_local()
    kw = {}
    if d["prob"]:
        kw["output_probability_set"] = gen.plain_set(rs.random_sample((3, do)) * 9, do)
        kw["output_probability_set"].set_probabilities(np.array([0.25, 0.25, 0.5]))
    if d["em_in"]:
        kw["emulated_input_sample_set"] = gen.plain_set(rs.random_sample((4, di)), di)
    if d["em_out"]:
        kw["emulated_output_sample_set"] = gen.plain_set(rs.random_sample((5, do)), do)
    if d["obs"]:
        kw["output_observed_set"] = gen.plain_set(rs.random_sample((2, do)), do)
    disc = samp.discretization(s, y, **kw)
    if d["ptr"] and d["prob"]:
        disc.set_io_ptr()
    return disc


def snapshot(d):
    out = {}
    for name in ("input_sample_set", "output_sample_set", "output_probability_set", "emulated_input_sample_set",
                 "emulated_output_sample_set", "output_observed_set"):
        s = getattr(d, "get_" + name)()
        if s is None:
            out[name] = None
            continue
        out[name] = {a: (None if getattr(s, "get_" + a)() is None else np.array(getattr(s, "get_" + a)()))
                     for a in ["values"] + INP + WTS + ["domain", "reference_value", "p_norm"]}
    out["io_ptr"] = None if d.get_io_ptr() is None else np.array(d.get_io_ptr())
    return out


def unchanged(d, snap, what):
    now = snapshot(d)
    for k in snap:
        a, b = snap[k], now[k]
        if not isinstance(a, dict):
            check((a is None) == (b is None) and (a is None or np.array_equal(a, b)), what + ": original unchanged", field=k)
            continue
        check(b is not None, what + ": original keeps its sets", field=k)
        for f in a:
            check((a[f] is None) == (b[f] is None) and (a[f] is None or np.array_equal(a[f], b[f])), what + ": original unchanged",
                  field=k + "." + f, was=a[f], now=b[f])


@st.composite
def cases(draw):
    di, do = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    n = draw(sizes(1, 8, big=300))
    d = draw(descs(di, do, n))
    op = draw(st.sampled_from(["clip", "merge", "choose", "choose", "copy"]))
    c = dict(di=di, do=do, d=d, op=op)
    if op == "clip":
        c["k"] = draw(st.integers(1, n + 2))
    elif op == "merge":
        c["other"] = draw(descs(di, do, draw(sizes(1, 6, big=300))))
    elif op == "choose":
        c["inputs"] = draw(st.none() | st.lists(st.integers(0, di - 1), min_size=1, unique=True))
        c["outputs"] = draw(st.none() | st.lists(st.integers(0, do - 1), min_size=1, unique=True))
    return c


def get(s, a):
    return getattr(s, "get_" + a)()


def rows(s, src, sl, what, names):
    for a in names:
        if get(src, a) is None:
            check(get(s, a) is None, "%s: no %s" % (what, a))
        else:
            same(get(s, a), np.asarray(get(src, a))[sl], "%s: %s" % (what, a))


def ops(case, t):
    import bet.sample as samp
    di, do, d = case["di"], case["do"], case["d"]
    disc = build(d, di, do)
    inp, out = disc.get_input_sample_set(), disc.get_output_sample_set()
    snap = snapshot(disc)
    X, Y = np.array(inp.get_values()), np.array(out.get_values())
    n = len(X)
    if case["op"] == "copy":
        c = disc.copy()
        check(c == disc, "a copy is equal")
        unchanged(c, snap, "copy")
        ci = c.get_input_sample_set()
        check(ci is not inp and c.get_output_sample_set() is not out, "a copy has its own sets")
        # edit every array of the copy in place
        for name in ("input_sample_set", "output_sample_set", "output_probability_set", "emulated_input_sample_set",
                     "emulated_output_sample_set", "output_observed_set"):
            s = getattr(c, "get_" + name)()
            if s is None:
                continue
            for a in ["values"] + INP + WTS + ["domain", "reference_value"]:
                v = getattr(s, "get_" + a)()
                if v is not None:
                    v += 1
        unchanged(disc, snap, "copy edited")
        t.nontrivial(n > 1)
    elif case["op"] == "clip":
        c = disc.clip(case["k"])
        k = min(case["k"], n)
        ci, co = c.get_input_sample_set(), c.get_output_sample_set()
        check(c.check_nums() == k and ci.check_num() == k and co.check_num() == k, "clipped to the first samples", got=c.check_nums(), want=k)
        rows(ci, inp, slice(0, k), "clipped input", ["values"] + INP + WTS)
        rows(co, out, slice(0, k), "clipped output", ["values", "error_estimates", "region", "probabilities", "volumes"])
        if ci.get_values_local() is not None:
            same(whole(ci.get_values_local()), X[:k], "clipped local values")
        for s, src in ((ci, inp), (co, out)):
            for a in ("domain", "reference_value", "p_norm"):
                check(np.array_equal(get(s, a), get(src, a)), "clip keeps the %s" % a)
        for f in ("output_probability_set", "emulated_input_sample_set", "emulated_output_sample_set", "output_observed_set"):
            check(getattr(c, "get_" + f)() == getattr(disc, "get_" + f)(), "clip keeps the " + f)
        q = np.random.RandomState(5).random_sample((7, di)) * 64 * n * di / 64.0
        own, clear = o.nearest(q, X[:k], gen.pn(d["p"]))
        if clear:
            same(np.ravel(ci.query(q)[1]), own, "nearest samples of the clipped input")
        if c.get_io_ptr() is not None:
            same(np.ravel(c.get_io_ptr()), o.nearest(Y[:k], disc.get_output_probability_set().get_values(), 2.0)[0], "pointers of the clipped outputs")
        unchanged(disc, snap, "clip")
        t.nontrivial(1 < k < n)
    elif case["op"] == "merge":
        if several():
            return     # the order of merged samples depends on the number of processes
        other = build(case["other"], di, do)
        osnap = snapshot(other)
        m = disc.merge(other)
        X2, Y2 = np.array(other.get_input_sample_set().get_values()), np.array(other.get_output_sample_set().get_values())
        mi, mo = m.get_input_sample_set(), m.get_output_sample_set()
        same(mi.get_values(), np.concatenate([X, X2]), "inputs of both, in order")
        same(mo.get_values(), np.concatenate([Y, Y2]), "outputs of both, in order")
        check(m.check_nums() == n + len(X2), "number of merged samples")
        check(mi.get_p_norm() == inp.get_p_norm() and mo.get_p_norm() == out.get_p_norm(), "p-norms are kept")
        if d["domain"] or case["other"]["domain"]:
            src = disc if d["domain"] else other
            same(mi.get_domain(), src.get_input_sample_set().get_domain(), "input domain")
            same(mo.get_domain(), src.get_output_sample_set().get_domain(), "output domain")
        for key, f in (("em_in", "emulated_input_sample_set"), ("em_out", "emulated_output_sample_set")):
            a, b = getattr(disc, "get_" + f)(), getattr(other, "get_" + f)()
            have = [np.asarray(s.get_values()) for s in (a, b) if s is not None]
            got = getattr(m, "get_" + f)()
            check((got is None) == (not have), "emulated set present in one of the two is kept", field=f)
            if have:
                same(got.get_values(), np.concatenate(have), "emulated samples of both")
        if d["prob"]:
            check(m.get_output_probability_set() == disc.get_output_probability_set(), "output measure is kept")
        unchanged(disc, snap, "merge")
        unchanged(other, osnap, "merge (other)")
        t.nontrivial(n > 1)
    else:
        ii = list(range(di)) if case["inputs"] is None else case["inputs"]
        oo = list(range(do)) if case["outputs"] is None else case["outputs"]
        kw = {k: case[k] for k in ("inputs", "outputs") if case[k] is not None}
        c = disc.choose_inputs_outputs(**kw)
        ci, co = c.get_input_sample_set(), c.get_output_sample_set()
        check(ci.get_dim() == len(ii) and co.get_dim() == len(oo), "dimensions chosen")
        same(ci.get_values(), X[:, ii], "chosen inputs, in the order asked for")
        same(co.get_values(), Y[:, oo], "chosen outputs, in the order asked for")
        for s, src, idx in ((ci, inp, ii), (co, out, oo)):
            check(s.get_p_norm() == src.get_p_norm(), "p-norm is kept")
            for a in ("domain", "reference_value"):
                if get(src, a) is None:
                    check(get(s, a) is None, "no %s" % a)
                else:
                    same(get(s, a), np.asarray(get(src, a))[idx], "%s of the chosen coordinates" % a)
            if get(src, "error_estimates") is not None:
                same(get(s, "error_estimates"), np.asarray(get(src, "error_estimates"))[:, idx], "error estimates of the chosen coordinates")
            else:
                check(get(s, "error_estimates") is None, "no error estimates")
            if get(src, "values_local") is not None:
                same(get(s, "values_local"), np.asarray(get(src, "values_local"))[:, idx], "local values of the chosen coordinates")
            if get(src, "error_estimates_local") is not None:
                same(get(s, "error_estimates_local"), np.asarray(get(src, "error_estimates_local"))[:, idx], "local error estimates of the chosen coordinates")
        if inp.get_jacobians() is not None:
            J = np.asarray(inp.get_jacobians())
            want = np.array([[[J[r, a, b] for b in ii] for a in oo] for r in range(n)])
            same(ci.get_jacobians(), want, "derivatives of the chosen outputs with respect to the chosen inputs")
        else:
            check(ci.get_jacobians() is None, "no derivatives")
        check(c.check_nums() == n, "all samples are kept")
        v = ci.get_values()
        v += 1.0
        unchanged(disc, snap, "selection edited")
        t.nontrivial(len(ii) < di or len(oo) < do or ii != sorted(ii) or oo != sorted(oo))
    t.label(case["op"])


PROP = Prop("C11", "discretization edits keep pairs", [
    Sub("ops", cases(), ops, quick=3000, thorough=100000,
        rule="non-trivial: a proper clip, a selection that drops or reorders coordinates, or a merge or copy of several samples"),
])
