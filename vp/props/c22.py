"""C22: piecewise constant and linear surrogates, and probabilities of regions computed with them."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o
from vp.props.c21 import region_sets, build_regions, in_region, model_region


@st.composite
def training(draw, need_err=False):
    dim, odim = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    n = draw(sizes(1, 8, big=300))
    A = np.array([[draw(st.integers(-8, 8)) / 4.0 for _ in range(dim)] for _ in range(odim)])
    b = np.array([draw(st.integers(-8, 8)) / 4.0 for _ in range(odim)])
    x = draw(points(n, dim))
    kind = draw(st.sampled_from(["affine", "arbitrary", "arbitrary"]))
    rs = np.random.RandomState(draw(SEED))
    if kind == "affine":
        y, J = np.array(x) @ A.T + b, np.repeat(A[None], n, axis=0)
    else:
        y, J = rs.random_sample((n, odim)), rs.randn(n, odim, dim)
    err = (0.3 * (rs.random_sample((n, odim)) - 0.5)).tolist() if need_err or draw(st.booleans()) else None
    return dict(kind=kind, x=x, y=y.tolist(), J=J.tolist() if draw(st.integers(0, 4)) else None, A=A.tolist(), b=b.tolist(),
                err=err, p=draw(st.sampled_from(gen.PNORMS)), domain=draw(st.booleans()),
                local=draw(st.booleans()))


def build(c):
    import bet.sample as samp
    x, y = np.array(c["x"]), np.array(c["y"])
    s = gen.plain_set(x, x.shape[1], c["p"])
    if c["domain"]:
        s.set_domain(np.array([[-0.5, 1.5]] * x.shape[1]))
    if c["J"] is not None:
        s.set_jacobians(np.array(c["J"]))
    out = gen.plain_set(y, y.shape[1])
    if c["err"] is not None:
        out.set_error_estimates(np.array(c["err"]))
    d = samp.discretization(s, out)
    if c["local"]:
        s.global_to_local()
        out.global_to_local()
        s._values = None
        s._jacobians = None
        out._values = None
        out._error_estimates = None
    return d


@st.composite
def evaluations(draw):
    c = draw(training())
    dim = len(c["x"][0])
    ev = []
    for _ in range(draw(st.integers(1, 3))):
        q = draw(points(draw(sizes(1, 10)), dim, lo=-0.5, hi=1.5, distinct=False))
        ev.append(dict(q=q, order=draw(st.integers(0, 1)), own=draw(st.booleans()), p=draw(st.sampled_from([None, None, 1.0, 2.0]))))
    return dict(t=c, ev=ev)


def surrogate_values(c, q, order):
    idx, clear = o.nearest(q, c["x"], gen.pn(c["p"]))
    y = np.array(c["y"])[idx]
    if order == 1:
        y = y + np.array([np.array(c["J"][i]) @ (np.array(z) - np.array(c["x"][i])) for i, z in zip(idx, q)])
    return y, idx, clear


def generate(case, t):
    import bet.surrogates as sur, bet.sample as samp, bet.calculateP.calculateError as ce
    c = case["t"]
    dim = len(c["x"][0])
    disc = build(c)
    s = sur.piecewise_polynomial_surrogate(disc)
    for e in case["ev"]:
        q = gen.plain_set(e["q"], dim)
        q._p_norm = None if e["p"] is None else e["p"]
        if e["own"]:
            q.set_domain(np.array([[-3.0, 3.0]] * dim))
        if e["order"] == 1 and c["J"] is None:
            raises(ce.wrong_argument_type, lambda: s.generate_for_input_set(q, 1), "linear surrogate without jacobians")
            t.label("no jacobians")
            continue
        want, idx, clear = surrogate_values(c, e["q"], e["order"])
        if not clear:
            t.label("ambiguous")
            continue
        got = s.generate_for_input_set(q, e["order"]) if e["order"] else s.generate_for_input_set(q)
        check(got.get_input_sample_set() is q, "the surrogate is over the given input set")
        out = got.get_output_sample_set()
        check(out.get_dim() == len(c["y"][0]), "output dimension")
        out.local_to_global()
        close(out.get_values(), want, "surrogate outputs, order %d" % e["order"])
        if e["order"] == 1 and c["kind"] == "affine":
            close(out.get_values(), np.array(e["q"]) @ np.array(c["A"]).T + np.array(c["b"]), "a linear surrogate reproduces an affine map",
                  rtol=1e-8, atol=1e-9)
        if c["err"] is not None:
            close(out.get_error_estimates(), np.array(c["err"])[idx], "error estimates carried from the nearest sample")
        else:
            check(out.get_error_estimates() is None, "no error estimates invented")
        if e["own"]:
            same(q.get_domain(), [[-3.0, 3.0]] * dim, "the domain given is kept")
        elif c["domain"]:
            same(q.get_domain(), [[-0.5, 1.5]] * dim, "the domain is taken from the training set")
        check(q.get_p_norm() == (gen.pn(c["p"]) if e["p"] is None else e["p"]), "p-norm of the set", got=q.get_p_norm())
        same(q.get_values(), np.array(e["q"]), "evaluation points unchanged")
        t.nontrivial(len(set(idx.tolist())) > 1)
        t.label("order %d" % e["order"])
    same(disc.get_input_sample_set().get_values(), np.array(c["x"]), "training inputs unchanged")
    same(disc.get_output_sample_set().get_values(), np.array(c["y"]), "training outputs unchanged")
    for f in ("get_emulated_input_sample_set", "get_emulated_output_sample_set", "get_output_probability_set", "get_emulated_ii_ptr", "get_io_ptr"):
        check(getattr(disc, f)() is None, "the training discretization gains nothing", getter=f)
    bad = samp.sample_set(dim + 1)
    bad.set_values(np.zeros((2, dim + 1)))
    raises(samp.dim_not_matching, lambda: s.generate_for_input_set(bad, 0), "input set of another dimension")
    raises(ce.wrong_argument_type, lambda: s.generate_for_input_set(gen.plain_set(c["x"], dim), 2), "order 2")
    raises(ce.wrong_argument_type, lambda: sur.piecewise_polynomial_surrogate(disc.get_input_sample_set()), "not a discretization")


# ------------------------------------------------------------ region probabilities
@st.composite
def region_cases(draw):
    c = draw(training(need_err=True))
    dim, odim = len(c["x"][0]), len(c["y"][0])
    n = draw(sizes(1, 14))
    q = draw(points(n, dim, distinct=False))
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        r = draw(region_sets(dim))
        regions = draw(st.lists(st.sampled_from(sorted(set(r["regions"]))), min_size=1, max_size=3, unique=True))
        runs.append(dict(m=draw(gen.measure_cells(odim, max_cells=3, kinds=("voronoi", "voronoi", "rectangle"))), r=r,
                         regions=regions, update=draw(st.booleans()), again=draw(st.booleans())))
    return dict(t=c, q=q, order=draw(st.integers(0, 1)), runs=runs, vol=draw(st.one_of(st.none(), weights(n, positive=True))), earlier=draw(st.booleans()))


def region(case, t):
    import bet.surrogates as sur, bet.calculateP.calculateError as ce
    c = case["t"]
    dim = len(c["x"][0])
    order = case["order"] if c["J"] is not None else 0
    disc = build(c)
    s = sur.piecewise_polynomial_surrogate(disc)
    raises(ce.wrong_argument_type, lambda: s.calculate_prob_for_sample_set_region(gen.plain_set(c["x"], dim), [0]),
           "region before a surrogate was made")
    y, idx, clear = surrogate_values(c, case["q"], order)
    y2 = y + np.array(c["err"])[idx]
    if not clear:
        t.label("ambiguous")
        return
    qs = gen.plain_set(case["q"], dim)
    share = np.ones(len(y))
    if case["vol"] is not None:
        share = normalized(case["vol"])
        qs.set_volumes(share)
    if case.get("earlier"):
        # probabilities of an earlier calculation are replaced
        qs.set_probabilities(np.full(len(y), 1.0 / len(y)))
    for k, run in enumerate(case["runs"]):
        e1, a = gen.measure_owner(run["m"], y)
        e2, b = gen.measure_owner(run["m"], y2)
        p = gen.measure_mass(run["m"])
        if not (a and b):
            t.label("ambiguous")
            return
        disc.set_output_probability_set(gen.build_measure(run["m"]))
        if k == 0 or case["vol"] is None:
            qs = qs.copy()
        s.generate_for_input_set(qs, order)
        pr = o.split_mass(e1, share, p)
        want_p, want_e, cont = [], [], None
        for reg in run["regions"]:
            in_A, cl = in_region(run["r"], case["q"], reg)
            if not cl:
                t.label("ambiguous")
                return
            want_p.append(pr[in_A].sum())
            est, cont = model_region(p, e1, e2, in_A)
            want_e.append(est)
        before = disc.get_input_sample_set().get_probabilities()
        before = None if before is None else before.copy()
        got_p, got_e = s.calculate_prob_for_sample_set_region(build_regions(run["r"], dim), run["regions"], **({} if run["update"] else dict(update_input=False)))
        close(got_p, want_p, "probabilities of the regions")
        close(got_e, want_e, "error estimates of the regions")
        if run["again"]:
            again = s.calculate_prob_for_sample_set_region(build_regions(run["r"], dim), run["regions"], **({} if run["update"] else dict(update_input=False)))
            close(again[0], want_p, "probabilities of the regions, asked again")
            close(again[1], want_e, "error estimates of the regions, asked again")
        inp = disc.get_input_sample_set()
        if run["update"]:
            n = len(c["x"])
            close(inp.get_probabilities(), [pr[idx == i].sum() for i in range(n)], "probabilities of the training cells")
            if len(run["regions"]) == 1:
                eid = np.zeros(len(y))
                for e, v in enumerate(cont):
                    moved = (e1 == e) != (e2 == e)
                    if p[e] > 0 and moved.any():
                        eid[moved] += v / moved.sum()
                close(inp.get_error_id(), [eid[idx == i].sum() for i in range(n)], "error attributed to the training cells",
                      nan_equal=True)
                t.label("attributed")
        elif before is None:
            check(inp.get_probabilities() is None, "training probabilities untouched")
        else:
            same(inp.get_probabilities(), before, "training probabilities untouched")
        t.nontrivial(sum(want_p) > 0 and len(set(e1.tolist())) > 1)
        t.label("run %d" % k)


PROP = Prop("C22", "piecewise surrogates", [
    Sub("generate", evaluations(), generate, quick=1200, thorough=50000,
        rule="non-trivial: the evaluation points fall in several cells of the training set"),
    Sub("region", region_cases(), region, quick=1200, thorough=50000,
        rule="non-trivial: positive probability, several output events"),
], assumptions=["ties in nearest-sample decisions (1e-9) are skipped", "Voronoi training sets",
                "error attribution is compared when a single region is asked for"])
