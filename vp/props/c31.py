"""C31: requests that cannot be answered are refused, and a refused request changes nothing."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o

JUNK = st.sampled_from([7, "a string", [1.0, 2.0], None, {"a": 1}, 2.5])


@st.composite
def cases(draw, names):
    dim = draw(st.integers(1, 3))
    return dict(what=draw(st.sampled_from(names)), dim=dim, other=draw(st.sampled_from([d for d in (1, 2, 3, 4) if d != dim])),
                n=draw(sizes(2, 9)), m=draw(sizes(1, 6)), seed=draw(SEED), junk=draw(JUNK), local=draw(st.booleans()), disc=draw(st.booleans()),
                size=draw(st.sampled_from([0.0, -1.0, -0.25])), form=draw(st.sampled_from(["scalar", "list", "array"])),
                at=draw(st.integers(0, 2)), p=draw(st.sampled_from([1.0, 3.0, "inf"])), k=draw(st.integers(1, 3)))


def contents(s):
    """Everything stored in a sample set or discretization, arrays copied; caches left out."""
    import bet.sample as samp
    if isinstance(s, np.ndarray):
        return s.copy()
    out = {}
    for k, v in vars(s).items():
        if "kdtree" in k or "local" in k or k == "_bounding_box":
            continue
        if isinstance(v, (samp.sample_set_base, samp.discretization)):
            out[k] = contents(v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a is b or a == b


def refuse(exc, fn, what, *sets):
    before = [contents(s) for s in sets]
    raises(exc, fn, what)
    for s, b in zip(sets, before):
        now = contents(s)
        if isinstance(b, dict):
            diff = [k for k in b if not equal(b[k], now.get(k))]
            check(not diff, "a refused request changes nothing: " + what, changed=diff)
        else:
            check(equal(b, now), "a refused request changes nothing: " + what)


def world(c, dim=None, dout=2, prob=True):
    """A complete discretization."""
    import bet.sample as samp
    rs = np.random.RandomState(c["seed"])
    dim = c["dim"] if dim is None else dim
    n = c["n"]
    inp = gen.plain_set(rs.random_sample((n, dim)), dim, 2.0, [[0, 1]] * dim)
    out = gen.plain_set(rs.random_sample((n, dout)), dout, 2.0, [[0, 1]] * dout)
    inp.estimate_volume_mc()
    if prob:
        inp.set_probabilities(np.ones(n) / n)
    m = gen.plain_set(rs.random_sample((c["m"], dout)), dout)
    m.set_probabilities(np.ones(c["m"]) / c["m"])
    if c["local"]:
        inp.global_to_local()
        out.global_to_local()
    return samp.discretization(inp, out, output_probability_set=m)


def holder(c, dim=None, prob=True):
    """A sample set, alone or as the input of a discretization."""
    d = world(c, dim, prob=prob)
    return d if c["disc"] else d.get_input_sample_set()


# ------------------------------------------------------------------ sample sets and discretizations
def sets(c, t):
    import bet.sample as samp
    dim, w, n = c["dim"], c["other"], c["n"]
    rs = np.random.RandomState(c["seed"])
    d = world(c)
    s = d.get_input_sample_set()
    k = c["what"]
    wrong = rs.random_sample((w + n + 5, w))
    if k == "values":
        refuse(samp.dim_not_matching, lambda: s.set_values(wrong), "values of another dimension")
    elif k == "domain":
        refuse(samp.dim_not_matching, lambda: s.set_domain(np.array([[0.0, 1.0]] * w)), "domain of another dimension", s)
    elif k == "reference":
        refuse(samp.dim_not_matching, lambda: s.set_reference_value(np.zeros(w)), "reference value of another dimension", s)
    elif k == "lengths":
        s.set_volumes(np.ones(n + 1))
        refuse(samp.length_not_matching, s.check_num, "volumes of another length", s)
        refuse(samp.length_not_matching, d.check_nums, "volumes of another length", d)
    elif k == "lengths_local":
        s.global_to_local()
        s.set_error_estimates_local(np.ones((n + c["k"], dim)))
        refuse(samp.length_not_matching, s.check_num_local, "local error estimates of another length", s)
    elif k == "stray_values":
        s._values = wrong[:n]
        refuse(samp.dim_not_matching, s.check_num, "values of another dimension")
        refuse(samp.dim_not_matching, s.check_num_local, "values of another dimension")
    elif k == "merge_dim":
        refuse(samp.dim_not_matching, lambda: s.merge(gen.plain_set(wrong, w)), "merging sets of different dimension", s)
    elif k == "merge_domain":
        b = gen.plain_set(rs.random_sample((2, dim)), dim, 2.0, [[0.0, 2.0]] * dim)
        refuse(samp.domain_not_matching, lambda: s.merge(b), "merging sets of different domains", s, b)
        near = np.array([[0.0, 1.0]] * dim)
        near[c["k"] % dim, c["k"] % 2] += 0.02
        s.set_domain(np.array([[0.0, 1.0]] * dim))
        b.set_domain(near)
        refuse(samp.domain_not_matching, lambda: s.merge(b), "merging sets of slightly different domains", s, b)
    elif k == "exact":
        s4 = gen.plain_set(rs.random_sample((n, dim)), dim, 2.0, [[0, 1]] * dim)
        if dim != 1:
            refuse(samp.dim_not_matching, s4.exact_volume_1D, "one-dimensional volumes of a set of another dimension", s4)
        if dim != 2:
            refuse(samp.dim_not_matching, s4.exact_volume_2D, "two-dimensional volumes of a set of another dimension", s4)
    elif k == "equality":
        other = [c["junk"], samp.rectangle_sample_set(dim), d][c["at"]]
        refuse(TypeError, lambda: s == other, "comparison with an object of another class", s)
        refuse(TypeError, lambda: d == [c["junk"], s, s][c["at"]], "comparison with an object of another class", d)
    elif k == "emulated_volume":
        refuse(AttributeError, d.estimate_input_volume_emulated, "volumes from emulated points that are missing", d)
        refuse(AttributeError, d.estimate_output_volume_emulated, "volumes from emulated points that are missing", d)
    elif k == "types":
        bad = [c["junk"], np.zeros((n, dim)), d][c["at"]]
        for f in ("input_sample_set", "output_sample_set", "output_probability_set", "emulated_input_sample_set",
                  "emulated_output_sample_set", "output_observed_set"):
            if bad is None and f != "input_sample_set":
                continue
            if hasattr(d, "set_" + f):
                refuse(AttributeError, lambda: getattr(d, "set_" + f)(bad), f + " of another type", d)
    elif k == "dims":
        for f, dd in (("output_probability_set", 2), ("emulated_input_sample_set", dim), ("emulated_output_sample_set", 2)):
            b = gen.plain_set(rs.random_sample((3, dd + c["k"])), dd + c["k"])
            refuse(samp.dim_not_matching, lambda: getattr(d, "set_" + f)(b), f + " of another dimension", d, b)
    elif k == "pairs":
        b = gen.plain_set(rs.random_sample((n + c["k"], 2)), 2)
        refuse(samp.length_not_matching, lambda: samp.discretization(s, b), "outputs of another number", s, b)
    elif k == "pdf":
        s.set_prob_type("unknown law")
        s.set_prob_type_init("unknown law")
        x = rs.random_sample((3, dim))
        refuse(samp.wrong_input, lambda: s.pdf(x), "density of an unknown kind", s)
        refuse(samp.wrong_input, lambda: s.pdf_init(x), "density of an unknown kind", s)
        refuse(samp.wrong_input, lambda: s.marginal_pdf(x, dim - 1), "marginal of an unknown kind", s)
        refuse(samp.wrong_input, lambda: s.marginal_pdf_init(x, 0), "marginal of an unknown kind", s)
    elif k == "pdf_voronoi":
        x = rs.random_sample((3, dim))
        b = gen.plain_set(s.get_values(), dim, 2.0, [[0, 1]] * dim)
        b.set_prob_type("voronoi")
        b.set_prob_type_init("voronoi")
        refuse(samp.wrong_input, lambda: b.pdf(x), "density without probabilities", b)
        refuse(samp.wrong_input, lambda: b.marginal_pdf(x, 0), "marginal without probabilities", b)
        refuse(samp.wrong_input, lambda: b.pdf_init(x), "cell-wise initial density", b)
        refuse(samp.wrong_input, lambda: b.marginal_pdf_init(x, 0), "cell-wise initial marginal", b)
    elif k == "pdf_dim":
        s.set_prob_type("rv")
        s.set_prob_parameters([["norm", {}]] * dim)
        s.set_prob_type_init("rv")
        s.set_prob_parameters_init([["norm", {}]] * dim)
        refuse(samp.dim_not_matching, lambda: s.pdf(wrong), "points of another dimension", s)
        refuse(samp.dim_not_matching, lambda: s.pdf_init(wrong), "points of another dimension", s)
    elif k == "rectangles":
        lo, hi = rs.random_sample((c["m"], dim)), 1 + rs.random_sample((c["m"], dim))
        refuse(samp.length_not_matching, lambda: samp.rectangle_sample_set(dim).setup(hi, lo[:-1]), "fewer lower than upper corners")
        refuse(samp.length_not_matching, lambda: samp.rectangle_sample_set(w).setup(hi, lo), "corners of another dimension")
        refuse(samp.length_not_matching, lambda: samp.ball_sample_set(dim).setup(lo, np.ones(c["m"] + 1)), "more radii than centres")
        refuse(samp.length_not_matching, lambda: samp.ball_sample_set(w).setup(lo, np.ones(c["m"])), "centres of another dimension")
        refuse(samp.dim_not_matching, lambda: samp.cartesian_sample_set(w).setup([np.array([0.0, 1.0])] * dim), "edges of another dimension")
    elif k == "no_append":
        # documented to do nothing for sets of rectangles and balls
        lo = 2.0 * np.arange(c["m"])[:, None] * np.ones((1, dim))
        for b in (samp.rectangle_sample_set(dim), samp.ball_sample_set(dim)):
            if isinstance(b, samp.rectangle_sample_set):
                b.setup(maxes=lo + 1, mins=lo)
            else:
                b.setup(lo, np.ones(c["m"]) * 0.5)
            b.set_domain(np.array([[0.0, 2.0 * c["m"]]] * dim))
            before = contents(b)
            x = rs.random_sample((c["k"], dim))
            b.append_values(x)
            b.append_values_local(x)
            b.append_jacobians(rs.random_sample((c["k"], 1, dim)))
            b.append_error_estimates(x)
            b.update_bounds()
            b.update_bounds_local()
            check(equal(before, contents(b)), "appending to rectangles or balls does nothing",
                  changed=[q for q in before if not equal(before[q], contents(b)[q])])
    t.nontrivial(n > 2)
    t.label(k)


SETS = ["values", "domain", "reference", "lengths", "lengths_local", "stray_values", "merge_dim", "merge_domain", "exact", "equality", "emulated_volume", "types",
        "dims", "pairs", "pdf", "pdf_voronoi", "pdf_dim", "rectangles", "no_append"]


# ------------------------------------------------------------------ calculations
def calculations(c, t):
    import bet.sample as samp
    import bet.calculateP.calculateP as calcP
    import bet.calculateP.calculateR as calcR
    import bet.calculateP.calculateError as ce
    import bet.calculateP.simpleFunP as sfun
    import bet.surrogates as sur
    W = sfun.wrong_argument_type
    dim, w, n = c["dim"], c["other"], c["n"]
    rs = np.random.RandomState(c["seed"])
    d = world(c)
    s = d.get_input_sample_set()
    data = rs.random_sample((n, dim))
    dset = [data, gen.plain_set(data, dim), samp.discretization(gen.plain_set(rs.random_sample((n, 1)), 1), gen.plain_set(data, dim))][c["at"]]
    junk = c["junk"]
    k = c["what"]
    bad = c["size"] if c["form"] == "scalar" else ([0.5] * (dim - 1) + [c["size"]])
    bad = np.array(bad) if c["form"] == "array" else bad
    if k == "transfer":
        new = gen.plain_set(rs.random_sample((3, w)), w)
        em = gen.plain_set(rs.random_sample((3, dim)), dim)
        refuse(samp.dim_not_matching, lambda: calcP.prob_from_sample_set(s, new), "transfer to another dimension", s, new)
        refuse(samp.dim_not_matching, lambda: calcP.prob_from_discretization_input(d, new), "transfer to another dimension", d, new)
        refuse(samp.dim_not_matching, lambda: calcP.prob_from_sample_set_with_emulated_volumes(s, new, em), "transfer to another dimension", s, new)
    elif k == "transfer_unsolved":
        d = world(c, prob=False)
        if c["disc"]:
            d.set_emulated_input_sample_set(gen.plain_set(rs.random_sample((4, dim)), dim))
        new = gen.plain_set(rs.random_sample((3, dim)), dim)
        refuse(AttributeError, lambda: calcP.prob_from_discretization_input(d, new), "transfer of a measure not yet calculated", d, new)
    elif k == "no_reference":
        for f, kw in ((sfun.uniform_partition_uniform_distribution_rectangle_size, dict(rect_size=1.0)),
                      (sfun.uniform_partition_uniform_distribution_rectangle_scaled, {}),
                      (sfun.regular_partition_uniform_distribution_rectangle_size, dict(rect_size=1.0)),
                      (sfun.regular_partition_uniform_distribution_rectangle_scaled, {}),
                      (sfun.uniform_partition_normal_distribution, dict(std=1.0)),
                      (sfun.normal_partition_normal_distribution, dict(std=1.0))):
            e = (W, TypeError) if "normal" in f.__name__ else W
            refuse(e, lambda: f(dset, **kw), f.__name__ + " without reference value", dset)
    elif k == "no_size":
        for f in (sfun.uniform_partition_uniform_distribution_rectangle_size, sfun.regular_partition_uniform_distribution_rectangle_size):
            refuse(W, lambda: f(dset, Q_ref=np.zeros(dim)), f.__name__ + " without size", dset)
    elif k == "bad_size":
        for f in (sfun.uniform_partition_uniform_distribution_rectangle_size, sfun.regular_partition_uniform_distribution_rectangle_size):
            refuse(W, lambda: f(dset, Q_ref=np.zeros(dim), rect_size=bad), f.__name__ + " of a size that is not positive", dset)
    elif k == "measure_type":
        q = np.zeros(2)
        for f, kw in ((sfun.uniform_partition_uniform_distribution_rectangle_size, dict(rect_size=1.0, Q_ref=q)),
                      (sfun.regular_partition_uniform_distribution_rectangle_size, dict(rect_size=1.0, Q_ref=q)),
                      (sfun.uniform_partition_uniform_distribution_data_samples, {}),
                      (sfun.user_partition_user_distribution, dict(data_partition_set=data, data_distribution_set=data))):
            refuse(W, lambda: f(junk, **kw), f.__name__ + " of data of another type")
        refuse(W, lambda: sfun.user_partition_user_distribution(dset, junk, data), "a partition of another type", dset)
        refuse(W, lambda: sfun.user_partition_user_distribution(dset, data, junk), "a distribution of another type", dset)
        other = rs.random_sample((3, w))
        refuse(W, lambda: sfun.user_partition_user_distribution(dset, other, data), "a partition of another dimension", dset)
        refuse(W, lambda: sfun.user_partition_user_distribution(dset, data, other), "a distribution of another dimension", dset)
    elif k == "list_length":
        wrong = [1.0] * w if c["form"] == "list" else tuple([1.0] * w)
        for f in (sfun.normal_partition_normal_distribution, sfun.uniform_partition_normal_distribution):
            refuse(samp.dim_not_matching, lambda: f(dset, Q_ref=wrong, std=1.0), f.__name__ + " with a centre of another dimension", dset)
            refuse(samp.dim_not_matching, lambda: f(dset, Q_ref=[0.0] * dim, std=wrong), f.__name__ + " with deviations of another dimension", dset)
    elif k == "random_variable":
        dd = density_problem(c)
        for rv, e in ((junk, samp.wrong_input), ([["norm", {}]] * (dim + 1), samp.dim_not_matching)):
            if isinstance(rv, (str, list, tuple)) and rv is junk:
                continue
            refuse(e, lambda: calcR.invert_to_random_variable(dd, rv), "random variables %r" % (rv,))
    elif k == "error_type":
        e = ce.wrong_argument_type
        for f in (ce.cell_connectivity_exact, lambda x: ce.boundary_sets(x, []), ce.sampling_error, ce.model_error):
            refuse(e, lambda: f(junk), "errors of something that is not a discretization")
        refuse(e, lambda: ce.model_error(d), "model errors without error estimates", d)
        d.get_input_sample_set().set_p_norm(gen.pn(c["p"]))
        refuse(e, lambda: ce.cell_connectivity_exact(d), "cells in another norm", d)
        refuse(e, lambda: ce.boundary_sets(d, [[0]] * n), "cells in another norm", d)
        r = samp.rectangle_sample_set(dim)
        r.setup(maxes=np.arange(1.0, n)[:, None] * np.ones((1, dim)), mins=np.arange(0.0, n - 1)[:, None] * np.ones((1, dim)))
        dr = samp.discretization(r, d.get_output_sample_set(), d.get_output_probability_set())
        refuse(e, lambda: ce.cell_connectivity_exact(dr), "cells that are rectangles", dr)
        refuse(e, lambda: ce.boundary_sets(dr, [[0]] * n), "cells that are rectangles", dr)
    elif k == "surrogate":
        e = ce.wrong_argument_type
        refuse(e, lambda: sur.piecewise_polynomial_surrogate(junk), "a surrogate of something that is not a discretization")
        g = sur.piecewise_polynomial_surrogate(d)
        q = gen.plain_set(rs.random_sample((4, dim)), dim, 2.0, [[0, 1]] * dim)
        refuse(e, lambda: g.generate_for_input_set(q, order=1), "a linear surrogate without jacobians", d, q)
        refuse(e, lambda: g.generate_for_input_set(q, order=2 + c["k"]), "a surrogate of another order", d)
        b = gen.plain_set(rs.random_sample((4, w)), w)
        refuse(samp.dim_not_matching, lambda: g.generate_for_input_set(b, order=0), "evaluation in another dimension", d, b)
        refuse(e, lambda: g.calculate_prob_for_sample_set_region(q, [0]), "probability before evaluation", d)
        g.generate_for_input_set(q, order=0)
        refuse(e, lambda: g.calculate_prob_for_sample_set_region(junk, [0]), "probability on something that is not a sample set", d)
    t.nontrivial(n > 2)
    t.label(k)


CALC = ["transfer", "transfer_unsolved", "no_reference", "no_size", "bad_size", "measure_type", "list_length", "random_variable", "error_type", "surrogate"]


def density_problem(c):
    import bet.sample as samp
    rs = np.random.RandomState(c["seed"])
    x = rs.randn(25, c["dim"])
    d = samp.discretization(gen.plain_set(x, c["dim"]), gen.plain_set(x[:, :1] + 0.1, 1))
    d.set_output_observed_set(gen.plain_set(0.3 * rs.randn(20, 1), 1))
    return d


# ------------------------------------------------------------------ sampling, sensitivities
def sampling(c, t):
    import bet.sample as samp
    import bet.sampling.basicSampling as bs
    import bet.sensitivity.gradients as g
    import bet.sensitivity.chooseQoIs as cq
    dim, w, n = c["dim"], c["other"], c["n"]
    rs = np.random.RandomState(c["seed"])
    d = world(c)
    s = d.get_input_sample_set()
    k = c["what"]
    if k == "laws":
        if not isinstance(c["junk"], (str, list, tuple)):
            refuse(samp.wrong_input, lambda: bs.random_sample_set(c["junk"], s, n), "a law that is not a string or list", s)
        if dim > 1:
            refuse(samp.dim_not_matching, lambda: bs.random_sample_set([["norm", {}]] * (dim - 1), s, n), "laws for fewer coordinates", s)
        if not isinstance(c["junk"], int) and not isinstance(c["junk"], list):
            refuse(samp.wrong_input, lambda: bs.random_sample_set("uniform", c["junk"], n), "sampling something of another type")
    elif k == "updated":
        refuse(bs.bad_object, lambda: bs.sample_from_updated(c["junk"], n), "samples of something of another type")
        b = gen.plain_set(s.get_values(), dim)
        refuse(bs.bad_object, lambda: bs.sample_from_updated(b, n), "samples of an undefined measure", b)
        b.set_prob_type("voronoi")
        b.set_probabilities(np.ones(n) / n)
        refuse(bs.bad_object, lambda: bs.sample_from_updated(b, n), "samples of a cell-wise measure", b)
    elif k == "values":
        b = samp.sample_set(dim)
        if c["local"]:
            b.set_domain(np.array([[0.0, 1.0]] * dim))
        for f in (lambda: g.sample_lp_ball(b, 3, 0.1, 2), lambda: g.sample_linf_ball(b, 3, 0.1), lambda: g.sample_l1_ball(b, 3, 0.1),
                  lambda: g.pick_ffd_points(b, 0.1 * np.ones(dim)), lambda: g.pick_cfd_points(b, 0.1 * np.ones(dim))):
            refuse(ValueError, f, "clusters about centres that are missing", b)
    elif k == "gradient_values":
        for f in (lambda x: g.calculate_gradients_rbf(x, 1), g.calculate_gradients_ffd, g.calculate_gradients_cfd):
            for a, b in ((samp.sample_set(dim), d.get_output_sample_set()), (s, samp.sample_set(2))):
                dd = samp.discretization.__new__(samp.discretization)
                dd.__dict__.update(d.__dict__)
                dd._input_sample_set, dd._output_sample_set = a, b
                refuse(ValueError, lambda: f(dd), "gradients without values")
    elif k == "kernels":
        r = rs.random_sample((2, 3))
        refuse(ValueError, lambda: g.radial_basis_function(r, "no kernel"), "an unknown kernel", r)
        refuse(ValueError, lambda: g.radial_basis_function_dxi(r, r, "no kernel"), "an unknown kernel", r)
    elif k == "jacobians":
        b = gen.plain_set(s.get_values(), dim)
        for f in (cq.calculate_avg_measure, cq.calculate_avg_skewness, cq.calculate_avg_condnum):
            refuse(ValueError, lambda: f(b), f.__name__ + " without jacobians", b)
        refuse(ValueError, lambda: cq.chooseOptQoIs(b), "quantities without jacobians", b)
        refuse(ValueError, lambda: cq.chooseOptQoIs_verbose(b), "quantities without jacobians", b)
        refuse(ValueError, lambda: cq.find_unique_vecs(b, 0.9), "quantities without jacobians", b)
        refuse(ValueError, lambda: cq.chooseOptQoIs_large(b), "quantities without jacobians", b)
        refuse(ValueError, lambda: cq.chooseOptQoIs_large_verbose(b), "quantities without jacobians", b)
        refuse(ValueError, lambda: cq.find_good_sets(b, [np.array([[0, 1.0]])], [0, 1], 2, 2, 1.0), "quantities without jacobians", b)
    elif k == "too_many":
        b = gen.plain_set(s.get_values(), dim)
        b.set_jacobians(rs.random_sample((n, dim + c["k"], dim)))
        for f in (cq.calculate_avg_measure, cq.calculate_avg_skewness, cq.calculate_avg_condnum):
            refuse(ValueError, lambda: f(b), f.__name__ + " of more outputs than inputs", b)
    t.nontrivial(n > 2)
    t.label(k)


SAMP = ["laws", "updated", "values", "gradient_values", "kernels", "jacobians", "too_many"]


# ------------------------------------------------------------------ post-processing
def post(c, t):
    import matplotlib
    matplotlib.use("Agg")
    import bet.sample as samp
    import bet.postProcess.plotP as pp
    import bet.postProcess.plotDomains as pd
    import bet.postProcess.plotVoronoi as pv
    import bet.postProcess.postTools as pt
    import bet.postProcess.compareP as cp
    dim, w, n = c["dim"], c["other"], c["n"]
    rs = np.random.RandomState(c["seed"])
    k, junk = c["what"], c["junk"]
    kw = dict(save=False, interactive=False)
    if k == "marginals":
        for f in (pp.calculate_1D_marginal_probs, pp.calculate_2D_marginal_probs):
            refuse(pp.bad_object, lambda: f(junk), "marginals of something that is not a sample set")
            h = holder(c, prob=False)
            refuse(pp.missing_attribute, lambda: f(h), "marginals without probabilities", h)
        h = holder(c, dim=1)
        refuse(pp.dim_not_matching, lambda: pp.calculate_2D_marginal_probs(h), "pairs of a single coordinate", h)
    elif k == "voronoi":
        kw = dict(interactive=False)
        f, d0 = [(pv.plot_1D_voronoi, 1), (pv.plot_2D_voronoi, 2)][c["at"] % 2]
        refuse(pv.bad_object, lambda: f(junk, **kw), "a plot of something that is not a sample set")
        h = holder(c, dim=d0, prob=False)
        refuse(pv.missing_attribute, lambda: f(h, **kw), "cells without probabilities", h)
        h = holder(c, dim=d0 + c["k"] if d0 == 2 else 1 + c["k"])
        refuse(pv.dim_not_matching, lambda: f(h, **kw), "cells of another dimension", h)
    elif k == "scatter":
        refuse(pd.bad_object, lambda: pd.scatter_2D(junk, **kw), "a plot of something that is not a sample set")
        refuse(pd.bad_object, lambda: pd.scatter_3D(junk, **kw), "a plot of something that is not a sample set")
        for f, d0 in ((pd.scatter_2D, 2), (pd.scatter_3D, 3)):
            h = world(c, dim=d0 + c["k"]).get_input_sample_set()
            refuse(pd.dim_not_matching, lambda: f(h, **kw), "a plot of samples of another dimension", h)
    elif k == "multi":
        refuse(pd.bad_object, lambda: pd.scatter_2D_multi(junk), "a plot of something that is not a sample set")
        refuse(pd.bad_object, lambda: pd.scatter_rhoD(junk, np.zeros(2), **kw), "a plot of something that is not a sample set")
        refuse(pd.bad_object, lambda: pd.scatter_rhoD(junk, np.zeros(2), rho_D=lambda x: x[:, 0], **kw), "a plot of something that is not a sample set")
        refuse(pd.bad_object, lambda: pd.show_data_domain_2D(junk), "a plot of something that is not a discretization")
    elif k == "files":
        import os, tempfile
        import bet.util as util
        h = holder(c)
        with tempfile.TemporaryDirectory(dir=".") as tmp:
            for i in range(c["k"] + 1):
                util.save_object(h, os.path.join(tmp, "proc%d_x" % i))
            refuse(samp.dim_not_matching, lambda: util.load_object(os.path.join(tmp, "x")), "files written by another number of processes", h)
            refuse((IOError, OSError), lambda: util.load_object(os.path.join(tmp, "absent")), "a file that is not there", h)
            check(sorted(os.listdir(tmp)) == ["proc%d_x.p" % i for i in range(c["k"] + 1)], "files are left alone")
    elif k == "sorting":
        refuse(pt.bad_object, lambda: pt.sort_by_rho(junk), "sorting of something that is not a sample set")
        refuse(pt.bad_object, lambda: pt.sample_prob(0.5, junk), "selection from something that is not a sample set")
        refuse(pt.bad_object, lambda: pt.sample_highest_prob(0.5, junk), "selection from something that is not a sample set")
        refuse(pt.bad_object, lambda: pt.sample_lowest_prob(0.5, junk), "selection from something that is not a sample set")
    else:
        a = world(c).get_input_sample_set()
        a.set_prob_type("voronoi")
        b = world(c, dim=w).get_input_sample_set()
        b.set_prob_type("voronoi")
        refuse(samp.dim_not_matching, lambda: cp.compare(a, b), "measures in different dimensions", a, b)
        refuse(samp.wrong_input, lambda: cp.compare(a, junk), "a measure of another type", a)
        refuse(samp.wrong_input, lambda: cp.compare(junk, a), "a measure of another type", a)
        m = cp.compare(a, a.copy())
        refuse(samp.dim_not_matching, lambda: m.set_compare_set(b), "comparison points of another dimension", a, b)
        refuse(samp.dim_not_matching, lambda: m.set_compare_set(np.zeros((3, w))), "comparison points of another dimension", a)
        if not isinstance(junk, int):
            refuse(samp.wrong_input, lambda: m.set_compare_set(junk), "comparison points of another type", a)
        refuse(samp.wrong_input, lambda: m.distance("tv"), "a distance without comparison points", a)
    t.nontrivial(n > 2)
    t.label(k)


POST = ["files", "marginals", "voronoi", "scatter", "multi", "sorting", "compare"]

PROP = Prop("C31", "refusals", [
    Sub("sets", cases(SETS), sets, quick=900, thorough=20000, rule="non-trivial: a set of three or more samples is involved"),
    Sub("calculations", cases(CALC), calculations, quick=500, thorough=10000, rule="non-trivial: a set of three or more samples is involved"),
    Sub("sampling", cases(SAMP), sampling, quick=400, thorough=8000, rule="non-trivial: a set of three or more samples is involved"),
    Sub("post", cases(POST), post, quick=300, thorough=6000, rule="non-trivial: a set of three or more samples is involved"),
], assumptions=["only the exception's class is judged, not its message", "local arrays and cached search structures may be filled in by a refused request"])
