"""C32: data given as integers (of any width, in any memory layout) give the results of the same numbers in floating point,
and the arrays given by the caller are left alone."""
import contextlib
import io
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen


class Data(object):
    """The integers of a case, handed out as arrays of one type."""

    def __init__(self, c, kind):
        self.c, self.kind, self.given = c, kind, []
        rs = np.random.RandomState(c["seed"])
        c["n"] = min(c["n"], 16 ** c["dim"])
        n, dim, odim = c["n"], c["dim"], c["odim"]
        cells = rs.permutation(16 ** dim)[:n]
        self.x = np.stack([(cells // 16 ** i) % 16 for i in range(dim)], axis=1)
        self.A = rs.randint(-3, 4, (dim, odim))
        self.y = self.x @ self.A + rs.randint(0, 3, (n, odim))
        self.jac = rs.randint(-4, 5, (n, odim, dim))
        self.err = rs.randint(-2, 3, (n, odim))
        self.vol = rs.randint(1, 5, n)
        self.prob = rs.randint(0, 4, n)
        self.prob[rs.randint(n)] += 1
        self.em = rs.randint(0, 16, (23, dim))
        self.part = np.unique(rs.randint(self.y.min() - 2, self.y.max() + 3, (6, odim)), axis=0)
        self.pmass = rs.randint(0, 3, len(self.part))
        self.pmass[0] += 1
        self.edges = [np.sort(rs.permutation(17)[:3]) for _ in range(dim)]
        self.ref = self.y[0]
        self.steps = rs.randint(1, 4, dim)

    def __call__(self, a):
        a = np.array(a)
        assert a.dtype.kind == "i" and np.abs(a).max(initial=0) < 30000
        v = layout(a.astype(self.kind))
        self.given.append((v, a))
        return v

    # ---- objects
    def inputs(self):
        import bet.sample as samp
        s = samp.sample_set(self.c["dim"])
        s.set_values(self(self.x))
        s.set_domain(self([[0, 16]] * self.c["dim"]))
        if self.c["p"] != 2.0:
            s.set_p_norm(gen.pn(self.c["p"]))
        return s

    def outputs(self):
        import bet.sample as samp
        s = samp.sample_set(self.c["odim"])
        s.set_values(self(self.y))
        lo, hi = self.y.min(axis=0), self.y.max(axis=0)
        s.set_domain(self(np.stack([lo - 1, hi + 1], axis=1)))
        return s

    def disc(self, **kw):
        import bet.sample as samp
        op = samp.sample_set(self.c["odim"])
        op.set_values(self(self.part))
        op.set_probabilities(self(self.pmass))
        d = samp.discretization(self.inputs(), self.outputs(), output_probability_set=op, **kw)
        if self.c["local"]:
            d.get_input_sample_set().global_to_local()
            d.get_output_sample_set().global_to_local()
        return d

    def emulated(self):
        import bet.sample as samp
        s = samp.sample_set(self.c["dim"])
        s.set_values(self(self.em))
        s.set_domain(self([[0, 16]] * self.c["dim"]))
        return s

    def rounded(self):
        """Where the nearest of the samples is asked for, ties are resolved alike in both runs or not at all: points between."""
        import bet.sample as samp
        s = samp.sample_set(self.c["dim"])
        s.set_values(np.random.RandomState(self.c["seed"] + 1).random_sample((17, self.c["dim"])) * 16)
        s.set_domain(self([[0, 16]] * self.c["dim"]))
        return s


ROUTINES = {}


def routine(f):
    ROUTINES[f.__name__] = f
    return f


def glob(s, *names):
    s.local_to_global()
    return [getattr(s, "get_" + n)() for n in names]


@routine
def prob(D):
    import bet.calculateP.calculateP as cp
    d = D.disc()
    d.get_input_sample_set().set_volumes(D(D.vol))
    cp.prob(d)
    return glob(d.get_input_sample_set(), "probabilities")


@routine
def prob_emulated(D):
    import bet.calculateP.calculateP as cp
    d = D.disc(emulated_input_sample_set=D.rounded())
    cp.prob_on_emulated_samples(d)
    a = glob(d.get_emulated_input_sample_set(), "probabilities")
    cp.prob_with_emulated_volumes(d)
    return a + glob(d.get_input_sample_set(), "probabilities", "volumes")


@routine
def transfer(D):
    import bet.calculateP.calculateP as cp
    old, new = D.rounded(), D.inputs()
    old.set_probabilities(D(np.arange(17)))
    new.set_p_norm(2.0)
    cp.prob_from_sample_set(old, new)
    a = glob(new, "probabilities")
    back = D.rounded()
    new.set_probabilities(D(D.prob))
    cp.prob_from_sample_set(new, back)
    return a + glob(back, "probabilities")


@routine
def transfer_emulated(D):
    import bet.sample as samp
    import bet.calculateP.calculateP as cp
    old, new = D.inputs(), D.rounded()
    old.set_probabilities(D(D.prob))
    em = samp.sample_set(D.c["dim"])
    em.set_values(np.random.RandomState(D.c["seed"] + 2).random_sample((61, D.c["dim"])) * 16)
    cp.prob_from_sample_set_with_emulated_volumes(old, new, em)
    a = glob(new, "probabilities")
    d = D.disc(emulated_input_sample_set=em)
    em.set_probabilities(D(np.arange(61)))
    new = D.rounded()
    cp.prob_from_discretization_input(d, new)
    return a + glob(new, "probabilities")


@routine
def normalize(D):
    s = D.inputs()
    s.set_jacobians(D(D.jac))
    s.set_reference_value(D(D.x[0]))
    s.normalize_domain()
    a = [np.array(v) for v in glob(s, "values", "jacobians", "reference_value")]
    s.undo_normalize_domain()
    return a + glob(s, "values", "jacobians", "reference_value", "domain")


@routine
def volumes(D):
    s = D.inputs()
    s.set_p_norm(2.0)
    s.estimate_volume_emulated(D.rounded())
    a = list(glob(s, "volumes"))
    if D.c["dim"] == 1:
        s.exact_volume_1D()
        a += glob(s, "volumes")
    elif D.c["dim"] == 2:
        s.exact_volume_2D()
        a += glob(s, "volumes")
    return a


@routine
def random_volumes(D):
    s = D.inputs()
    s.estimate_radii_and_volume(n_mc_points=500)
    a = list(glob(s, "volumes")) + [s._normalized_radii]
    s.estimate_local_volume(num_emulate_local=50, max_num_emulate=2000)
    return a + glob(s, "volumes")


@routine
def query(D):
    s = D.inputs()
    q = D.rounded().get_values()
    a = list(s.query(q)) + list(s.query(q, k=min(2, D.c["n"])))
    s.append_values(D(D.x + 16))
    return a + list(s.query(q + 16)) + [s.get_values(), s.get_bounding_box()]


@routine
def appended(D):
    """Fractions appended to or merged with integers are not cut off."""
    import bet.sample as samp
    s = D.inputs()
    s.append_values(D.rounded().get_values())
    s.set_jacobians(D(D.jac))
    s.append_jacobians(np.full((17,) + D.jac.shape[1:], 0.25))
    m = D.inputs().merge(D.rounded())
    return [s.get_values(), s.get_jacobians()] + glob(m, "values")


@routine
def rectangles(D):
    import bet.sample as samp
    r = samp.rectangle_sample_set(D.c["dim"])
    r.setup(maxes=D([[3] * D.c["dim"], [9] * D.c["dim"]]), mins=D([[0] * D.c["dim"], [4] * D.c["dim"]]))
    r.set_domain(D([[0, 16]] * D.c["dim"]))
    r.exact_volume_lebesgue()
    a = [r.get_volumes(), r.get_values()[:-1]] + list(r.query(D.rounded().get_values()))
    r.normalize_domain()
    return a + [r.get_values()[:-1]] + list(r.query(D.rounded().get_values() / 16))


@routine
def balls(D):
    import bet.sample as samp
    r = samp.ball_sample_set(D.c["dim"])
    r.setup(centers=D([[3] * D.c["dim"], [10] * D.c["dim"]]), radii=D([1, 3]))
    r.set_domain(D([[0, 16]] * D.c["dim"]))
    r.exact_volume()
    return [r.get_volumes()] + list(r.query(D.rounded().get_values()))


@routine
def cartesian(D):
    import bet.sample as samp
    r = samp.cartesian_sample_set(D.c["dim"])
    r.setup([D(e) for e in D.edges])
    r.set_domain(D([[0, 16]] * D.c["dim"]))
    r.exact_volume_lebesgue()
    return [r.get_volumes(), r.get_values()[:-1]] + list(r.query(D.rounded().get_values()))


@routine
def surrogate(D):
    import bet.surrogates as sur
    d = D.disc()
    d.get_input_sample_set().set_jacobians(D(D.jac))
    d.get_output_sample_set().set_error_estimates(D(D.err))
    s = sur.piecewise_polynomial_surrogate(d)
    a = []
    for k in (0, 1):
        out = s.generate_for_input_set(D.rounded(), k).get_output_sample_set()
        a += glob(out, "values", "error_estimates")
    return a


@routine
def surrogate_on_integers(D):
    import bet.surrogates as sur
    d = D.disc()
    d.get_input_sample_set().set_jacobians(0.5 * D.jac)
    s = sur.piecewise_polynomial_surrogate(d)
    return glob(s.generate_for_input_set(D.inputs(), 1).get_output_sample_set(), "values")


@routine
def model_error(D):
    import bet.calculateP.calculateError as ce
    d = D.disc()
    d.get_output_sample_set().set_error_estimates(0.75 * D.err)
    m = ce.model_error(d)
    a = [m.calculate_for_contour_events()]
    r = D.inputs()
    r.set_region(D(np.arange(D.c["n"]) % 2))
    return a + [m.calculate_for_sample_set_region(r, 0, D.rounded()), m.calculate_for_sample_set_region_mc(r, 0)]


@routine
def model_error_integers(D):
    import bet.calculateP.calculateError as ce
    d = D.disc()
    d.get_output_sample_set().set_error_estimates(D(D.err))
    return [ce.model_error(d).calculate_for_contour_events()]


@routine
def sampling_error(D):
    import bet.calculateP.calculateError as ce
    d = D.disc()
    d.get_input_sample_set().set_p_norm(2.0)
    d.get_input_sample_set().set_volumes(D(D.vol))
    s = ce.sampling_error(d)
    r = D.inputs()
    r.set_region(D(np.arange(D.c["n"]) % 2))
    return list(s.calculate_for_contour_events()) + [s.calculate_for_sample_set_region(r, 0, D.rounded())]


def measure(m):
    v = np.asarray(m.get_values(), float)
    return [v[np.all(np.isfinite(v), axis=1)], m.get_probabilities()]


@routine
def regular_partitions(D):
    import bet.calculateP.simpleFunP as sf
    d = D.disc()
    k = D.c["cells"]
    a = []
    for f, kw in ((sf.regular_partition_uniform_distribution_rectangle_scaled, dict(Q_ref=D(D.ref), rect_scale=1)),
                  (sf.regular_partition_uniform_distribution_rectangle_size, dict(Q_ref=D(D.ref), rect_size=D(D.steps[:1].repeat(D.c["odim"])))),
                  (sf.regular_partition_uniform_distribution_rectangle_domain, dict(rect_domain=D(np.stack([D.ref - 1, D.ref + 2], axis=1))))):
        a += measure(f(d, cells_per_dimension=k, **kw))
    d.get_output_sample_set().set_reference_value(D(D.ref))
    a += measure(sf.regular_partition_uniform_distribution_rectangle_size(d, rect_size=3, cells_per_dimension=[k] * D.c["odim"]))
    return a


@routine
def random_partitions(D):
    import bet.calculateP.simpleFunP as sf
    d = D.disc()
    a = []
    for f, kw in ((sf.uniform_partition_uniform_distribution_rectangle_scaled, dict(Q_ref=D(D.ref), rect_scale=1)),
                  (sf.uniform_partition_uniform_distribution_rectangle_size, dict(Q_ref=D(D.ref), rect_size=3)),
                  (sf.uniform_partition_uniform_distribution_rectangle_domain, dict(rect_domain=D(np.stack([D.ref - 1, D.ref + 2], axis=1)))),
                  (sf.normal_partition_normal_distribution, dict(Q_ref=D(D.ref), std=D(np.full(D.c["odim"], 2)))),
                  (sf.uniform_partition_normal_distribution, dict(Q_ref=D(D.ref), std=D(np.full(D.c["odim"], 2))))):
        a += measure(f(d, M=4, num_d_emulate=200, **kw))
    return a


@routine
def given_partitions(D):
    import bet.calculateP.simpleFunP as sf
    d = D.disc()
    a = measure(sf.uniform_partition_uniform_distribution_data_samples(D(D.y)))
    return a + measure(sf.user_partition_user_distribution(d, D(D.part), D.y + 0.3))


@routine
def stencils(D):
    import bet.sensitivity.gradients as g
    import bet.sample as samp
    a = []
    for pick, calc in ((g.pick_ffd_points, g.calculate_gradients_ffd), (g.pick_cfd_points, g.calculate_gradients_cfd)):
        for step in (D(D.steps), 0.25):
            c = D.inputs()
            p = pick(c, step)
            v = np.array(p.get_values())
            a.append(v)
            if not np.isscalar(step):
                out = samp.sample_set(D.c["odim"])
                out.set_values(D(np.rint(v).astype(int) @ D.A))
                whole_numbers = samp.sample_set(D.c["dim"])
                whole_numbers.set_values(D(np.rint(v).astype(int)))
                res = calc(samp.discretization(whole_numbers, out), normalize=False) if pick is g.pick_ffd_points and D.c["n"] == 1 else None
                if res is not None:
                    a.append(res.get_input_sample_set().get_jacobians())
                a.append(calc(samp.discretization(p, out), normalize=D.c["local"]).get_input_sample_set().get_jacobians())
    return a


@routine
def rbf(D):
    import bet.sensitivity.gradients as g
    import bet.sample as samp
    s = samp.sample_set(D.c["dim"])
    v = np.stack([np.arange(24) % 5, np.arange(24) // 5, (3 * np.arange(24)) % 7], axis=1)[:, :D.c["dim"]]
    v = np.unique(v, axis=0)
    s.set_values(D(v))
    out = samp.sample_set(D.c["odim"])
    out.set_values(D(v @ D.A))
    return [g.calculate_gradients_rbf(samp.discretization(s, out), num_centers=2, normalize=False).get_input_sample_set().get_jacobians()]


@routine
def qois(D):
    import bet.sensitivity.chooseQoIs as q
    s = D.inputs()
    rs = np.random.RandomState(D.c["seed"])
    J = rs.randint(-5, 6, (D.c["n"], D.c["dim"] + 1, D.c["dim"]))
    J[:, :, 0] += np.arange(1, D.c["dim"] + 2) * 3
    s.set_jacobians(D(J))
    k = list(range(D.c["dim"]))
    a = []
    for f in (q.calculate_avg_measure, q.calculate_avg_skewness, q.calculate_avg_condnum):
        try:
            r = f(s, k)
        except ValueError:
            continue
        a += [r[0], r[1]]
    return a


@routine
def qoi_search(D):
    import bet.sensitivity.chooseQoIs as q
    s = D.inputs()
    rs = np.random.RandomState(D.c["seed"])
    s.set_jacobians(D(rs.randint(-5, 6, (D.c["n"], D.c["dim"] + 2, D.c["dim"]))))
    r = q.chooseOptQoIs(s, num_qois_return=D.c["dim"], num_optsets_return=3)
    return [np.sort(np.asarray(r)[:, 0])]


@routine
def marginals(D):
    import bet.postProcess.plotP as p
    s = D.inputs()
    s.set_probabilities(D(D.prob))
    b1, m1 = p.calculate_1D_marginal_probs(s, nbins=3)
    b2, m2 = p.calculate_2D_marginal_probs(s, nbins=[3] * D.c["dim"]) if D.c["dim"] > 1 else ([], {})
    a = [m1[k] for k in sorted(m1)] + [m2[k] for k in sorted(m2)]
    sm = p.smooth_marginals_1D(m1, b1, sigma=1)
    return a + [sm[k] for k in sorted(sm)]


@routine
def sorting(D):
    import bet.postProcess.postTools as pt
    a = []
    for f in (lambda s: pt.sort_by_rho(s), lambda s: pt.sample_highest_prob(0.5, s, True), lambda s: pt.sample_lowest_prob(0.7, s, True)):
        s = D.inputs()
        s.set_probabilities(D(D.prob))
        s.set_volumes(D(D.vol))
        r = f(s)
        r = [x for x in r if hasattr(x, "get_values")][0]
        a += glob(r, "values", "probabilities")
    return a


@routine
def density(D):
    s = D.inputs()
    s.set_prob_type("voronoi")
    s.set_probabilities(D(D.prob))
    s.set_volumes(D(D.vol))
    a = [s.pdf(D.rounded().get_values())]
    s.set_prob_type_init("rv")
    s.set_prob_parameters_init([["norm", dict(loc=3, scale=5)]] * D.c["dim"])
    return a + [s.pdf_init(D(D.em)), s.marginal_pdf_init(D(D.em[:, 0]), 0)]


@routine
def gaussian_density(D):
    s = D.inputs()
    s.set_prob_type("gmm")
    s.set_prob_parameters(([D(D.x[0]), D(D.x[-1])], [D(4 * np.eye(D.c["dim"], dtype=int))] * 2, [0.25, 0.75]))
    return [s.pdf(D(D.em)), s.marginal_pdf(D(D.em[:, 0]), 0)]


@routine
def inversion(D):
    import bet.calculateP.calculateR as cr
    import bet.sample as samp
    rs = np.random.RandomState(D.c["seed"])
    x = rs.randint(0, 16, (40, D.c["dim"]))
    s, out, obs = samp.sample_set(D.c["dim"]), samp.sample_set(1), samp.sample_set(1)
    s.set_values(D(x))
    out.set_values(D(x.sum(axis=1)[:, None]))
    obs.set_values(D(rs.randint(3, 12, (25, 1))))
    a = []
    for f in (cr.invert_to_kde, cr.invert_to_gmm, cr.invert_to_multivariate_gaussian):
        d = samp.discretization(s.copy(), out.copy(), output_observed_set=obs.copy())
        f(d)
        i = d.get_input_sample_set()
        a += [i.get_weights(), i.pdf(D(D.em))]
    return a


@routine
def samplers(D):
    import bet.sampling.basicSampling as bs
    s = D.inputs()
    return [bs.regular_sample_set(s.copy(), [2] * D.c["dim"]).get_values(), bs.lhs_sample_set(s.copy(), 4, "center").get_values(),
            bs.random_sample_set("uniform", s.copy(), 5).get_values()]


@routine
def model(D):
    """A model fed with integers; one returning integers."""
    import bet.sampling.basicSampling as bs
    f = bs.sampler(lambda x: np.asarray(x) @ D.A / 2.0)
    a = f.compute_qoi_and_create_discretization(D.inputs(), globalize=True).get_output_sample_set().get_values()
    g = bs.sampler(lambda x: D(np.rint(np.asarray(x) @ D.A).astype(int)))
    b = g.compute_qoi_and_create_discretization(D.inputs(), globalize=True).get_output_sample_set().get_values()
    return [a, b]


@routine
def edits(D):
    import bet.util as util
    d = D.disc()
    d.get_input_sample_set().set_jacobians(D(D.jac))
    d.get_output_sample_set().set_error_estimates(D(D.err))
    a = []
    c = d.clip(max(1, D.c["n"] - 1))
    a += glob(c.get_input_sample_set(), "values", "jacobians") + glob(c.get_output_sample_set(), "values", "error_estimates")
    c = d.choose_inputs_outputs(inputs=[0], outputs=[D.c["odim"] - 1])
    a += glob(c.get_input_sample_set(), "values", "jacobians") + glob(c.get_output_sample_set(), "values", "error_estimates")
    with tempfile.TemporaryDirectory() as tmp:
        util.save_object(d, os.path.join(tmp, "d"))
        l = util.load_object(os.path.join(tmp, "d"))
    check(l == d, "a saved discretization of integers loads as an equal one")
    return a + glob(l.get_input_sample_set(), "values", "jacobians", "domain") + [util.clean_data(D(D.x))]


@routine
def distances(D):
    import bet.postProcess.compareP as comp
    a, b = D.inputs(), D.inputs()
    for s, loc in ((a, 3), (b, 6)):
        s.set_prob_type("rv")
        s.set_prob_parameters([["norm", dict(loc=loc, scale=4)]] * D.c["dim"])
    c = comp.compare(a, b)
    c.set_compare_set(D(D.em))
    return [c.distance("tv"), c.distance("hell"), c.distance_marginal(0), c.distance_marginal_quad(0)]


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(ROUTINES)))
    return dict(routine=name, dim=draw(st.integers(1, 3)), odim=draw(st.integers(1, 2)), n=draw(sizes(1, 9, big=70)), seed=draw(st.integers(0, 10 ** 6)),
                kind=draw(st.sampled_from(["int64", "int64", "int32", "int16"])), p=draw(st.sampled_from(gen.PNORMS)), local=draw(st.booleans()),
                cells=draw(st.integers(1, 3)), rng=draw(SEED))


def flat(out):
    return [np.ravel(np.asarray(v, dtype=float)) for v in out]


def equal(c, t):
    f = ROUTINES[c["routine"]]
    res = []
    for kind in ("float64", c["kind"]):
        np.random.seed(c["rng"] % 2 ** 32)
        try:
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                D = Data(c, kind)
                res.append(flat(f(D)))
        except Exception as e:
            if kind == "float64":
                t.label("%s: refused in floating point" % c["routine"])
                return
            raise
        for v, a in D.given:
            same(v, a, "%s: an array given by the caller is left alone" % c["routine"])
    check(len(res[0]) == len(res[1]), "same results")
    for k, (a, b) in enumerate(zip(*res)):
        close(b, a, "%s, result %d: integers against the same numbers in floating point" % (c["routine"], k), rtol=1e-9, atol=1e-11, nan_equal=True)
    t.nontrivial(sum(a.size for a in res[0]) > 1)
    t.label(c["routine"], c["kind"])


PROP = Prop("C32", "integers are numbers", [
    Sub("equal", cases(), equal, quick=2000, thorough=60000, rule="non-trivial: the routine accepts the numbers in floating point and returns more than one of them"),
], assumptions=["integers below 30000 in absolute value", "random routines run with the same seed in both types"])
