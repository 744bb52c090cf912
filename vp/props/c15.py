"""C15: pdf and marginal pdf evaluate the declared probability model."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o
from vp.props import c06

LAWS = ["uniform", "norm", "beta", "expon"]


@st.composite
def law(draw):
    k = draw(st.sampled_from(LAWS))
    loc, scale = draw(st.integers(-8, 8)) / 4.0, draw(st.sampled_from([0.5, 1.0, 2.0, 3.0]))
    d = dict(loc=loc, scale=scale)
    if k == "beta":
        d.update(a=draw(st.sampled_from([1.0, 2.0, 5.0])), b=draw(st.sampled_from([1.0, 2.0, 3.0])))
    if draw(st.integers(0, 4)) == 0 and k != "beta":
        d.pop(draw(st.sampled_from(["loc", "scale"])))
    return [k, d]


def law_pdf(l, x):
    """Textbook densities."""
    from math import lgamma
    k, a = l
    loc, sc = a.get("loc", 0.0), a.get("scale", 1.0)
    z = (np.asarray(x, float) - loc) / sc
    if k == "uniform":
        return np.where((z >= 0) & (z <= 1), 1.0, 0.0) / sc
    if k == "norm":
        return np.exp(-z * z / 2) / np.sqrt(2 * np.pi) / sc
    if k == "expon":
        return np.where(z >= 0, np.exp(-np.maximum(z, 0)), 0.0) / sc
    c = np.exp(lgamma(a["a"] + a["b"]) - lgamma(a["a"]) - lgamma(a["b"]))
    zz = np.clip(z, 1e-300, 1)
    return np.where((z > 0) & (z < 1), c * zz ** (a["a"] - 1) * np.clip(1 - z, 0, 1) ** (a["b"] - 1), 0.0) / sc


@st.composite
def model(draw, dim, kinds=("rv", "gmm", "kde")):
    k = draw(st.sampled_from(list(kinds)))
    m = dict(kind=k)
    if k == "rv":
        m["laws"] = [draw(law()) for _ in range(dim)]
        return m
    m["clusters"] = draw(st.sampled_from([1, 2, 3, 2, 3, 5]))
    m["weights"] = draw(weights(m["clusters"]))
    m["seed"] = draw(SEED)
    m["bw"] = draw(st.sampled_from([None, "silverman", 0.5]))
    m["data_weights"] = draw(st.booleans())
    m["missing"] = draw(st.booleans()) and m["clusters"] > 1
    return m


class Model(object):
    """The model in the code's parameter format, and its density and marginals from formulas."""

    def __init__(self, m, dim):
        self.m, self.dim = m, dim
        if m["kind"] == "rv":
            self.params = [[l[0], dict(l[1])] for l in m["laws"]]
            return
        rs = np.random.RandomState(m["seed"])
        self.w = normalized(m["weights"])
        gone = np.flatnonzero(self.w == 0) if m["missing"] else []
        if m["kind"] == "gmm":
            self.means, self.covs = [], []
            for j in range(m["clusters"]):
                a = rs.normal(size=(dim, dim)) + 1.5 * np.eye(dim)
                self.means.append(rs.normal(size=dim) * 1.5)
                self.covs.append(a @ a.T + 0.1 * np.eye(dim))
            self.params = ([None if j in gone else x for j, x in enumerate(self.means)],
                           [None if j in gone else x for j, x in enumerate(self.covs)], list(self.w))
        else:
            from scipy.stats import gaussian_kde
            self.data = [[rs.normal(size=6) + 2 * rs.normal() for _ in range(m["clusters"])] for _ in range(dim)]
            self.dw = [rs.randint(1, 9, size=6).astype(float) if m["data_weights"] else None for _ in range(m["clusters"])]
            self.params = ([[None if j in gone else gaussian_kde(self.data[i][j], bw_method=m["bw"], weights=self.dw[j])
                             for j in range(m["clusters"])] for i in range(dim)], list(self.w))

    def marginal(self, x, i):
        if self.m["kind"] == "rv":
            return law_pdf(self.m["laws"][i], x)
        if self.m["kind"] == "gmm":
            return sum(w * law_pdf(["norm", dict(loc=mu[i], scale=np.sqrt(c[i, i]))], x)
                       for w, mu, c in zip(self.w, self.means, self.covs))
        return sum(w * o.kde(self.data[i][j], self.dw[j], self.m["bw"])(np.asarray(x)[:, None])
                   for j, w in enumerate(self.w))

    def pdf(self, x):
        if self.m["kind"] == "gmm":
            return sum(w * o.gauss(x, mu, c) for w, mu, c in zip(self.w, self.means, self.covs))
        out = np.ones(len(x))
        for i in range(self.dim):
            out = out * self.marginal(x[:, i], i)
        return out


@st.composite
def declared(draw):
    dim = draw(st.integers(1, 3))
    return dict(dim=dim, models=[draw(model(dim)) for _ in range(draw(st.integers(1, 3)))],
                init=[draw(model(dim)) for _ in range(draw(st.integers(1, 2)))],
                n=draw(sizes(1, 7, big=700)), seed=draw(SEED), order=draw(st.booleans()))


def evalpts(c):
    rs = np.random.RandomState(c["seed"])
    x = rs.normal(size=(c["n"], c["dim"])) * 2
    x[rs.random_sample(x.shape) < 0.2] += 0.5
    return x


def compare(x, dim, M, pdf, mar, what, t):
    got = pdf(x.copy())
    close(got, M.pdf(x), what + " density", rtol=1e-7)
    for i in range(dim):
        ref = M.marginal(x[:, i], i)
        close(mar(x.copy(), i), ref, "%s marginal %d" % (what, i), rtol=1e-7)
        close(mar(x[:, i].copy(), i), ref, "%s marginal %d, coordinates only" % (what, i), rtol=1e-7)
        if dim > 1:
            close(mar(x[:, [i]].copy(), i), ref, "%s marginal %d, one column" % (what, i), rtol=1e-7)
    if dim == 1:
        close(pdf(x[:, 0].copy()), M.pdf(x), what + " density, flat points", rtol=1e-7)
    t.nontrivial(bool(np.any(M.pdf(x) > 1e-6)))


def parametric(c, t):
    import bet.sample as samp
    s = samp.sample_set(c["dim"])
    x = evalpts(c)
    for k in range(max(len(c["models"]), len(c["init"]))):
        A = Model(c["models"][k % len(c["models"])], c["dim"])
        B = Model(c["init"][k % len(c["init"])], c["dim"])
        s.set_prob_type(A.m["kind"])
        s.set_prob_parameters(A.params)
        s.set_prob_type_init(B.m["kind"])
        s.set_prob_parameters_init(B.params)
        compare(x, c["dim"], A, s.pdf, s.marginal_pdf, "updated", t)
        compare(x, c["dim"], B, s.pdf_init, s.marginal_pdf_init, "initial", t)
        t.label(A.m["kind"], "init " + B.m["kind"])
        close(samp.evaluate_pdf(A.m["kind"], A.params, x), A.pdf(x), "evaluate_pdf", rtol=1e-7)
        few = x[:8]
        one = np.array([samp.evaluate_pdf(A.m["kind"], A.params, few[[i]])[0] for i in range(len(few))])
        close(one, A.pdf(few), "points evaluated one by one", rtol=1e-7)
    wrong = np.zeros((3, c["dim"] + 1))
    raises(samp.dim_not_matching, lambda: s.pdf(wrong), "points of the wrong dimension")
    raises(samp.dim_not_matching, lambda: s.pdf_init(wrong), "points of the wrong dimension")


@st.composite
def voronoi_cases(draw):
    dim = draw(st.integers(1, 3))
    n = draw(sizes(3, 9, big=300))
    dom = draw(domains(dim))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["probs", "vols", "eval", "local"]))
        steps.append([k, draw(weights(n, positive=(k == "vols")))])
    return dict(dim=dim, values=draw(points(n, dim)), domain=dom, prob=draw(weights(n)),
                vol=draw(st.one_of(st.none(), weights(n, positive=True))),
                p=draw(st.sampled_from(gen.PNORMS)), pts=draw(points(draw(sizes(1, 8, big=700)), dim)), steps=steps,
                local=draw(st.booleans()), only=draw(st.sampled_from(["both", "both", "local"])), open=draw(st.integers(0, 7)))


def voronoi(c, t):
    """Piecewise constant density: probability over volume (times the volume of the domain) of the nearest cell."""
    import bet.sample as samp
    dim, dom = c["dim"], np.array(c["domain"])
    vals, x = in_domain(c["values"], dom), in_domain(c["pts"], dom)
    own, clear = o.nearest(x, vals, gen.pn(c["p"]))
    if not clear:
        t.label("ambiguous")
        return
    inside = dom
    if c.get("open", 0) > 5:        # unbounded: volumes count as they are
        dom = np.array([[-np.inf, np.inf]] * dim)
        if c["open"] > 6:
            dom[0] = inside[0]
            dom[-1, 0] = inside[-1, 0]
            dom[-1, 1] = np.inf
    s = gen.plain_set(vals, dim, c["p"], dom)
    s.set_prob_type("voronoi")
    n = len(vals)
    prob = normalized(c["prob"])
    vol = np.ones(n) / n if c["vol"] is None else normalized(c["vol"])
    if c["only"] == "local":       # measure known by its local arrays only
        s.global_to_local()
        s.set_probabilities_local(part(prob.copy()))
        if c["vol"] is not None:
            s.set_volumes_local(part(vol.copy()))
    else:
        s.set_probabilities(prob.copy())
        if c["vol"] is not None:
            s.set_volumes(vol.copy())
    if c["local"]:
        s.global_to_local()
    total = np.prod(dom[:, 1] - dom[:, 0])
    if not np.isfinite(total):
        total = 1.0
        t.label("unbounded domain")

    def look(k):
        close(s.pdf(x.copy()), prob[own] / (vol[own] * total), "density %s" % k, rtol=1e-8)
        for i in range(dim):
            if np.count_nonzero(prob) > 2 and o.wmoments(vals[:, [i]], prob)[1][0, 0] > 1e-6 * (inside[i, 1] - inside[i, 0]) ** 2:
                ref = o.kde(vals[:, i], prob, None)(x[:, i])
                close(s.marginal_pdf(x.copy(), i), ref, "marginal %d %s" % (i, k), rtol=1e-6)
    look("at first")
    for k, (a, w) in enumerate(c["steps"]):
        if a == "probs":
            prob = normalized(w)
            s.set_probabilities(prob.copy())
        elif a == "vols":
            vol = normalized(w)
            s.set_volumes(vol.copy())
        elif a == "local":
            s.global_to_local()
        look("after step %d" % k)
    # the density integrates to the mass over the cells
    close(np.sum(s.get_densities() * vol * total), prob.sum(), "densities times volumes sum to one")
    s.set_densities()
    close(s.get_densities(), prob / (vol * total), "densities by default")
    if s.get_probabilities_local() is not None and s.get_volumes_local() is not None:
        s.set_densities_local()
        close(whole(s.get_densities_local()), prob / (vol * total), "local densities by default")
    given = np.arange(n) + 0.5
    s.set_densities(given.copy())
    same(s.get_densities(), given, "densities as given")
    s.set_densities_local(part(given[::-1].copy()))
    same(whole(s.get_densities_local()), given[::-1], "local densities as given")
    t.nontrivial(len(set(own.tolist())) > 1 and total != 1.0)
    raises(samp.wrong_input, lambda: gen_missing(dim, vals).pdf(x), "no probabilities")


def gen_missing(dim, vals):
    s = gen.plain_set(vals, dim)
    s.set_prob_type("voronoi")
    return s


def integral(c, t):
    """Every declared density integrates to one (1D and 2D, trapezoidal rule on smooth models)."""
    import bet.sample as samp
    M = Model(c["model"], c["dim"])
    s = samp.sample_set(c["dim"])
    s.set_prob_type(c["model"]["kind"])
    s.set_prob_parameters(M.params)
    g = np.linspace(-25, 25, 2501)
    for i in range(c["dim"]):
        v = s.marginal_pdf(g.copy(), i)
        check(bool(np.all(v >= 0)), "marginal densities are nonnegative")
        close(np.sum(v) * (g[1] - g[0]), 1.0, "marginal %d integrates to one" % i, rtol=2e-3)
    if c["dim"] <= 2:
        g = np.linspace(-25, 25, 401)
        x = np.stack([a.ravel() for a in np.meshgrid(*[g] * c["dim"], indexing="ij")], axis=1)
        v = s.pdf(x)
        check(bool(np.all(v >= 0)), "densities are nonnegative")
        if c["dim"] == 1 or c["model"]["kind"] == "gmm":
            close(np.sum(v) * (g[1] - g[0]) ** c["dim"], 1.0, "density integrates to one", rtol=2e-2)
    t.nontrivial()


PROP = Prop("C15", "density evaluation", [
    Sub("parametric", declared(), parametric, quick=600, thorough=25000,
        rule="non-trivial: the density is above 1e-6 at some point"),
    Sub("voronoi", voronoi_cases(), voronoi, quick=600, thorough=25000,
        rule="non-trivial: points in several cells of a domain of volume other than one"),
    Sub("integral", st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries(
        dict(dim=st.just(d), model=model(d, kinds=("gmm", "kde"))))).filter(
            lambda c: True), integral, quick=60, thorough=2000, rule="every case"),
], assumptions=["points on the boundary between Voronoi cells are skipped (counted under 'ambiguous')"])
