"""C18: generalized Lp samplers."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *

PMIN = 1e-9
PS = [0.5, 1.0, 1.5, 2.0, 3.0, 5.0, "inf"]


@st.composite
def cases(draw, ps=PS):
    dim = draw(dims(4, 8))
    scale = draw(st.sampled_from(["default", "number", "int", "vector"]))
    return dict(dim=dim, n=draw(st.one_of(st.sampled_from([1, 2, 5]), st.just(150), st.just(300), st.sampled_from([2000, 10000]))),
                p=draw(st.sampled_from(ps)), d=draw(st.sampled_from([1.0, 2.0, 3.5, 0.5])), scale=scale,
                radius=[draw(st.sampled_from([0.25, 1.0, 2.0, 7.0, 2.0 ** -8, 2.0 ** 12])) for _ in range(dim)],
                loc=draw(st.one_of(st.none(), st.lists(st.integers(-20, 20), min_size=dim, max_size=dim))),
                float_n=draw(st.booleans()), int_p=draw(st.booleans()), default=draw(st.booleans()))


def args(c):
    kw = {}
    if c["scale"] == "number":
        kw["scale"] = c["radius"][0]
    elif c["scale"] == "int":
        kw["scale"] = int(max(1, c["radius"][0]))
    elif c["scale"] == "vector":
        kw["scale"] = np.array(c["radius"])
    if c["loc"] is not None:
        kw["loc"] = np.array(c["loc"], float)
    p = np.inf if c["p"] == "inf" else c["p"]
    if c["int_p"] and p == int(min(p, 99)):
        p = int(p)
    return p, float(c["n"]) if c["float_n"] else c["n"], kw


def ks(u):
    from scipy.stats import kstest
    return kstest(u, "uniform", method="asymp" if len(u) > 500 else "auto").pvalue


def shape(x, c):
    check(isinstance(x, np.ndarray) and x.shape == (c["n"], c["dim"]), "number and dimension of the samples", got=np.shape(x))
    check(bool(np.all(np.isfinite(x))), "finite samples")


def directions(z, p, what):
    """z: nonzero points of a law that is rotationally uniform for the p-norm: coordinates and signs."""
    from scipy.stats import beta, binomtest
    n, dim = z.shape
    for i in range(dim):
        k = int(np.count_nonzero(z[:, i] > 0))
        check(binomtest(k, n, 0.5).pvalue > PMIN, what + ": both signs equally likely in coordinate %d" % i, got=k, of=n)
        if dim > 1 and not np.isinf(p):
            a = np.abs(z) ** p
            u = beta.cdf(a[:, i] / a.sum(axis=1), 1.0 / p, (dim - 1.0) / p)
            check(ks(u) > PMIN, what + ": direction is uniform on the sphere (coordinate %d)" % i, p=ks(u))
        for j in range(i):
            k = int(np.count_nonzero(z[:, i] * z[:, j] > 0))
            check(binomtest(k, n, 0.5).pvalue > PMIN, what + ": signs of coordinates %d, %d are independent" % (j, i), got=k)


def centred(x, c, kw):
    return (x - kw.get("loc", 0.0)) / kw.get("scale", 1.0)


def uniform(c, t):
    import bet.sampling.LpGeneralizedSamples as lp
    p, n, kw = args(c)
    x = lp.Lp_generalized_uniform(c["dim"], n, **dict(kw, **({} if c["default"] and p == 2 else dict(p=p))))
    shape(x, c)
    z = centred(x, c, kw)
    r = np.abs(z).max(axis=1) if np.isinf(p) else (np.abs(z) ** p).sum(axis=1) ** (1.0 / p)
    check(bool(np.all(r <= 1 + 1e-9)), "samples lie in the ball", got=r.max())
    check(ks(np.clip(r, 0, 1) ** c["dim"]) > PMIN, "radius is that of the uniform law", p=ks(np.clip(r, 0, 1) ** c["dim"]))
    directions(z, p, "uniform")
    if np.isinf(p):
        for i in range(c["dim"]):
            check(ks((z[:, i] + 1) / 2) > PMIN, "coordinate %d is uniform in the cube" % i)
    t.nontrivial(c["n"] >= 100)
    t.label("p=%s" % c["p"], c["scale"])


def normal(c, t):
    """|x_i|^p / scale follows a Gamma law of shape 1/p, signs are symmetric."""
    import bet.sampling.LpGeneralizedSamples as lp
    from scipy.stats import gamma
    p, n, kw = args(c)
    x = lp.Lp_generalized_normal(c["dim"], n, **dict(kw, **({} if c["default"] and p == 2 else dict(p=p))))
    shape(x, c)
    sc = np.broadcast_to(np.asarray(kw.get("scale", 1.0), float), (c["dim"],))
    z = x - kw.get("loc", 0.0)
    for i in range(c["dim"]):
        u = gamma.cdf(np.abs(z[:, i]) ** p / sc[i], 1.0 / p)
        check(ks(u) > PMIN, "coordinate %d is generalized normal" % i, p=ks(u))
    directions(z / sc ** (1.0 / p), p, "normal")
    t.nontrivial(c["n"] >= 100)
    t.label("p=%s" % c["p"])


def beta_law(c, t):
    """radius^p follows Beta(dim/p, d/p), so d = p is the uniform law."""
    import bet.sampling.LpGeneralizedSamples as lp
    from scipy.stats import beta
    p, n, kw = args(c)
    if not (c["default"] and p == 2):
        kw2 = dict(kw, p=p)
    else:
        kw2 = dict(kw)
    if not (c["default"] and c["d"] == 2.0):
        kw2["d"] = c["d"]
    x = lp.Lp_generalized_beta(c["dim"], n, **kw2)
    shape(x, c)
    z = centred(x, c, kw)
    r = (np.abs(z) ** p).sum(axis=1)
    check(bool(np.all(r <= 1 + 1e-9)), "samples lie in the ball", got=r.max())
    u = beta.cdf(np.clip(r, 0, 1), c["dim"] / float(p), c["d"] / p)
    check(ks(u) > PMIN, "radius follows its beta law", p=ks(u))
    directions(z, p, "beta")
    t.nontrivial(c["n"] >= 100)
    t.label("p=%s" % c["p"])


FIN = [0.5, 1.0, 1.5, 2.0, 3.0, 5.0]
PROP = Prop("C18", "generalized Lp samplers", [
    Sub("uniform", cases(), uniform, quick=800, thorough=30000, rule="non-trivial: at least 100 samples"),
    Sub("normal", cases(FIN), normal, quick=500, thorough=20000, rule="non-trivial: at least 100 samples"),
    Sub("beta", cases(FIN), beta_law, quick=500, thorough=20000, rule="non-trivial: at least 100 samples"),
], assumptions=["distribution tests at level 1e-9, numpy's generator seeded per case", "p = infinity only for the uniform law"])
