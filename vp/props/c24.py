"""C24: histogram marginals and their smoothing."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen


@st.composite
def cases(draw):
    dim = draw(st.integers(1, 4))
    n = draw(sizes(1, 30, big=700))
    dom = draw(domains(dim))
    rs = np.random.RandomState(draw(SEED))
    u = -0.1 + 1.2 * rs.random_sample((n, dim)) if draw(st.booleans()) else rs.random_sample((n, dim))
    for _ in range(draw(st.integers(0, 2))):      # some points exactly on the boundary of the domain
        u[rs.randint(n), rs.randint(dim)] = float(rs.randint(2))
    x = in_domain(u, dom)
    d = np.array(dom)
    for i in range(dim):
        x[u[:, i] == 0.0, i] = d[i, 0]
        x[u[:, i] == 1.0, i] = d[i, 1]
    form = draw(st.sampled_from(["int", "list", "array"]))
    nb = [draw(st.integers(1, 7)) for _ in range(dim)]
    if form == "int":
        nb = [nb[0]] * dim
    return dict(x=x.tolist(), dom=dom, P=draw(weights(n)), P2=draw(weights(n)), nb=nb, form=form, norm=draw(st.booleans()),
                host=draw(st.sampled_from(["set", "disc", "emulated"])), local=draw(st.booleans()),
                again=draw(st.booleans()))


def nbins(c):
    return c["nb"][0] if c["form"] == "int" else (list(c["nb"]) if c["form"] == "list" else np.array(c["nb"]))


def build(c):
    import bet.sample as samp
    x = np.array(c["x"])
    s = gen.plain_set(x, x.shape[1], domain=c["dom"])
    P = np.array(c["P"])
    s.set_probabilities(P / P.sum() if c["norm"] else P)
    if c["local"]:
        s.global_to_local()
    if c["host"] == "set":
        return s, s
    if c["host"] == "disc":
        return samp.discretization(s, gen.plain_set(x[:, :1] * 2, 1)), s
    y = gen.plain_set(x[::-1] * 0.5, x.shape[1], domain=[[a - 1, b + 1] for a, b in c["dom"]])
    y.set_probabilities(np.arange(len(x), dtype=float))
    return samp.discretization(y, gen.plain_set(x[:, :1] * 2, 1), emulated_input_sample_set=s), s


def edges(c):
    return [[lo + (hi - lo) * k / n for k in range(n)] + [hi] for (lo, hi), n in zip(c["dom"], c["nb"])]


def bin_of(v, e):
    """Bin index, -1 outside, None when too close to an inner edge to tell."""
    tol = 1e-12 * (abs(e[0]) + abs(e[-1]))
    if v < e[0] or v > e[-1]:
        return -1
    for k in range(len(e) - 1):
        if k < len(e) - 2 and abs(v - e[k + 1]) <= tol:
            return None
        if v <= e[k + 1]:
            return k
    return len(e) - 2


def marginals(c, t):
    import bet.postProcess.plotP as pp
    x = np.array(c["x"])
    dim = x.shape[1]
    E = edges(c)
    B = [[bin_of(v, E[i]) for v in x[:, i]] for i in range(dim)]
    if any(b is None for col in B for b in col):
        t.label("ambiguous")
        return
    obj, s = build(c)
    rounds = [np.array(c["P"]) / (np.sum(c["P"]) if c["norm"] else 1.0)]
    if c["again"]:
        rounds.append(normalized(c["P2"]))
    for r, P in enumerate(rounds):
        if r:
            s.set_probabilities(P.copy())
        bins, m1 = pp.calculate_1D_marginal_probs(obj, nbins(c))
        check(len(bins) == dim and sorted(m1) == list(range(dim)), "one marginal per coordinate", got=sorted(m1))
        for i in range(dim):
            close(bins[i], E[i], "edges of the bins of coordinate %d" % i)
            want = np.zeros(c["nb"][i])
            for b, p in zip(B[i], P):
                if b >= 0:
                    want[b] += p
            close(m1[i], want, "marginal of coordinate %d" % i)
        if dim == 1:
            raises(pp.dim_not_matching, lambda: pp.calculate_2D_marginal_probs(obj, nbins(c)), "pairs of a single coordinate")
        else:
            bins, m2 = pp.calculate_2D_marginal_probs(obj, nbins(c))
            check(sorted(m2) == [(i, j) for i in range(dim) for j in range(i + 1, dim)], "one marginal per pair", got=sorted(m2))
            for i, j in m2:
                close(bins[i], E[i], "edges of the bins of coordinate %d" % i)
                want = np.zeros((c["nb"][i], c["nb"][j]))
                for a, b, p in zip(B[i], B[j], P):
                    if a >= 0 and b >= 0:
                        want[a, b] += p
                close(m2[(i, j)], want, "joint marginal of coordinates %d, %d" % (i, j))
    same(s.get_values(), x, "samples unchanged")
    t.nontrivial(dim > 1 and len(x) > 3)
    t.label("dim=%d" % dim, c["host"])


def rejects(c, t):
    import bet.sample as samp, bet.postProcess.plotP as pp
    s = gen.plain_set(np.random.RandomState(0).random_sample((3, c["dim"])), c["dim"], domain=[[0, 1]] * c["dim"])
    for f in (pp.calculate_1D_marginal_probs, pp.calculate_2D_marginal_probs):
        raises(pp.missing_attribute, lambda: f(s), "no probabilities")
        raises(pp.bad_object, lambda: f(c["junk"]), "not a sample set")
    t.nontrivial()


# ------------------------------------------------------------ smoothing
@st.composite
def smooth_cases(draw):
    dim = draw(st.integers(2, 3))
    nb = [draw(st.integers(1, 14)) for _ in range(dim)]
    dom = draw(domains(dim))
    regime = draw(st.sampled_from(["narrow", "narrow", "tiny", "wide"]))
    frac = [draw(st.integers(1, 100)) / 100.0 for _ in range(dim)]
    return dict(nb=nb, dom=dom, regime=regime, frac=frac, scalar=draw(st.booleans()), seed=draw(SEED),
                sparse=draw(st.booleans()), mass=draw(st.sampled_from([1.0, 1.0, 0.25])))


def smooth(c, t):
    import bet.postProcess.plotP as pp
    dim = len(c["nb"])
    bins = [np.linspace(lo, hi, n + 1) for (lo, hi), n in zip(c["dom"], c["nb"])]
    dx = [b[1] - b[0] for b in bins]
    rs = np.random.RandomState(c["seed"])

    def data(shape):
        m = rs.random_sample(shape)
        if c["sparse"]:
            m = m * (rs.random_sample(shape) < 0.3)
        if m.sum() == 0:
            m.flat[0] = 1.0
        return m * c["mass"] / m.sum()
    if c["regime"] == "narrow":
        sig = [f * max(1, n // 2) * h / 5.0 for f, n, h in zip(c["frac"], c["nb"], dx)]
    elif c["regime"] == "tiny":
        sig = [f * h / 100.0 for f, h in zip(c["frac"], dx)]
    else:
        sig = [f * n * h * 4 for f, n, h in zip(c["frac"], c["nb"], dx)]
    if c["scalar"]:
        sig = [min(sig)] * dim      # (a bandwidth wide in every coordinate pads the arrays to gigabytes)
    arg = float(sig[0]) if c["scalar"] else np.array(sig)

    def kernel(i):
        k = np.arange(c["nb"][i])
        return np.exp(-((k[:, None] - k[None, :]) * dx[i] / sig[i]) ** 2)
    m1 = {i: data(c["nb"][i]) for i in range(dim)}
    keep = {i: v.copy() for i, v in m1.items()}
    out = pp.smooth_marginals_1D(m1, bins, sigma=arg)
    check(sorted(out) == sorted(m1), "smoothed marginals of the same coordinates")
    exact = c["regime"] != "wide"
    for i in m1:
        check(np.shape(out[i]) == (c["nb"][i],), "one value per bin", got=np.shape(out[i]))
        check(bool(np.all(out[i] >= -1e-9)), "smoothed marginals are nonnegative", got=out[i])
        close(np.sum(out[i]), 1.0, "smoothed marginals are normalized")
        if exact:
            w = kernel(i) @ keep[i]
            close(out[i], w / w.sum(), "Gaussian smoothing of coordinate %d" % i, rtol=1e-7, atol=1e-8)
        same(m1[i], keep[i], "the given marginals are unchanged")
    m2 = {(i, j): data((c["nb"][i], c["nb"][j])) for i in range(dim) for j in range(i + 1, dim)}
    keep = {k: v.copy() for k, v in m2.items()}
    out = pp.smooth_marginals_2D(m2, bins, sigma=arg)
    check(sorted(out) == sorted(m2), "smoothed marginals of the same pairs")
    for i, j in m2:
        o_ = out[(i, j)]
        check(np.shape(o_) == (c["nb"][i], c["nb"][j]), "one value per bin", got=np.shape(o_))
        check(bool(np.all(o_ >= -1e-9)), "smoothed marginals are nonnegative", got=o_)
        close(np.sum(o_), 1.0, "smoothed marginals are normalized")
        if exact:
            w = kernel(i) @ keep[(i, j)] @ kernel(j)
            close(o_, w / w.sum(), "Gaussian smoothing of coordinates %d, %d" % (i, j), rtol=1e-7, atol=1e-8)
        same(m2[(i, j)], keep[(i, j)], "the given marginals are unchanged")
    t.nontrivial(exact and max(c["nb"]) > 3)
    t.label(c["regime"], "scalar" if c["scalar"] else "per coordinate")


PROP = Prop("C24", "histogram marginals", [
    Sub("marginals", cases(), marginals, quick=1200, thorough=50000, rule="non-trivial: several coordinates and more than three samples"),
    Sub("smooth", smooth_cases(), smooth, quick=1200, thorough=50000,
        rule="non-trivial: compared with direct convolution on more than three bins"),
    Sub("rejects", st.fixed_dictionaries(dict(dim=st.integers(2, 3), junk=st.sampled_from([None, 1, "s"]))), rejects,
        quick=6, thorough=6, rule="all"),
], assumptions=["samples within rounding of an inner bin edge are skipped",
                "smoothing is compared with the exact convolution for bandwidths up to a tenth of the domain; wider ones for mass and sign"])
