"""C14: updated densities, random variables and rejection samples follow from the inversion weights."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o
from vp.props import c13


def expected(c, D):
    """Per-cluster (indices, ratios), share of the observations per cluster."""
    k = D.clusters()
    share = np.array([np.count_nonzero(D.olab == i) for i in range(k)], float) / len(D.olab)
    return D.ratios(c), share


def some_weight(want):
    return any(w is not None for _, w in want)


def neff(w):
    return w.sum() ** 2 / (w ** 2).sum()


def concentrated(want):
    """All the weight of some cluster is practically on one sample: its spread is not resolved in floating point."""
    return any(w is not None and not neff(w) > 1.2 for _, w in want)


def near(D, rs, n=6):
    return D.lam.mean(axis=0) + rs.normal(size=(n, D.lam.shape[1])) * 1.5


def updated_kde(c, t):
    import bet.calculateP.calculateR as R
    D = c13.Data(c)
    d = D.disc(c)
    want, share = expected(c, D)
    if concentrated(want):
        t.label("concentrated")
        return
    mar, cw = R.invert_to_kde(d, c["bw"])
    close(cw, share, "cluster weights are the shares of the observations")
    check(len(mar) == c["din"] and all(len(m) == len(want) for m in mar), "one density per coordinate and cluster")
    rs = np.random.RandomState(c["wseed"])
    x = near(D, rs)
    inp = d.get_input_sample_set()
    check(inp.get_prob_type() == "kde", "probability type", got=inp.get_prob_type())
    prod = np.ones(len(x))
    for i in range(c["din"]):
        tot = np.zeros(len(x))
        for j, (a, w) in enumerate(want):
            if w is None:
                check(mar[i][j] is None, "no density for a cluster without predictions or observations")
                t.label("empty cluster")
                continue
            ref = o.kde(D.lam[a, i], w, c["bw"])(x[:, i])
            close(mar[i][j](x[:, i]), ref, "marginal %d of cluster %d" % (i, j), rtol=1e-6)
            tot += share[j] * ref
        close(inp.marginal_pdf(x, i), tot, "updated marginal density %d" % i, rtol=1e-6)
        prod *= tot
    close(inp.pdf(x), prod, "updated density", rtol=1e-6)
    full = np.zeros(len(D.q))
    for a, w in want:
        if w is not None:
            full[a] = w
    close(inp.get_weights(), full, "weights of the input samples", rtol=1e-6)
    t.nontrivial(some_weight(want))
    t.label("clusters=%d" % D.k, "dim=%d" % c["din"])


def gaussians(c, t):
    import bet.calculateP.calculateR as R
    D = c13.Data(c)
    d = D.disc(c)
    want, share = expected(c, D)
    if concentrated(want):
        t.label("concentrated")
        return
    means, covs, cw = R.invert_to_gmm(d, c["bw"])
    close(cw, share, "cluster weights are the shares of the observations")
    check(len(means) == len(want) and len(covs) == len(want), "one Gaussian per cluster")
    inp = d.get_input_sample_set()
    check(inp.get_prob_type() == "gmm", "probability type", got=inp.get_prob_type())
    rs = np.random.RandomState(c["wseed"])
    x = near(D, rs)
    tot, spd = np.zeros(len(x)), True
    total = np.zeros(len(D.q))
    for j, (a, w) in enumerate(want):
        if w is None:
            check(means[j] is None, "no Gaussian for a cluster without predictions or observations")
            continue
        m, v = o.wmoments(D.lam[a], w)
        close(means[j], m, "mean of cluster %d" % j, rtol=1e-6, atol=1e-9)
        close(covs[j], v, "covariance of cluster %d" % j, rtol=1e-6, atol=1e-9)
        spd = spd and np.linalg.cond(v) < 1e5
        if spd:
            tot += share[j] * o.gauss(x, m, v)
        total[a] = w * share[j]
    if spd:
        close(inp.pdf(x), tot, "density of the mixture", rtol=1e-5)
        t.nontrivial(some_weight(want))
    if not some_weight(want):
        return
    d2 = D.disc(c)
    m2, v2, w2 = R.invert_to_multivariate_gaussian(d2, c["bw"])
    m, v = o.wmoments(D.lam, total)
    check(len(m2) == 1 and len(v2) == 1 and len(w2) == 1 and w2[0] == 1.0, "a single Gaussian of weight one")
    close(m2[0], m, "mean of the single Gaussian", rtol=1e-6, atol=1e-9)
    close(v2[0], v, "covariance of the single Gaussian", rtol=1e-6, atol=1e-9)
    if np.linalg.cond(v) < 1e5:
        close(d2.get_input_sample_set().pdf(x), o.gauss(x, m, v), "density of the single Gaussian", rtol=1e-5)


@st.composite
def fits(draw):
    c = draw(c13.problems())
    laws = [["norm", {}], ["uniform", {}], ["expon", {}], ["beta", {"floc": -9.0, "fscale": 20.0}], ["gamma", {"floc": -9.0}],
            ["norm", {"floc": 0.25}], ["norm", {"fscale": 2.0}], ["lognorm", {"floc": -9.0}], ["weibull_min", {"floc": -9.0}]]
    form = draw(st.sampled_from(["str", "one", "list"]))
    if form == "str":
        c["rv"] = draw(st.sampled_from(["norm", "uniform", "expon"]))
    elif form == "one":
        c["rv"] = draw(st.sampled_from(laws))
    else:
        c["rv"] = [draw(st.sampled_from(laws)) for _ in range(c["din"])]
    c["form"] = form
    c["num"] = draw(st.sampled_from([None, 500, 3000]))
    return c


def moments_fit(name, fixed, x):
    """Closed-form maximum-likelihood fits where there is one, None otherwise."""
    if name == "norm":
        loc = fixed.get("floc", x.mean())
        return dict(loc=loc, scale=fixed.get("fscale", np.sqrt(((x - loc) ** 2).mean())))
    if name == "uniform":
        return dict(loc=x.min(), scale=x.max() - x.min())
    if name == "expon":
        return dict(loc=x.min(), scale=x.mean() - x.min())
    return None


def random_variable(c, t):
    import bet.calculateP.calculateR as R
    import scipy.stats as stats
    D = c13.Data(c)
    want, share = expected(c, D)
    if concentrated(want):
        t.label("concentrated")
        return
    if not some_weight(want):
        return
    total = np.zeros(len(D.q))
    for j, (a, w) in enumerate(want):
        if w is not None:
            total[a] = w * share[j]
    num = 10000 if c["num"] is None else c["num"]
    cnt = num * total / total.sum()
    if np.any(np.abs(cnt - np.floor(cnt) - 0.5) < 1e-5 * (1 + cnt)):
        t.label("rounding tie")
        return
    x = np.repeat(D.lam, np.round(cnt).astype(int), axis=0)
    laws = [[c["rv"], {}]] * c["din"] if c["form"] == "str" else [c["rv"]] * c["din"] if c["form"] == "one" else c["rv"]
    ref_fits = {}
    for i, (name, fixed) in enumerate(laws):
        if moments_fit(name, fixed, x[:, i]) is None:
            try:
                ref_fits[i] = getattr(stats, name).fit(x[:, i], **fixed)
            except Exception:
                t.label("scipy cannot fit")
                return
    import copy
    d = D.disc(c)
    kw = {} if c["num"] is None else dict(num_reweighted=c["num"])
    given = copy.deepcopy(c["rv"])
    got = R.invert_to_random_variable(d, given, bw_method=c["bw"], **kw)
    check(given == c["rv"], "the description of the random variables is not altered")
    inp = d.get_input_sample_set()
    check(inp.get_prob_type() == "rv", "probability type", got=inp.get_prob_type())
    check(len(got) == c["din"] and len(inp.get_prob_parameters()) == c["din"], "one law per coordinate")
    for i, (name, fixed) in enumerate(laws):
        for res in (got[i], inp.get_prob_parameters()[i]):
            check(res[0] == name, "law of coordinate %d" % i, got=res[0], want=name)
            ref = moments_fit(name, fixed, x[:, i])
            if ref is not None:
                check(set(res[1]) == set(ref), "parameters of coordinate %d" % i, got=res[1])
                for k in ref:
                    close(res[1][k], ref[k], "%s of coordinate %d (%s)" % (k, i, name), rtol=1e-6, atol=1e-8)
            else:
                # no closed form: the fit is the one of scipy on the reweighted sample
                A = ref_fits[i]
                names = getattr(stats, name).shapes.split(", ") + ["loc", "scale"]
                check(set(res[1]) == set(names), "parameters of coordinate %d" % i, got=res[1])
                for k, v in zip(names, A):
                    close(res[1][k], v, "%s of coordinate %d (%s)" % (k, i, name), rtol=1e-4, atol=1e-6)
        t.label(name)
    at = D.lam[:5] + 0.125
    dens = [getattr(stats, r[0]).pdf(at[:, i], **r[1]) for i, r in enumerate(got)]
    close(inp.pdf(at.copy()), np.prod(dens, axis=0), "density of the fitted random variables", rtol=1e-9)
    for i in range(c["din"]):
        close(inp.marginal_pdf(at.copy(), i), dens[i], "marginal density of the fitted random variables", rtol=1e-9)
    t.nontrivial(len(set(cnt.round().tolist())) > 2)


def rejected(c, t):
    import bet.calculateP.calculateR as R
    import bet.sample as samp
    D = c13.Data(c)
    for rv, exc in ((5, samp.wrong_input), ({"norm": 1}, samp.wrong_input),
                    ([["norm", {}]] * (c["din"] + 1 + (c["din"] == 1)), samp.dim_not_matching)):
        raises(exc, lambda: R.invert_to_random_variable(D.disc(c), rv), "random variable %r in dimension %d" % (rv, c["din"]))
    t.nontrivial()


def rejection(c, t):
    import bet.calculateP.calculateR as R
    D = c13.Data(c)
    want, _ = expected(c, D)
    if not some_weight(want):
        return
    p = np.zeros(len(D.q))
    for a, w in want:
        if w is not None:
            p[a] = w / w.max()
    d = D.disc(c)
    reps = 60
    hits = np.zeros(len(p))
    for k in range(reps):
        s = R.invert_rejection_sampling(d, c["bw"])
        v = s.get_values()
        check(v.ndim == 2 and v.shape[1] == c["din"], "shape of the rejection sample", got=v.shape)
        dist = np.abs(v[:, None, :] - D.lam[None, :, :]).max(axis=2)
        idx = dist.argmin(axis=1)
        check(bool(np.all(dist.min(axis=1) == 0)), "rejection keeps only original input samples")
        check(len(set(idx.tolist())) == len(idx), "rejection keeps a sample at most once")
        hits[idx] += 1
        close(s.get_probabilities(), np.ones(len(v)) / len(v), "equal probabilities of the kept samples")
        close(s.get_domain(), np.stack([v.min(axis=0), v.max(axis=0)], axis=1), "domain of the kept samples")
    check(bool(np.all(hits[p == 0] == 0)), "samples of zero weight are never kept")
    check(bool(np.all(hits[p == 1.0] == reps)), "the sample of largest weight of a cluster is always kept", hits=hits, p=p)
    dev = np.abs(hits - reps * p)
    check(bool(np.all(dev <= 6.5 * np.sqrt(reps * p * (1 - p)) + 6 * (p < 1))),
          "samples are kept with probability weight / largest weight of their cluster", hits=hits, p=p)
    t.nontrivial(np.count_nonzero((p > 0.1) & (p < 0.9)) > 1)


PROP = Prop("C14", "updated densities", [
    Sub("kde", c13.problems(), updated_kde, quick=500, thorough=20000, rule="non-trivial: some cluster has weights"),
    Sub("gaussians", c13.problems(), gaussians, quick=500, thorough=20000,
        rule="non-trivial: weighted, with well conditioned covariances"),
    Sub("random_variable", fits(), random_variable, quick=400, thorough=12000,
        rule="non-trivial: samples are repeated in at least three different multiplicities"),
    Sub("rejected", c13.problems(), rejected, quick=20, thorough=200, rule="every case"),
    Sub("rejection", c13.problems(), rejection, quick=150, thorough=4000,
        rule="non-trivial: at least two samples have an acceptance probability between 0.1 and 0.9"),
], assumptions=["acceptance frequencies over 60 repetitions are tested at 6.5 standard deviations"])
