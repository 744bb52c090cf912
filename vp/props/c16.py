"""C16: samplers return the requested samples from the requested law."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o
from vp.props.c15 import law, LAWS

PMIN = 1e-9    # level of the distribution tests


def rows_in(v, dom):
    return bool(np.all(v >= dom[:, 0] - 1e-9) and np.all(v <= dom[:, 1] + 1e-9))


def make_obj(c):
    """The domain or dimension in the form the case asks for."""
    import bet.sample as samp
    dom = np.array(c["domain"])
    if c["obj"] == "int":
        return len(dom), np.array([[0.0, 1.0]] * len(dom)), False
    if c["obj"] == "domain":
        return dom.copy(), dom, True
    s = samp.sample_set(len(dom))
    if c["obj"] == "set":
        return s, np.array([[0.0, 1.0]] * len(dom)), False
    s.set_domain(dom.copy())
    return s, dom, True


OBJ = st.sampled_from(["int", "domain", "set", "set_domain"])


@st.composite
def rv_cases(draw):
    dim = draw(st.integers(1, 4))
    form = draw(st.sampled_from(["str", "alias", "one", "list"]))
    c = dict(dim=dim, form=form, domain=draw(domains(dim)), obj=draw(OBJ), n=draw(st.one_of(st.sampled_from([1, 2, 3, 7]), st.sampled_from([80, 200]), st.just(200))),
             again=draw(st.one_of(st.just(0), st.just(0), st.just(120), st.sampled_from([1, 4, 30]))), glob=draw(st.booleans()), cls=draw(st.booleans()),
             query=draw(st.booleans()))
    if form == "str":
        c["rv"] = draw(st.sampled_from(["uniform", "norm", "expon"]))
    elif form == "alias":
        c["rv"] = draw(st.sampled_from(["r", "random"]))
    elif form == "one":
        c["rv"] = draw(law())
    else:
        c["rv"] = [draw(law()) for _ in range(dim)]
        if dim == 2 and isinstance(c["rv"][0], str):
            c["rv"] = c["rv"]
    return c


def laws_of(c, dom, has):
    if c["form"] in ("str", "alias"):
        k = c["rv"] if c["form"] == "str" else "uniform"
        if has:
            return [[k, dict(loc=a, scale=b - a)] for a, b in dom]
        return [[k, {}]] * c["dim"]
    if c["form"] == "one":
        return [c["rv"]] * c["dim"]
    return c["rv"]


def ks(u):
    """p-value of the one-sample Kolmogorov-Smirnov test of u against the uniform law."""
    from scipy.stats import kstest
    return kstest(u, "uniform").pvalue


def independent(u, what):
    """Columns of u (uniform if independent) show no common ups and downs."""
    from scipy.stats import binomtest
    n, dim = u.shape
    for i in range(dim):
        for j in range(i):
            k = int(np.count_nonzero((u[:, i] > 0.5) == (u[:, j] > 0.5)))
            check(n < 40 or binomtest(k, n, 0.5).pvalue > PMIN, what + ": coordinates %d and %d are independent" % (j, i), agree=k, of=n)


def random_variables(c, t):
    import bet.sampling.basicSampling as bs
    import scipy.stats as stats
    import copy
    obj, dom, has = make_obj(c)
    call = bs.sampler(None).random_sample_set if c["cls"] else bs.random_sample_set
    rv = copy.deepcopy(c["rv"])
    s = call(rv, obj, c["n"], globalize=c["glob"])
    check(rv == c["rv"], "the description of the law is not altered")
    n = c["n"]
    laws = laws_of(c, dom, has)
    if c["again"]:
        if c["query"] and c["glob"]:
            s.query(s.get_values()[:1])
        if c["form"] in ("str", "alias") and not np.all(np.isfinite(s.get_domain())):
            return
        prev = s.get_domain().copy()
        n = c["again"]
        s2 = call(rv, s, n, globalize=c["glob"])
        check(s2 is s, "sampling into a set fills that set")
        laws = laws_of(c, prev, True)
    v = s.get_values() if c["glob"] else whole(s.get_values_local())
    check(v is not None and v.shape == (n, c["dim"]), "number and dimension of the samples",
          got=None if v is None else v.shape, want=(n, c["dim"]))
    if not c["glob"]:
        check(s.get_values() is None, "no global values unless asked for")
    check(len(whole(np.zeros(s.check_num_local()))) == n, "number of local samples")
    if c["glob"]:
        check(s.check_num() == n, "number of samples")
        dist, ptr = s.query(v[:1])
        check(float(np.ravel(dist)[0]) <= 1e-12, "a query finds the new samples", got=dist)
    sup = np.empty((c["dim"], 2))
    u = np.empty(v.shape)
    for i, (k, a) in enumerate(laws):
        loc, sc = a.get("loc", 0.0), a.get("scale", 1.0)
        z = (v[:, i] - loc) / sc
        if k == "uniform":
            sup[i], u[:, i] = (loc, loc + sc), z
        elif k == "norm":
            sup[i], u[:, i] = (-np.inf, np.inf), stats.norm.cdf(z)
        elif k == "expon":
            sup[i], u[:, i] = (loc, np.inf), 1 - np.exp(-z)
        else:
            sup[i], u[:, i] = (loc, loc + sc), stats.beta.cdf(z, a["a"], a["b"])
    close(s.get_domain(), sup, "the domain is the support of the law")
    check(rows_in(v, sup), "samples lie in the support")
    for i in range(c["dim"]):
        p = ks(u[:, i])
        check(p > PMIN, "coordinate %d follows its law %s" % (i, laws[i]), p=p, sample=v[:10, i])
        for j in range(i):
            if n >= 80:
                r = np.corrcoef(u[:, i], u[:, j])[0, 1]
                check(abs(r) < 6.5 / np.sqrt(n), "coordinates %d and %d are independent" % (j, i), r=r)
    if n > 1:
        check(len(np.unique(v[:, 0])) == n, "samples differ from one another")
    fresh = call(rv, make_obj(c)[0], c["n"], globalize=True).get_values()
    check(not np.any(np.isin(fresh[:, 0], v[:, 0])), "another call draws other samples")
    check(s.get_prob_type_init() == "rv", "initial law is recorded", got=s.get_prob_type_init())
    par = s.get_prob_parameters_init()
    check(len(par) == c["dim"], "one recorded law per coordinate")
    for i in range(c["dim"]):
        check(par[i][0] == laws[i][0], "recorded law", got=par[i], want=laws[i])
        for k in set(par[i][1]) | set(laws[i][1]):
            dflt = 0.0 if k == "loc" else 1.0
            close(par[i][1].get(k, dflt), laws[i][1].get(k, dflt), "recorded parameter %s" % k)
    t.nontrivial(n >= 80)
    t.label(c["form"], c["obj"], "again" if c["again"] else "once")


@st.composite
def lhs_cases(draw):
    dim = draw(st.integers(1, 4))
    return dict(dim=dim, domain=draw(domains(dim)), obj=draw(OBJ), n=draw(st.sampled_from([1, 2, 3, 5, 8, 20, 20, 8, 5, 150])),
                crit=draw(st.sampled_from(["center", "center", None, "maximin", "centermaximin"])),
                alias=draw(st.booleans()), again=draw(st.sampled_from([0, 0, 2, 5, 9])), glob=draw(st.booleans()),
                cls=draw(st.booleans()), local=draw(st.booleans()))


def latin(c, t):
    import bet.sampling.basicSampling as bs
    obj, dom, has = make_obj(c)
    crit, n = c["crit"], c["n"]
    if min(n, c["again"] or n) == 1 or c["dim"] == 1:
        crit = "center"       # pyDOE's other criteria need several samples and coordinates
    m = bs.sampler(None)

    def call(o_, k):
        if c["alias"] and crit == "center":
            return (m if c["cls"] else bs).random_sample_set("lhs", o_, k, globalize=c["glob"])
        return (m if c["cls"] else bs).lhs_sample_set(o_, k, crit, globalize=c["glob"])
    s = call(obj, n)
    if c["again"]:
        if c["local"] and c["glob"]:
            s.global_to_local()
        n = c["again"]
        check(call(s, n) is s, "sampling into a set fills that set")
    v = s.get_values() if c["glob"] else whole(s.get_values_local())
    check(v is not None and v.shape == (n, c["dim"]), "number and dimension of the samples",
          got=None if v is None else v.shape, want=(n, c["dim"]))
    if not c["glob"]:
        check(s.get_values() is None, "no global values unless asked for")
    close(s.get_domain(), dom, "domain")
    u = (v - dom[:, 0]) / (dom[:, 1] - dom[:, 0])
    check(rows_in(v, dom), "samples lie in the domain")
    for i in range(c["dim"]):
        cell = np.sort(np.floor(np.clip(u[:, i] * n, 0, n - 1e-9) + (1e-9 if crit != "center" else 0)).astype(int))
        same(cell, np.arange(n), "one sample per stratum of coordinate %d" % i)
        if crit in ("center", "centermaximin"):
            close(np.sort(u[:, i]), (np.arange(n) + 0.5) / n, "centred strata of coordinate %d" % i, rtol=1e-7)
    check(s.get_prob_type_init() == "lhs" and s.get_prob_parameters_init() == crit, "initial law is recorded")
    t.nontrivial(n > 2 and c["dim"] > 1)
    t.label(str(crit), c["obj"])


@st.composite
def regular_cases(draw):
    dim = draw(st.integers(1, 4))
    form = draw(st.sampled_from(["int", "list", "array"]))
    if form == "int":
        per = [draw(st.integers(1, 5))] * dim
    else:
        per = [draw(st.integers(1, 5)) for _ in range(dim)]
    if draw(st.integers(0, 9)) == 9:        # a long axis
        per[draw(st.integers(0, dim - 1))] = draw(st.sampled_from([51, 65, 101, 130]))
        per = [min(k, 60 if dim > 2 else 200) for k in per]
        form = "list" if form == "int" else form
    return dict(dim=dim, domain=draw(domains(dim)), obj=draw(OBJ), per=per, form=form, cls=draw(st.booleans()))


def regular(c, t):
    import itertools
    import bet.sampling.basicSampling as bs
    obj, dom, has = make_obj(c)
    per = c["per"][0] if c["form"] == "int" else (np.array(c["per"]) if c["form"] == "array" else list(c["per"]))
    s = (bs.sampler(None) if c["cls"] else bs).regular_sample_set(obj, num_samples_per_dim=per)
    v = s.get_values()
    axes = [a + (b - a) * (np.arange(k) + 0.5) / k for (a, b), k in zip(dom, c["per"])]
    want = np.array(list(itertools.product(*axes)))
    check(v.shape == want.shape, "number of grid points", got=v.shape, want=want.shape)
    key = lambda x: x[np.lexsort(np.round((x - dom[:, 0]) / (dom[:, 1] - dom[:, 0]), 6).T)]
    close(key(v), key(want), "grid of cell centres", rtol=1e-9, atol=1e-9)
    close(s.get_domain(), dom, "domain")
    if c["obj"].startswith("set"):
        check(s is not obj and obj.get_values() is None, "the given set is not altered")
    close(whole(s.get_values_local()), v, "local values on one process are all values")
    check(s.get_prob_type_init() == "grid", "initial law is recorded")
    t.nontrivial(len(set(c["per"])) > 1)


@st.composite
def updated_cases(draw):
    dim, k = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    return dict(kind=draw(st.sampled_from(["kde", "gmm", "rv"])), dim=dim, weights=draw(weights(k)), seed=draw(SEED),
                n=draw(st.one_of(st.sampled_from([1, 2, 3, 4]), st.sampled_from([3, 10, 37]), st.just(200))), glob=draw(st.booleans()), disc=draw(st.booleans()),
                missing=draw(st.booleans()), laws=[draw(law()) for _ in range(dim)])


def updated(c, t):
    """Samples of an updated density: count, clusters shared by all coordinates, distribution within a cluster."""
    import bet.sample as samp
    import bet.sampling.basicSampling as bs
    from scipy.stats import gaussian_kde, norm, chi2
    rs = np.random.RandomState(c["seed"])
    dim, w = c["dim"], normalized(c["weights"])
    k = len(w)
    gone = np.flatnonzero(w == 0) if c["missing"] else []
    # clusters far apart in every coordinate, in a different order in each
    cen = np.stack([1000.0 * rs.permutation(k) for _ in range(dim)], axis=1)
    s = samp.sample_set(dim)
    n = c["n"]
    if c["kind"] == "rv":
        par = c["laws"]
    elif c["kind"] == "kde":
        data = [[cen[j, i] + rs.normal(size=7) for j in range(k)] for i in range(dim)]
        dw = [rs.randint(1, 5, size=7).astype(float) for _ in range(k)]
        par = ([[None if j in gone else gaussian_kde(data[i][j], weights=dw[j]) for j in range(k)] for i in range(dim)],
               list(w))
    else:
        covs = []
        for j in range(k):
            a = rs.normal(size=(dim, dim)) + np.eye(dim)
            covs.append(a @ a.T + 0.1 * np.eye(dim))
        par = ([None if j in gone else cen[j] for j in range(k)], [None if j in gone else covs[j] for j in range(k)],
               list(w))
    s.set_prob_type(c["kind"])
    s.set_prob_parameters(par)
    src = s
    if c["disc"]:
        s.set_values(rs.normal(size=(3, dim)))
        out = gen.plain_set(rs.normal(size=(3, 1)), 1)
        src = samp.discretization(s, out)
    new = bs.sample_from_updated(src, n, globalize=c["glob"])
    v = new.get_values() if c["glob"] else whole(new.get_values_local())
    check(v is not None and v.shape == (n, dim), "number and dimension of the samples",
          got=None if v is None else v.shape, want=(n, dim))
    check(new is not s and new.get_dim() == dim, "a new set")
    check(new.get_prob_type_init() == c["kind"], "the updated law becomes the initial law of the new samples")
    more = bs.sample_from_updated(src, n, globalize=True).get_values()
    check(not np.any(np.isin(more[:, 0], v[:, 0])), "another call draws other samples")
    if c["kind"] == "rv":
        u = np.empty(v.shape)
        for i, (name, a) in enumerate(c["laws"]):
            import scipy.stats as stats
            u[:, i] = getattr(stats, name).cdf(v[:, i], **a)
            p = ks(u[:, i])
            check(p > PMIN, "coordinate %d follows its law" % i, p=p)
        independent(u, "random variables")
        t.nontrivial(n >= 37)
        return
    lab = np.abs(v[:, None, 0] - cen[None, :, 0]).argmin(axis=1)
    for i in range(dim):
        same(np.abs(v[:, None, i] - cen[None, :, i]).argmin(axis=1), lab,
             "all coordinates of a sample come from the same component")
    cnt = np.array([np.count_nonzero(lab == j) for j in range(k)])
    check(bool(np.all(np.abs(cnt - n * w) <= max(1.0, k / 2.0) + 1e-9)), "components are sampled in proportion to their weights",
          got=cnt, want=n * w)
    check(bool(np.all(cnt[w == 0] == 0)), "components of weight zero give no samples", got=cnt)
    for j in range(k):
        x = v[lab == j]
        if len(x) == 0:
            continue
        if c["kind"] == "gmm":
            e = x - cen[j]
            u = chi2.cdf(np.einsum("ai,ij,aj->a", e, np.linalg.inv(covs[j]), e), dim)
            check(ks(u) > PMIN, "component %d follows its Gaussian" % j, p=ks(u))
        else:
            us = np.empty(x.shape)
            for i in range(dim):
                ww = dw[j] / dw[j].sum()
                m = (ww * data[i][j]).sum()
                var = (ww * (data[i][j] - m) ** 2).sum() / (1 - (ww ** 2).sum())
                h = np.sqrt(var) * (1 / (ww ** 2).sum()) ** (-0.2)
                u = (ww * norm.cdf((x[:, i][:, None] - data[i][j]) / h)).sum(axis=1)
                us[:, i] = u
                check(ks(u) > PMIN, "component %d follows its kernel estimate in coordinate %d" % (j, i), p=ks(u))
            independent(us, "component %d" % j)
    t.nontrivial(n >= 3 and np.count_nonzero(w) > 1)
    t.label(c["kind"], "n=dim" if n == dim else "n")


def rejected(c, t):
    import bet.sample as samp
    import bet.sampling.basicSampling as bs
    d = c["dim"]
    raises(samp.wrong_input, lambda: bs.random_sample_set(5, d, 4), "a law that is not a string or list")
    raises(samp.wrong_input, lambda: bs.random_sample_set("uniform", "x", 4), "an input object of another type")
    raises(samp.dim_not_matching, lambda: bs.random_sample_set([["uniform", {}]] * (d + 1 + (d == 1)), d, 4),
           "the wrong number of laws")
    raises(bs.bad_object, lambda: bs.regular_sample_set("x", 4), "an input object of another type")
    raises(bs.bad_object, lambda: bs.lhs_sample_set("x", 4, "center"), "an input object of another type")
    raises(bs.bad_object, lambda: bs.sample_from_updated("x", 4), "an input object of another type")
    raises(bs.bad_object, lambda: bs.sample_from_updated(samp.sample_set(d), 4), "no updated measure")
    t.nontrivial()


PROP = Prop("C16", "samplers", [
    Sub("random_variables", rv_cases(), random_variables, quick=600, thorough=20000,
        rule="non-trivial: at least 80 samples, tested against the law of each coordinate"),
    Sub("latin", lhs_cases(), latin, quick=400, thorough=15000, rule="non-trivial: more than two samples and one coordinate"),
    Sub("regular", regular_cases(), regular, quick=300, thorough=10000, rule="non-trivial: different numbers per dimension"),
    Sub("updated", updated_cases(), updated, quick=500, thorough=20000,
        rule="non-trivial: several components and samples"),
    Sub("rejected", st.fixed_dictionaries(dict(dim=st.integers(1, 4))), rejected, quick=10, thorough=20, rule="every case"),
], assumptions=["distribution tests (Kolmogorov-Smirnov) are made at level 1e-9 with the generator seeded per case"])
