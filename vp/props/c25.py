"""C25: statistical distances between probability measures."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o
from vp.props import c15

FUNCS = ["tv", "totvar", "total variation", "1", "mink", "mink3", "norm", "2", "euclidean", "sqhell", "hell", "hellinger", "kl",
         "entropy", "fn", "total-variation", "minkowski", "2-norm", "sqhellinger", "k-l", "kullback-leibler"]
SAME = {"total-variation": "tv", "minkowski": "mink", "2-norm": "2", "sqhellinger": "sqhell", "k-l": "kl", "kullback-leibler": "kl"}
SYM = {"total-variation", "minkowski", "2-norm", "sqhellinger", "tv", "totvar", "total variation", "1", "mink", "mink3", "norm", "2", "euclidean", "sqhell", "hell", "hellinger"}


@st.composite
def measure(draw, dim, kinds=("rv", "gmm", "kde", "voronoi"), init_kinds=("rv", "gmm", "kde")):
    """A sample set with an updated and an initial law."""
    k = draw(st.sampled_from(list(kinds)))
    n = draw(sizes(4, 9, big=129))
    m = dict(n=n, seed=draw(SEED), shift=draw(st.integers(-4, 4)) / 4.0, init=draw(c15.model(dim, kinds=init_kinds)),
             dom=draw(st.sampled_from(["none", "box", "box", "inf", "below", "above"])))
    if k == "voronoi":
        m["law"] = dict(kind="voronoi", prob=draw(weights(n, positive=True)), vol=draw(weights(n, positive=True)))
    else:
        m["law"] = draw(c15.model(dim, kinds=(k,)))
    return m


class Measure(object):
    def __init__(self, m, dim):
        import bet.sample as samp
        self.m, self.dim = m, dim
        rs = np.random.RandomState(m["seed"])
        self.values = rs.normal(size=(m["n"], dim)) + m["shift"]
        s = self.set = gen.plain_set(self.values, dim)
        lo, hi = self.values.min(axis=0) - 0.5, self.values.max(axis=0) + 0.25
        self.dom = None
        if m["dom"] == "box" or m["law"]["kind"] == "voronoi":
            self.dom = np.stack([lo, hi], axis=1)
        elif m["dom"] in ("below", "above"):
            self.dom = np.stack([lo, hi], axis=1)
            self.dom[m["seed"] % dim, 1 if m["dom"] == "below" else 0] = np.inf if m["dom"] == "below" else -np.inf
        elif m["dom"] == "inf":
            self.dom = np.array([[-np.inf, np.inf]] * dim)
        if self.dom is not None:
            s.set_domain(self.dom.copy())
        self.init = c15.Model(m["init"], dim)
        s.set_prob_type_init(self.init.m["kind"])
        s.set_prob_parameters_init(self.init.params)
        if m["law"]["kind"] == "voronoi":
            self.prob, self.vol = normalized(m["law"]["prob"]), normalized(m["law"]["vol"])
            s.set_probabilities(self.prob.copy())
            s.set_volumes(self.vol.copy())
            s.set_prob_type("voronoi")
        else:
            self.law = c15.Model(m["law"], dim)
            s.set_prob_type(self.law.m["kind"])
            s.set_prob_parameters(self.law.params)

    def pdf(self, x, init):
        """(density, clear?)"""
        if init:
            return self.init.pdf(x), True
        if self.m["law"]["kind"] == "voronoi":
            own, clear = o.nearest(x, self.values)
            return self.prob[own] / (self.vol[own] * np.prod(self.dom[:, 1] - self.dom[:, 0])), clear
        return self.law.pdf(x), True

    def marginal(self, x, i, init):
        if init:
            return self.init.marginal(x, i)
        if self.m["law"]["kind"] == "voronoi":
            return o.kde(self.values[:, i], self.prob, None)(x)
        return self.law.marginal(x, i)


def user_function(p, q, scale=1.0):
    return scale * float(np.max(np.abs(np.asarray(p) - 2.0 * np.asarray(q))))


def args(f):
    if f == "mink3":
        return "mink", dict(p=3)
    if f == "fn":
        return user_function, dict(scale=3.0)
    return f, {}


def formula(f, p, q, normalize, factor, lone_factor):
    """lone_factor: the factor applied to the plain norms."""
    f = SAME.get(f, f)
    if normalize:
        if p.sum() <= 0 or q.sum() <= 0:
            return None
        p, q, factor, lone_factor = p / p.sum(), q / q.sum(), 1.0, 1.0
    d = np.abs(p - q)
    if f in ("tv", "totvar", "total variation", "1"):
        return 0.5 * factor * d.sum()
    if f in ("2", "euclidean"):
        return np.sqrt(factor * (d ** 2).sum())
    if f in ("mink", "norm"):
        return lone_factor * np.sqrt((d ** 2).sum())
    if f == "mink3":
        return lone_factor * (d ** 3).sum() ** (1 / 3.0)
    h = 0.5 * factor * ((np.sqrt(p) - np.sqrt(q)) ** 2).sum()
    if f == "sqhell":
        return h
    if f in ("hell", "hellinger"):
        return np.sqrt(h)
    if f in ("kl", "entropy"):
        if p.sum() <= 0 or q.sum() <= 0:
            return None
        p, q = p / p.sum(), q / q.sum()
        if np.any((p > 0) & (q == 0)):
            return np.inf
        k = p > 0
        return float(np.sum(p[k] * np.log(p[k] / q[k])))
    return user_function(p, q, 3.0)


@st.composite
def histories(draw):
    dim = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(sizes(2, 6))):
        k = draw(st.sampled_from(["set", "set_obj", "int", "dist", "dist", "dist", "marg", "marg", "eval"]))
        if k in ("set", "set_obj"):
            ops.append([k, draw(st.integers(1, 12)), draw(SEED)])
        elif k == "int":
            ops.append([k, draw(st.sampled_from([1, 5, 5, 300, 300, 10000])), draw(st.sampled_from([0.0, 0.5, 2.0]))])
        elif k == "dist":
            ops.append([k, draw(st.sampled_from(FUNCS)), draw(st.booleans())])
        elif k == "marg":
            ops.append([k, draw(st.integers(0, dim - 1)), draw(st.sampled_from(FUNCS)), draw(st.booleans()),
                        draw(st.sampled_from([None, [-2.0, 1.5]])), draw(st.sampled_from([None, 7, 40])),
                        draw(st.sampled_from([0.0, 0.25, 1.5]))])
        else:
            ops.append([k])
    return dict(dim=dim, a=draw(measure(dim)), b=draw(measure(dim)), same=draw(st.integers(0, 5)) == 0,
                inits=[draw(st.booleans()), draw(st.booleans())], host=draw(st.sampled_from(["set", "set", "in", "out"])),
                mixed=draw(st.integers(0, 3)) == 0, ops=ops)


def wrap(s, host):
    import bet.sample as samp
    if host == "set":
        return s
    other = gen.plain_set(np.zeros((s.check_num(), 5)), 5)
    return samp.discretization(s, other) if host == "in" else samp.discretization(other, s)


def make(c):
    import bet.postProcess.compareP as cp
    A = Measure(c["a"], c["dim"])
    B = Measure(c["a"] if c["same"] else c["b"], c["dim"])
    i1, i2 = c["inits"][0], c["inits"][0] if c["same"] else c["inits"][1]
    kw = {}
    if i1:
        kw["set1_init"] = True
    if i2:
        kw["set2_init"] = True
    if c["host"] == "out":
        kw["inputs"] = False

    def new(x, y, **k):
        return cp.compare(wrap(x.set, c["host"]), wrap(y.set, "set" if c.get("mixed") else c["host"]), **k)
    if c["host"] != "set":
        # the other half of the discretization has another dimension
        import bet.sample as samp
        for a, b in ((A, B), (B, A)):
            raises(samp.dim_not_matching, lambda: cp.compare(a.set, wrap(b.set, c["host"]), **dict(kw, inputs=c["host"] == "out")), "sets of different dimension")
            raises(samp.dim_not_matching, lambda: cp.compare(wrap(a.set, c["host"]), b.set, **dict(kw, inputs=c["host"] == "out")), "sets of different dimension")
    fwd = new(A, B, **kw)
    back = dict(kw)
    back.pop("set1_init", None), back.pop("set2_init", None)
    if i2:
        back["set1_init"] = True
    if i1:
        back["set2_init"] = True
    return A, B, i1, i2, fwd, new(B, A, **back)


def num(x):
    check(x is not None and np.ndim(x) == 0, "a distance is one number", got=x)
    return float(x)


def history(c, t):
    import bet.sample as samp
    A, B, i1, i2, cmp_, rev = make(c)
    dim = c["dim"]
    pts = None
    raises(samp.wrong_input, lambda: cmp_.distance(), "distance without comparison points")
    for op in c["ops"]:
        if op[0] == "set" or op[0] == "set_obj":
            x = np.random.RandomState(op[2]).normal(size=(op[1], dim)) * 1.5
            arg = x.copy() if op[0] == "set" else gen.plain_set(x, dim)
            if op[0] == "set_obj" and op[2] % 2:
                arg = samp.sample_set(dim)
                arg.set_values_local(part(x.copy()))
            cmp_.set_compare_set(arg)
            rev.set_compare_set(arg)
            pts = x
        elif op[0] == "int":
            if op[1] == 10000:
                cmp_.set_compare_set()
                op = ["int", 10000, 0.0]
            else:
                cmp_.set_compare_set(op[1], compare_factor=op[2])
            x = np.array(cmp_.compare_vals)
            check(x.shape == (op[1], dim), "number of random comparison points", got=x.shape)
            both = np.concatenate([A.values, B.values])
            lo, hi = both.min(axis=0), both.max(axis=0)
            d = op[2] * (hi - lo)
            lo, hi = lo - d, hi + d
            check(bool(np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9)), "comparison points lie in the box of both sets",
                  got=[x.min(axis=0), x.max(axis=0)], want=[lo, hi])
            if op[1] >= 300:
                from scipy.stats import kstest
                for i in range(dim):
                    pv = kstest((x[:, i] - lo[i]) / (hi[i] - lo[i]), "uniform", method="asymp").pvalue
                    check(pv > 1e-9, "comparison points are uniform in the box of both sets, coordinate %d" % i, p=pv)
                t.label("random points")
            rev.set_compare_set(x.copy())
            pts = x
        elif op[0] == "eval" and pts is not None:
            cmp_.evaluate_pdfs()
            p, c1 = A.pdf(pts, i1)
            q, c2 = B.pdf(pts, i2)
            if c1 and c2:
                close(cmp_.pdfs1, p, "densities of the first measure", rtol=1e-7)
                close(cmp_.pdfs2, q, "densities of the second measure", rtol=1e-7)
                check(cmp_.pdfs_zero == np.count_nonzero((np.asarray(cmp_.pdfs1) == 0) & (np.asarray(cmp_.pdfs2) == 0)),
                      "number of points outside both supports")
        elif op[0] == "dist" and pts is not None:
            p, c1 = A.pdf(pts, i1)
            q, c2 = B.pdf(pts, i2)
            if not (c1 and c2):
                t.label("ambiguous")
                continue
            want = formula(op[1], p, q, op[2], 1.0 / len(p), 1.0 / len(p))
            if want is None or not np.isfinite(want):
                continue
            f, kw = args(op[1])
            if op[1] == "tv" and not op[2]:
                got = num(cmp_.distance())
            else:
                got = num(cmp_.distance(f, normalize=op[2], **kw))
            close(got, want, "distance %s, normalize=%s" % (op[1], op[2]), rtol=1e-6, atol=1e-9)
            if op[1] in SYM:
                check(got >= 0, "distances are nonnegative", got=got)
                close(num(rev.distance(f, normalize=op[2], **kw)), want, "distance %s the other way round" % op[1], rtol=1e-6, atol=1e-9)
                if c["same"]:
                    check(abs(got) < 1e-9, "distance of a measure to itself", got=got)
            t.nontrivial(want > 1e-6)
            t.label(op[1])
        elif op[0] == "marg":
            _, i, fn, norm, interval, npts, cf = op
            if interval is None:
                finite = (A.dom is not None and B.dom is not None and np.all(np.isfinite([A.dom[i], B.dom[i]])))
                if finite:
                    lo, hi = min(A.dom[i, 0], B.dom[i, 0]), max(A.dom[i, 1], B.dom[i, 1])
                else:
                    v = np.concatenate([A.values[:, i], B.values[:, i]])
                    lo, hi = v.min(), v.max()
                d = cf * (hi - lo)
                lo, hi = lo - d, hi + d
            else:
                lo, hi = interval
            x = np.linspace(lo, hi, npts or 1000)
            p, q = A.marginal(x, i, i1), B.marginal(x, i, i2)
            want = formula(fn, p, q, norm, (hi - lo) / len(x), 1.0)
            if want is None or not np.isfinite(want):
                continue
            f, kw = args(fn)
            if interval is not None:
                kw["interval"] = interval
            if npts is not None:
                kw["num_points"] = npts
            got = num(cmp_.distance_marginal(i, **dict(kw, **dict(([("compare_factor", cf)] if cf else []) + ([("normalize", True)] if norm else []) +
                                                              ([] if fn == "tv" else [("functional", f)])))))
            if any(z.m["law"]["kind"] == "rv" or z.m["init"]["kind"] == "rv" for z in (A, B)):
                # a sample exactly on the edge of a support counts either way
                edge = any(abs(v) < 1e-9 for v in edges(A, i, i1, x) + edges(B, i, i2, x))
                if edge:
                    t.label("edge of a support")
                    continue
            close(got, want, "marginal distance %s of coordinate %d" % (fn, i), rtol=1e-6, atol=1e-9)
            if fn in SYM:
                close(num(rev.distance_marginal(i, compare_factor=cf, normalize=norm, functional=f, **kw)), want,
                      "marginal distance the other way round", rtol=1e-6, atol=1e-9)
            t.nontrivial(want > 1e-6)
            t.label("marginal " + fn)
    same(A.set.get_values(), A.values, "the sets compared are unchanged")


def edges(M, i, init, x):
    """Distances of the evaluation points from the edges of the support of a one-dimensional law."""
    m = M.m["init"] if init else M.m["law"]
    if m["kind"] != "rv":
        return []
    k, a = m["laws"][i]
    if k == "norm":
        return []
    loc, sc = a.get("loc", 0.0), a.get("scale", 1.0)
    return list(np.abs(x - loc)) + list(np.abs(x - loc - sc))


# ------------------------------------------------------------ quadrature
@st.composite
def quad_cases(draw):
    dim = draw(st.integers(1, 2))
    smooth = dict(init_kinds=("gmm", "kde"))
    return dict(dim=dim, a=draw(measure(dim, ("gmm", "kde"), **smooth)), b=draw(measure(dim, ("gmm", "kde"), **smooth)), same=False,
                inits=[draw(st.integers(0, 3)) == 3, draw(st.integers(0, 3)) == 3], host="set", i=draw(st.integers(0, dim - 1)),
                fn=draw(st.sampled_from(["tv", "1", "2", "euclidean", "norm", "sqhell", "hell", "fn", "kl", "kl", "total-variation", "2-norm", "sqhellinger", "kullback-leibler"])),
                interval=draw(st.sampled_from([None, None, [-2.0, 2.5]])), cf=draw(st.sampled_from([0.0, 0.25])))


def quad(c, t):
    A, B, i1, i2, cmp_, rev = make(c)
    i = c["i"]
    if c["interval"] is None:
        if A.dom is not None and B.dom is not None and np.all(np.isfinite([A.dom[i], B.dom[i]])):
            lo, hi = min(A.dom[i, 0], B.dom[i, 0]), max(A.dom[i, 1], B.dom[i, 1])
        else:
            v = np.concatenate([A.values[:, i], B.values[:, i]])
            lo, hi = v.min(), v.max()
        d = c["cf"] * (hi - lo)
        lo, hi = lo - d, hi + d
    else:
        lo, hi = c["interval"]
    x = np.linspace(lo, hi, 8001)
    p, q = A.marginal(x, i, i1), B.marginal(x, i, i2)
    name = SAME.get(c["fn"], c["fn"])

    def integral(v):
        return float(np.sum((v[1:] + v[:-1]) / 2) * (x[1] - x[0]))
    h = integral(0.5 * (np.sqrt(p) - np.sqrt(q)) ** 2)
    want = {"tv": 0.5 * integral(np.abs(p - q)), "2": np.sqrt(integral((p - q) ** 2)), "norm": integral(p - q),
            "sqhell": h, "hell": np.sqrt(h), "fn": integral((p - 3 * q) ** 2)}
    if name == "kl":
        if min(p.min(), q.min()) < 1e-200:
            t.label("kl skipped")
            return
        want["kl"] = integral(p * np.log(p / q))
    want["1"], want["euclidean"] = want["tv"], want["2"]
    want = want[name]
    f = (lambda u, v: (u - 3 * v) ** 2) if c["fn"] == "fn" else c["fn"]
    got = num(cmp_.distance_marginal_quad(i, interval=c["interval"], compare_factor=c["cf"], functional=f))
    close(got, want, "integrated marginal distance %s" % c["fn"], rtol=5e-2, atol=1e-2)
    t.nontrivial(abs(want) > 0.05)
    t.label(c["fn"])


def rejects(c, t):
    import bet.sample as samp, bet.postProcess.compareP as cp
    dim = c["dim"]
    a, b = gen.plain_set(np.zeros((2, dim)), dim), gen.plain_set(np.zeros((2, dim + 1)), dim + 1)
    raises(samp.dim_not_matching, lambda: cp.compare(a, b), "sets of different dimension")
    raises(samp.wrong_input, lambda: cp.compare(a, c["junk"]), "not a sample set")
    raises(samp.wrong_input, lambda: cp.compare(c["junk"], a), "not a sample set")
    m = cp.compare(a, a.copy())
    raises(samp.dim_not_matching, lambda: m.set_compare_set(b), "comparison set of another dimension")
    raises(samp.dim_not_matching, lambda: m.set_compare_set(np.zeros((3, dim + 1))), "comparison points of another dimension")
    raises(samp.wrong_input, lambda: m.set_compare_set("x"), "comparison points of the wrong type")
    t.nontrivial()


PROP = Prop("C25", "statistical distances", [
    Sub("history", histories(), history, quick=1200, thorough=50000, rule="non-trivial: a distance above 1e-6 was compared"),
    Sub("quad", quad_cases(), quad, quick=200, thorough=5000, rule="non-trivial: a distance above 0.05 was compared"),
    Sub("rejects", st.fixed_dictionaries(dict(dim=st.integers(1, 3), junk=st.sampled_from([None, 1, "s"]))), rejects,
        quick=9, thorough=9, rule="all"),
], assumptions=["integrated distances are compared to 1e-2 (non-smooth integrands)",
                "infinite or undefined divergences are skipped", "random comparison points tested for uniformity at level 1e-9"])
