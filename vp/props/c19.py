"""C19: clusters around centres, finite-difference and radial-basis gradients."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o

KERNELS = [None, "C4Matern", "Gaussian", "Multiquadric", "InverseMultiquadric"]


# ------------------------------------------------------------------ clusters
@st.composite
def ball_cases(draw):
    dim = draw(st.integers(1, 3))
    n = draw(sizes(1, 5, big=129))
    dom = draw(domains(dim, iso=True))
    return dict(dim=dim, centers=draw(points(n, dim)), domain=dom, has_domain=draw(st.booleans()),
                close=draw(st.integers(1, 8)), radius=[draw(st.sampled_from([0.01, 0.1, 0.3, 0.5])) for _ in range(dim)],
                scalar=draw(st.booleans()), which=draw(st.sampled_from(["lp", "linf", "l1"])),
                p=draw(st.sampled_from([1.0, 2.0, 3.0, "inf"])))


def balls(c, t):
    import bet.sensitivity.gradients as g
    dim, dom = c["dim"], np.array(c["domain"])
    w = dom[:, 1] - dom[:, 0]
    cen = in_domain(c["centers"], dom)
    s = gen.plain_set(cen, dim, 2.0, dom if c["has_domain"] else None)
    rad = c["radius"][0] * w.min() if c["scalar"] else np.array(c["radius"]) * w
    p = gen.pn(c["p"]) if c["which"] == "lp" else (np.inf if c["which"] == "linf" else 1.0)
    f = {"lp": lambda: g.sample_lp_ball(s, c["close"], rad, **({} if p == 2.0 else dict(p_num=p))), "linf": lambda: g.sample_linf_ball(s, c["close"], rad),
         "l1": lambda: g.sample_l1_ball(s, c["close"], rad)}[c["which"]]
    r = f()
    v, k, n = r.get_values(), c["close"], len(cen)
    check(v.shape == (n * (k + 1), dim), "number of points", got=v.shape)
    same(v[:n], cen, "the centres come first")
    for i in range(n):
        e = (v[n + i * k:n + (i + 1) * k] - cen[i]) / rad
        d = o.pdist(e, np.zeros((1, dim)), p)[:, 0]
        check(bool(np.all(d <= 1 + 1e-9)), "cluster %d lies in the ball about centre %d" % (i, i), got=d)
    if c["has_domain"]:
        check(bool(np.all(v >= dom[:, 0]) and np.all(v <= dom[:, 1])), "points lie in the domain")
        close(r.get_domain(), dom, "domain")
    check(r.check_num() == len(v), "consistent set")
    same(s.get_values(), cen, "the centres are not altered")
    if k > 1:
        check(len(np.unique(v[n:], axis=0)) == n * k, "points of a cluster differ")
    t.nontrivial(n > 1)
    t.label(c["which"])


# ------------------------------------------------------------------ finite differences
@st.composite
def fd_cases(draw):
    dim, dout = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    n = draw(sizes(1, 6, big=129))
    return dict(dim=dim, dout=dout, centers=draw(points(n, dim)), domain=draw(domains(dim, iso=True)), has_domain=draw(st.booleans()),
                steps=[draw(st.sampled_from([0.125, 0.25, 0.5, 1.0, -0.25, -1.0])) for _ in range(dim)], seed=draw(SEED),
                zero=draw(st.booleans()), normalize=draw(st.booleans()), bad=draw(st.sampled_from([None, None, "nan", "inf"])), unit=draw(st.sampled_from([0, 0, 0, -30, 20])))


class Map(object):
    def __init__(self, c, quadratic):
        rs = np.random.RandomState(c["seed"])
        d, m = c["dim"], c["dout"]
        self.a, self.b = rs.randint(-8, 9, size=(m, d)) / 4.0, rs.randint(-8, 9, size=m) / 4.0
        self.h = rs.randint(-4, 5, size=(m, d, d)) / 4.0 if quadratic else np.zeros((m, d, d))
        self.h = self.h + self.h.transpose(0, 2, 1)
        if c["zero"]:
            j = rs.randint(m)
            self.a[j] = 0
            self.h[j] = 0
        u = 2.0 ** c.get("unit", 0)                 # the outputs in other units
        self.a, self.b, self.h = u * self.a, u * self.b, u * self.h

    def __call__(self, x):
        return x @ self.a.T + 0.5 * np.einsum("ni,mij,nj->nm", x, self.h, x) + self.b

    def jac(self, x):
        return self.a[None] + np.einsum("mij,nj->nmi", self.h, x)


def unit(j):
    s = np.abs(j).sum(axis=2, keepdims=True)
    return j / np.where(s == 0, 1.0, s)


def compare(got, jac, normalize, what, rtol=1e-7, atol=1e-8, noise=0.0, unit_=1.0):
    """noise: the rounding of the data over the step; unit_: the scale of the outputs."""
    if not normalize:
        close(got, jac, what, rtol=rtol, atol=atol * unit_ + noise)
        return
    want = unit(jac)
    # directions of vectors that vanish up to rounding are not defined
    ok = np.abs(jac).sum(axis=2) > max(1e-6 * unit_, 1e7 * noise)
    got = np.asarray(got, float)
    check(got.shape == want.shape, what + ": shape", got=got.shape, want=want.shape)
    close(got[ok], want[ok], what, rtol=rtol, atol=1e-7)


def differences(c, t, central):
    import bet.sample as samp
    import bet.sensitivity.gradients as g
    dim, dom = c["dim"], np.array(c["domain"])
    cen = in_domain(c["centers"], dom)
    n = len(cen)
    s = gen.plain_set(cen, dim, 2.0, dom if c["has_domain"] else None)
    step = np.array(c["steps"])
    keep = step.copy()
    r = (g.pick_cfd_points if central else g.pick_ffd_points)(s, step.tolist() if c["zero"] else step)
    same(step, keep, "the steps are not altered")
    v = r.get_values()
    per = dim * (2 if central else 1)
    want = [cen]
    for i in range(n):
        want.append(cen[i] + np.diag(step))
        if central:
            want.append(cen[i] - np.diag(step))
    want = np.concatenate(want)
    close(v, want, "stencil points, centre by centre")
    same(s.get_values(), cen, "the centres are not altered")
    if c["has_domain"]:
        close(r.get_domain(), dom, "domain of the stencil")
    M = Map(c, central)
    data = M(v)
    out = samp.sample_set(c["dout"])
    out.set_values(layout(data))
    out.set_domain(np.array([[-99.0, 99.0]] * c["dout"]))
    disc = samp.discretization(r, out)
    kw = {} if c["normalize"] and c["seed"] % 2 else dict(normalize=c["normalize"])     # normalizing is the default
    res = (g.calculate_gradients_cfd if central else g.calculate_gradients_ffd)(disc, **kw)
    i, q = res.get_input_sample_set(), res.get_output_sample_set()
    close(i.get_values(), cen, "centres of the result")
    close(q.get_values(), data[:n], "outputs at the centres")
    close(q.get_domain(), [[-99.0, 99.0]] * c["dout"], "output domain")
    if c["has_domain"]:
        close(i.get_domain(), dom, "input domain of the result")
    compare(i.get_jacobians(), M.jac(cen), c["normalize"], "jacobians", rtol=1e-7, atol=1e-7, noise=1e-14 * np.abs(data).max() / np.abs(step).min(),
            unit_=2.0 ** c["unit"])
    if c["normalize"]:
        z = np.abs(M.jac(cen)).sum(axis=2) == 0
        check(bool(np.all(np.isfinite(i.get_jacobians()))), "finite jacobians")
        t.label("zero gradient" if z.any() else "no zero gradient")
        flat = np.all(M.a == 0, axis=1) & np.all(M.h == 0, axis=(1, 2))
        check(not np.any(np.asarray(i.get_jacobians())[:, flat]), "a constant output has gradient zero")
    same(disc.get_output_sample_set().get_values(), data, "the data are not altered")
    if c["bad"] is not None:
        # undefined outputs do not alter the caller's data
        bad = data.copy()
        bad[-1, 0] = np.nan if c["bad"] == "nan" else np.inf
        out.set_values(bad.copy())
        f = g.calculate_gradients_cfd if central else g.calculate_gradients_ffd
        got = f(disc, normalize=c["normalize"]).get_input_sample_set().get_jacobians()
        left = disc.get_output_sample_set().get_values()
        check(np.array_equal(left, bad, equal_nan=True), "undefined data are left in place", got=left, want=bad)
        if c["bad"] == "nan":
            bad[-1, 0] = 0.0
            out.set_values(bad)
            close(got, f(disc, normalize=c["normalize"]).get_input_sample_set().get_jacobians(), "outputs that are not a number count as zero", nan_equal=True)
    t.nontrivial(n > 1 and dim > 1 and c["dout"] > 1)


def forward(c, t):
    differences(c, t, False)


def centered(c, t):
    differences(c, t, True)


# ------------------------------------------------------------------ radial basis functions
def phi(r, k, ep):
    e = ep * r
    if k in (None, "C4Matern"):
        return (1 + e + e ** 2 / 3.0) * np.exp(-e)
    if k == "Gaussian":
        return np.exp(-e ** 2)
    if k == "Multiquadric":
        return np.sqrt(1 + e ** 2)
    return 1 / np.sqrt(1 + e ** 2)


def slope_over_r(r, k, ep):
    """phi'(r) / r."""
    e = ep * r
    if k in (None, "C4Matern"):
        return -ep ** 2 / 3.0 * (1 + e) * np.exp(-e)
    if k == "Gaussian":
        return -2 * ep ** 2 * np.exp(-e ** 2)
    if k == "Multiquadric":
        return ep ** 2 / np.sqrt(1 + e ** 2)
    return -ep ** 2 / (1 + e ** 2) ** 1.5


@st.composite
def kernel_cases(draw):
    return dict(kernel=draw(st.sampled_from(KERNELS)), ep=draw(st.sampled_from([None, 0.5, 1.0, 2.0, 3.0])),
                r=draw(st.lists(st.integers(0, 400), min_size=1, max_size=6)), f=draw(st.integers(0, 100)))


def kernels(c, t):
    import bet.sensitivity.gradients as g
    r = np.array(c["r"]) / 100.0
    ep = 1.0 if c["ep"] is None else c["ep"]
    k = None if c["kernel"] is None else "".join(list(c["kernel"]))     # an equal string, not the same object
    close(g.radial_basis_function(r.copy(), k, c["ep"]), phi(r, k, ep), "kernel %s" % k)
    xi = r * c["f"] / 100.0
    close(g.radial_basis_function_dxi(r.copy(), xi.copy(), k, c["ep"]), slope_over_r(r, k, ep) * xi, "derivative of kernel %s" % k)
    # consistent with one another: central difference along one coordinate
    h = 1e-5
    y2 = np.maximum(r ** 2 - xi ** 2, 0)
    num = (phi(np.sqrt(y2 + (xi + h) ** 2), k, ep) - phi(np.sqrt(y2 + (xi - h) ** 2), k, ep)) / (2 * h)
    close(g.radial_basis_function_dxi(r.copy(), xi.copy(), k, c["ep"]), num, "derivative of kernel %s" % k, rtol=1e-3, atol=1e-4)
    raises(ValueError, lambda: g.radial_basis_function(r, "other"), "an unknown kernel")
    raises(ValueError, lambda: g.radial_basis_function_dxi(r, xi, "other"), "an unknown kernel")
    t.nontrivial(ep != 1.0)
    t.label(str(k))


@st.composite
def rbf_cases(draw):
    dim, dout = draw(dims(3, 6)), draw(st.integers(1, 3))
    n = draw(sizes(dim + 3, 14, big=129))
    nc = draw(st.one_of(st.none(), st.integers(1, 4)))
    return dict(dim=dim, dout=dout, values=draw(points(n, dim)), scale=draw(st.sampled_from([1.0, 3.0])), kernel=draw(st.sampled_from(KERNELS)),
                ep=draw(st.sampled_from([None, 0.5, 1.0, 2.0, 4.0])), neighbors=draw(st.one_of(st.none(), st.integers(2, 6))),
                centers=nc, normalize=draw(st.booleans()), seed=draw(SEED), p=draw(st.sampled_from(gen.PNORMS)),
                domain=draw(st.booleans()))


def rbf(c, t):
    import bet.sample as samp
    import bet.sensitivity.gradients as g
    dim, dout = c["dim"], c["dout"]
    x = np.array(c["values"]) * c["scale"]
    n = len(x)
    k = dim + 2 if c["neighbors"] is None else min(c["neighbors"], n)
    nc = n // (dim + 2) if c["centers"] is None else min(c["centers"], n)
    ep = 1.0 if c["ep"] is None else c["ep"]
    kern = "Gaussian" if c["kernel"] is None else c["kernel"]
    f = np.random.RandomState(c["seed"]).normal(size=(n, dout))
    jac = np.zeros((nc, dout, dim))
    for a in range(nc):
        d = o.pdist(x[[a]], x, gen.pn(c["p"]))[0]
        order = np.argsort(d, kind="stable")
        if k < n and d[order[k]] - d[order[k - 1]] < 1e-9:
            t.label("tie")
            return
        nb = order[:k]
        P = phi(o.pdist(x[nb], x[nb], 2.0), kern, ep)
        if np.linalg.cond(P) > 1e5:
            t.label("ill conditioned")
            return
        coef = np.linalg.solve(P, f[nb])
        e = x[a] - x[nb]
        r = np.sqrt((e ** 2).sum(axis=1))
        jac[a] = np.einsum("km,k,ki->mi", coef, slope_over_r(r, kern, ep), e)
    inp = gen.plain_set(x, dim, c["p"], [[0, c["scale"]]] * dim if c["domain"] else None)
    out = gen.plain_set(f, dout, 2.0, [[-9.0, 9.0]] * dout if c["domain"] else None)
    disc = samp.discretization(inp, out)
    res = g.calculate_gradients_rbf(disc, num_centers=c["centers"] and nc, num_neighbors=None if c["neighbors"] is None else k,
                                    RBF=None if c["kernel"] is None else "".join(list(c["kernel"])), ep=c["ep"],
                                    **({} if c["normalize"] and c["seed"] % 2 else dict(normalize=c["normalize"])))
    i, q = res.get_input_sample_set(), res.get_output_sample_set()
    close(i.get_values(), x[:nc], "centres of the result")
    close(q.get_values(), f[:nc], "outputs at the centres")
    if c["domain"]:
        close(i.get_domain(), [[0, c["scale"]]] * dim, "input domain of the result")
        close(q.get_domain(), [[-9.0, 9.0]] * dout, "output domain of the result")
    compare(i.get_jacobians(), jac, c["normalize"], "gradients of the interpolant", rtol=1e-6, atol=1e-6 * (1 + np.abs(jac).max()))
    same(inp.get_values(), x, "inputs are not altered")
    same(out.get_values(), f, "data are not altered")
    t.nontrivial(ep != 1.0 or c["p"] != 2.0)
    t.label(str(c["kernel"]), "ep=%s" % c["ep"])


PROP = Prop("C19", "gradient estimates", [
    Sub("balls", ball_cases(), balls, quick=400, thorough=15000, rule="non-trivial: several centres"),
    Sub("forward", fd_cases(), forward, quick=400, thorough=15000, rule="non-trivial: several centres, inputs and outputs"),
    Sub("centered", fd_cases(), centered, quick=400, thorough=15000, rule="non-trivial: several centres, inputs and outputs"),
    Sub("kernels", kernel_cases(), kernels, quick=300, thorough=5000, rule="non-trivial: shape parameter other than one"),
    Sub("rbf", rbf_cases(), rbf, quick=600, thorough=25000, rule="non-trivial: shape parameter other than one or p-norm other than 2"),
], assumptions=["radial-basis systems of condition above 1e5 and ties among neighbours are skipped (labels)"])
