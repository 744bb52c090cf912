"""C06: cell volumes are correct and sum to one."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


# ------------------------------------------------------------------ oracles
def clip_half_plane(poly, a, b):
    """Part of the convex polygon with a.x <= b."""
    out = []
    for i in range(len(poly)):
        p, q = poly[i], poly[(i + 1) % len(poly)]
        fp, fq = np.dot(a, p) - b, np.dot(a, q) - b
        if fp <= 0:
            out.append(p)
        if (fp < 0 < fq) or (fq < 0 < fp):
            out.append(p + (q - p) * (fp / (fp - fq)))
    return out


def area(poly):
    if len(poly) < 3:
        return 0.0
    x, y = np.array(poly)[:, 0], np.array(poly)[:, 1]
    return 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


def cell_areas(vals, dom):
    vals = np.asarray(vals, float)
    box = [np.array([dom[0][i], dom[1][j]], float) for i, j in ((0, 0), (1, 0), (1, 1), (0, 1))]
    out = []
    for i in range(len(vals)):
        poly = box
        for j in range(len(vals)):
            if j != i and len(poly):
                # |x - vi|^2 <= |x - vj|^2, coordinates relative to vi
                d = vals[j] - vals[i]
                poly = clip_half_plane(poly, 2 * d, np.dot(d, d) + 2 * np.dot(d, vals[i]))
        out.append(area(poly))
    return np.clip(np.array(out) / np.prod(np.asarray(dom)[:, 1] - np.asarray(dom)[:, 0]), 0.0, 1.0)


def check_volumes(s, want, what, rtol=1e-7, atol=1e-9):
    close(s.get_volumes(), want, what, rtol=rtol, atol=atol)
    close(whole(s.get_volumes_local()), want, what + " (local)", rtol=rtol, atol=atol)
    close(np.sum(s.get_volumes()), 1.0, what + ": sum", rtol=1e-7)


# ------------------------------------------------------------------ exact volumes
@st.composite
def exact_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2]))
    n = draw(sizes(1, 14, big=None if dim == 2 else 700))
    style = draw(st.sampled_from(["free", "lattice", "cluster", "boundary"]))
    if style == "lattice":
        k = draw(st.sampled_from([3, 4, 8]))
        n = min(n, k ** dim)
        pts = draw(st.lists(st.tuples(*[st.integers(0, k - 1)] * dim), min_size=n, max_size=n, unique=True))
        u = [[(c + 0.5) / k for c in p] for p in pts]
    elif style == "boundary":
        n = min(n, 4 ** dim)
        pts = draw(st.lists(st.tuples(*[st.integers(0, 8)] * dim), min_size=n, max_size=n, unique=True))
        u = [[c / 8.0 for c in p] for p in pts]
    else:
        u = draw(points(n, dim, lo=1 / 128.0, hi=127 / 128.0))
        if style == "cluster":
            c = [draw(st.integers(0, 9)) / 10.0 for _ in range(dim)]
            u = [[ci + (xi / 12.0) for ci, xi in zip(c, x)] for x in u]
    return dict(dim=dim, u=u, style=style, domain=draw(domains(dim, iso=True)), local=draw(st.booleans()), again=draw(st.booleans()))


def exact(case, t):
    dim, dom = case["dim"], np.array(case["domain"])
    u = np.array(case["u"], float)
    if len(u) > 1 and np.min(o.pdist(u, u, 2.0) + 9 * np.eye(len(u))) < (1e-4 if dim > 1 else 1e-7):
        t.label("near duplicates")
        return
    x = in_domain(u, dom)
    # the samples must not leave the domain by rounding
    x = np.minimum(np.maximum(x, dom[:, 0]), dom[:, 1])
    s = gen.plain_set(x, dim, 2.0, dom)
    if case["local"]:
        s.global_to_local()
    if case["again"]:
        s.estimate_volume_mc()
    if dim == 1:
        order = np.argsort(x[:, 0])
        edges = np.concatenate([[dom[0, 0]], (x[order, 0][1:] + x[order, 0][:-1]) / 2, [dom[0, 1]]])
        want = np.zeros(len(x))
        want[order] = np.diff(edges) / (dom[0, 1] - dom[0, 0])
        s.exact_volume_1D()
    else:
        want = cell_areas(x, dom)
        s.exact_volume_2D()
    check_volumes(s, want, "exact volume fractions", rtol=1e-6, atol=1e-8)
    same(s.get_values(), x, "sample values are not changed")
    t.nontrivial(len(x) > 2 and np.ptp(want) > 1e-3)
    t.label("dim%d %s" % (dim, case["style"]))


# ------------------------------------------------------------------ volumes from points
@st.composite
def emulated_cases(draw):
    dim = draw(dims(4, 6))
    n, m = draw(sizes(1, 9, big=513)), draw(sizes(1, 40, big=700))
    if draw(st.integers(0, 30)) == 30:       # long sets of points are drawn from a seed
        return dict(dim=dim, u=draw(points(min(n, 60), dim)), seed=draw(SEED), m=draw(st.sampled_from([3000, 6000, 12000])), p=draw(st.sampled_from(gen.PNORMS)),
                    em_local=draw(st.booleans()), via=draw(st.sampled_from(["set", "input", "output"])))
    return dict(dim=dim, u=draw(points(n, dim)), pts=draw(points(m, dim, lo=-0.1, hi=1.1)), p=draw(st.sampled_from(gen.PNORMS)),
                em_local=draw(st.booleans()), via=draw(st.sampled_from(["set", "input", "output"])))


def emulated(case, t):
    import bet.sample as samp
    dim = case["dim"]
    if "m" in case:
        case = dict(case, pts=np.random.RandomState(case["seed"]).random_sample((case["m"], dim)) * 1.2 - 0.1)
        t.label("thousands of points")
    own, clear = o.nearest(case["pts"], case["u"], gen.pn(case["p"]))
    if not clear:
        t.label("ambiguous")
        return
    want = o.fractions(own, len(case["u"]))
    s = gen.plain_set(case["u"], dim, case["p"], [[0, 1]] * dim)
    em = gen.plain_set(case["pts"], dim, 2.0, [[0, 1]] * dim)
    if case["em_local"]:
        em.global_to_local()
    if case["via"] == "set":
        s.estimate_volume_emulated(em)
    else:
        other = gen.plain_set([[float(i)] for i in range(len(case["u"]))], 1)
        if case["via"] == "input":
            d = samp.discretization(s, other, emulated_input_sample_set=em)
            d.estimate_input_volume_emulated()
        else:
            d = samp.discretization(other, s, emulated_output_sample_set=em)
            d.estimate_output_volume_emulated()
        check(other.get_volumes() is None, "the other set is not touched")
    check_volumes(s, want, "fraction of the points nearest to each sample", rtol=1e-12)
    same(em.get_values(), np.array(case["pts"]), "points are not changed")
    t.nontrivial(len(set(own.tolist())) > 1)


# ------------------------------------------------------------------ random estimates
@st.composite
def random_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2]))
    return dict(dim=dim, u=draw(points(draw(sizes(1, 8)), dim, lo=1 / 64.0, hi=63 / 64.0)), domain=draw(domains(dim, iso=True)), seed=draw(SEED),
                n=draw(st.sampled_from([1000, 2500, 4001])), how=draw(st.sampled_from(["volume", "radii_and_volume", "mc"])),
                normalize=draw(st.booleans()), times=draw(st.integers(1, 2)))


def random_volumes(case, t):
    dim, dom = case["dim"], np.array(case["domain"])
    u = np.array(case["u"])
    if len(u) > 1 and np.min(o.pdist(u, u, 2.0) + 9 * np.eye(len(u))) < 1e-3:
        return
    x = in_domain(u, dom)
    s = gen.plain_set(x, dim, 2.0, dom)
    n = case["n"]
    gen.seed(case["seed"])
    for _ in range(case["times"]):
        if case["how"] == "mc":
            s.estimate_volume_mc()
            close(s.get_volumes(), np.full(len(x), 1.0 / len(x)), "Monte Carlo assumption: equal volumes")
            close(whole(s.get_volumes_local()), np.full(len(x), 1.0 / len(x)), "Monte Carlo assumption: equal local volumes")
            l = gen.plain_set(x, dim, 2.0, dom)
            l.global_to_local()
            l.estimate_volume_mc(globalize=False)
            close(whole(l.get_volumes_local()), np.full(len(x), 1.0 / len(x)), "equal local volumes without globalizing")
            continue
        if case["how"] == "volume":
            s.estimate_volume(n_mc_points=n)
        else:
            s.estimate_radii_and_volume(n_mc_points=n, normalize=case["normalize"])
        v = np.array(s.get_volumes())
        want = cell_areas(x, dom) if dim == 2 else interval_lengths(x, dom)
        check(v.shape == want.shape and np.all(v >= 0), "nonnegative volume per cell", got=v)
        close(v.sum(), 1.0, "volumes sum to one")
        close(whole(s.get_volumes_local()), v, "local volumes")
        close(v * n, np.round(v * n), "volumes are fractions of the points used", atol=1e-6)
        sd = np.sqrt(want * (1 - want) / n)
        check(np.all(np.abs(v - want) <= 6.5 * sd + 3.0 / n), "estimate agrees with the true volume", est=v, want=want)
    same(s.get_values(), x, "sample values are not changed")
    t.nontrivial(len(x) > 1)
    t.label(case["how"])


def interval_lengths(x, dom):
    order = np.argsort(x[:, 0])
    edges = np.concatenate([[dom[0, 0]], (x[order, 0][1:] + x[order, 0][:-1]) / 2, [dom[0, 1]]])
    want = np.zeros(len(x))
    want[order] = np.diff(edges) / (dom[0, 1] - dom[0, 0])
    return want


# ------------------------------------------------------------------ radii
@st.composite
def radii_cases(draw):
    dim = draw(st.sampled_from([1, 1, 2, 3]))
    return dict(dim=dim, u=draw(points(draw(sizes(1, 7)), dim, lo=1 / 64.0, hi=63 / 64.0)), domain=draw(domains(dim, iso=True)), seed=draw(SEED),
                p=draw(st.sampled_from(gen.PNORMS)), normalize=draw(st.booleans()), both=draw(st.booleans()))


def radii(case, t):
    dim, dom, p = case["dim"], np.array(case["domain"]), gen.pn(case["p"])
    u = np.array(case["u"])
    x = in_domain(u, dom)
    s = gen.plain_set(x, dim, case["p"], dom)
    gen.seed(case["seed"])
    n = 8000
    (s.estimate_radii_and_volume if case["both"] else s.estimate_radii)(n_mc_points=n, normalize=case["normalize"])
    got = s._normalized_radii if case["normalize"] else s._radii
    check(got is not None and np.shape(got) == (len(x),), "one radius per cell", got=got)
    check((s._radii if case["normalize"] else s._normalized_radii) is None, "only the requested kind of radius is set")
    rs = np.random.RandomState(99)
    q = rs.random_sample((16000, dim))
    own, _ = o.nearest(in_domain(q, dom), x, p)
    a, b = (q, u) if case["normalize"] else (in_domain(q, dom), x)
    wide = 1.0 if case["normalize"] else np.max(dom[:, 1] - dom[:, 0])
    diam = o.pdist([[0.0] * dim], [(np.ones(dim) if case["normalize"] else dom[:, 1] - dom[:, 0])], p)[0, 0]
    seen = 0
    for i in range(len(x)):
        m = own == i
        c = np.count_nonzero(m)
        if c < 400:
            continue
        seen += 1
        want = np.max(o.pdist(a[m], [b[i]], p))
        # distance between the largest of two samples of the same law: corner regions of a 25/c share of the cell
        slack = diam * (30.0 / n if dim == 1 else 1.3 * (30.0 / n) ** (1.0 / dim))
        check(abs(got[i] - want) <= slack, "cell radius is the largest distance from the sample within its cell",
              got=got[i], want=want, slack=slack, cell=i)
    t.nontrivial(seen > 1)
    t.label("normalized" if case["normalize"] else "raw")


# ------------------------------------------------------------------ local volume estimate
@st.composite
def local_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    k = draw(st.sampled_from([2, 3]))
    cells = draw(st.lists(st.tuples(*[st.integers(0, k - 1)] * dim), min_size=1, max_size=5, unique=True))
    u = [[(c + draw(st.integers(2, 8)) / 10.0) / k for c in cell] for cell in cells]
    a = draw(domains(1))[0]
    return dict(dim=dim, u=u, a=a, seed=draw(SEED), p=draw(st.sampled_from([2.0, 2.0, 1.0, "inf"])), given_radii=draw(st.booleans()),
                factor=[draw(st.sampled_from([1.1, 1.5, 2.0])) for _ in u], none=draw(st.integers(0, 5)) == 0, num=draw(st.sampled_from([None, 400, 3000, 3000])))


def local_volumes(case, t):
    dim = case["dim"]
    dom = np.array([case["a"]] * dim)
    p = gen.pn(case["p"])
    u = np.array(case["u"])
    x = in_domain(u, dom)
    m = {1: 4000, 2: 300, 3: 45}[dim]
    q = (np.indices((m,) * dim).reshape(dim, -1).T + 0.5) / m
    dist = o.pdist(q, u, p)
    d = np.sort(dist, axis=1)
    if d.shape[1] > 1 and np.mean(d[:, 1] - d[:, 0] < 1e-9) > 0.01:
        t.label("ties")       # cells of positive overlap, as can happen for the 1- and infinity-norm
        return
    own = dist.argmin(axis=1)
    want = o.fractions(own, len(u))
    reach = np.array([dist[own == i, i].max() for i in range(len(u))])
    s = gen.plain_set(x, dim, case["p"], dom)
    gen.seed(case["seed"])
    if case["given_radii"]:      # each large enough for its own cell
        s._normalized_radii = (reach + 2.0 * dim / m) * np.array(case["factor"])
        if case.get("none") and len(u) > 3:       # a radius that was never found
            s._normalized_radii[0] = 0.0
            far = o.pdist(u, u, p)[0]
            if np.std(far[far > 0]) < 1e-3:
                t.label("no spread")
                return
    num = case["num"] or 500
    top = 1e5 if num == 3000 else 1e4
    kw = {} if case["num"] is None else dict(num_emulate_local=num, max_num_emulate=top)
    s.estimate_local_volume(**kw)
    v = np.array(s.get_volumes())
    check(v.shape == (len(x),) and np.all(v >= 0), "nonnegative volume per cell", got=v)
    close(v.sum(), 1.0, "volumes sum to one")
    close(whole(s.get_volumes_local()), v, "local volumes")
    same(s.get_values(), x, "sample values are not changed")
    if case["given_radii"] and np.any(np.asarray(s._normalized_radii) <= 0):
        check(np.all(v > 0), "cells without a known radius have a volume too", got=v)
        t.label("unknown radius")
        return
    # at least num points per cell, or top points in all
    rad = s._normalized_radii if case["given_radii"] else 1.5 * s._normalized_radii
    import math
    ball = (2.0 ** dim if np.isinf(p) else (2 * math.gamma(1 + 1 / p)) ** dim / math.gamma(1 + dim / p)) * rad ** dim
    count = np.minimum(float(num), top * want / ball)
    rel = 6.5 * np.max(1.0 / np.sqrt(count)) * 1.4
    check(np.all(np.abs(v - want) <= rel * want + (0.03 if dim == 3 else 0.01)), "local estimate agrees with the true volume", est=v, want=want, rel=rel)
    t.nontrivial(len(x) > 1 and rel < 0.6)
    t.label("p=%s" % case["p"], "rel<0.2" if rel < 0.2 else "rel>=0.2")


PROP = Prop("C06", "cell volumes", [
    Sub("exact", exact_cases(), exact, quick=900, thorough=30000,
        rule="non-trivial: three or more samples whose cells differ in volume by more than 0.001"),
    Sub("emulated", emulated_cases(), emulated, quick=1500, thorough=40000, rule="non-trivial: points fall in several cells"),
    Sub("random", random_cases(), random_volumes, quick=500, thorough=15000, rule="non-trivial: two or more cells"),
    Sub("radii", radii_cases(), radii, quick=400, thorough=10000, rule="non-trivial: two or more cells with enough points"),
    Sub("local", local_cases(), local_volumes, quick=250, thorough=3000, rule="non-trivial: two or more cells, tolerance below 60% of the volume"),
], assumptions=["random estimates are judged at 6.5 standard deviations (radii: at a slack missed with probability below 1e-10)",
                "exact planar volumes are for the Euclidean norm, with samples at least 1e-4 apart",
                "local estimates are compared on cubes, where normalized and original cells coincide"])
