"""C05: rectangle, ball and Cartesian cells own exactly the points they contain."""
import itertools
import math
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


def answer(s, x, own, outside, k, what):
    """First neighbour: the owning cell at distance 0, or the outside cell; all others: outside, infinitely far."""
    dist, ptr = (s.query(x) if k == 0 else s.query(x, k=k))
    kk = max(k, 1)
    shape = (len(x),) if kk == 1 else (len(x), kk)
    check(np.shape(dist) == shape and np.shape(ptr) == shape, what + ": shape", got=(np.shape(dist), np.shape(ptr)), want=shape)
    dist, ptr = np.reshape(dist, (-1, kk)), np.reshape(ptr, (-1, kk))
    same(ptr[:, 0], own, what + ": owning cell")
    same(dist[:, 0], np.where(own == outside, np.inf, 0.0), what + ": distance to the owning cell")
    if kk > 1:
        same(ptr[:, 1:], np.full((len(x), kk - 1), outside), what + ": no second owner")
        check(np.all(np.isinf(dist[:, 1:])), what + ": further cells are infinitely far", got=dist)


@st.composite
def rect_cases(draw):
    dim = draw(st.integers(1, 4))
    boxes = draw(gen.box_family(dim, max_boxes=5))
    return dict(dim=dim, boxes=boxes, x=draw(gen.points_about(boxes, draw(sizes(1, 12, big=700)))), domain=draw(domains(dim)),
                k=draw(st.integers(0, 4)), as_array=draw(st.booleans()), scatter=draw(st.booleans()))


def rectangles(case, t):
    import bet.sample as samp
    dim, dom = case["dim"], np.array(case["domain"])
    own, clear = o.rect_owner(case["x"], case["boxes"], gap=1e-7)
    if not clear:
        t.label("ambiguous")
        return
    hi = [in_domain(b[1], dom).tolist() for b in case["boxes"]]
    lo = [in_domain(b[0], dom).tolist() for b in case["boxes"]]
    if case["as_array"]:
        hi, lo = np.array(hi), np.array(lo)
    s = samp.rectangle_sample_set(dim)
    s.setup(maxes=hi, mins=lo)
    s.set_domain(dom.copy())
    nb = len(case["boxes"])
    check(s.check_num() == nb + 1, "one cell per rectangle and one for the rest", got=s.check_num())
    if case["scatter"]:
        s.global_to_local()
        s.local_to_global()
    x = in_domain(case["x"], dom)
    answer(s, x, own, nb, case["k"], "rectangles")
    vol = [float(np.prod(np.array(b[1]) - np.array(b[0]))) for b in case["boxes"]]
    vol = np.array(vol + [1.0 - sum(vol)])
    s.exact_volume_lebesgue()
    close(s.get_volumes(), vol, "exact volume fractions")
    close(np.sum(s.get_volumes()), 1.0, "volumes sum to one")
    close(s.get_values()[:-1], (np.array(hi) + np.array(lo)) / 2.0, "cell centres")
    same(s.get_region(), np.arange(nb + 1), "cell labels")
    check(not np.any(np.isfinite(s.get_values()[-1])), "the outside cell has no centre", got=s.get_values()[-1])
    em = gen.plain_set(x, dim)
    s.estimate_volume_emulated(em)
    close(s.get_volumes(), o.fractions(own, nb + 1), "emulated volume fractions")
    raises(samp.length_not_matching, lambda: samp.rectangle_sample_set(dim).setup(maxes=hi, mins=list(lo) + [lo[0]]),
           "different numbers of corners")
    raises(samp.length_not_matching, lambda: samp.rectangle_sample_set(dim + 1).setup(maxes=hi, mins=lo),
           "corners of another dimension")
    t.nontrivial(nb > 1 and len(set(own.tolist())) > 1)


@st.composite
def cart_cases(draw):
    dim = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 4]))
    edges = []
    fine = dim < 3 and draw(st.integers(0, 20)) == 20
    for _ in range(dim):
        if fine:
            e = list(range(draw(st.integers(0, 10)), draw(st.integers(27, 33))))
        else:
            e = sorted(draw(st.lists(st.integers(0, 32), min_size=2, max_size=5 if dim < 4 else 3, unique=True)))
        edges.append([k / 32.0 for k in e])
    unit = draw(st.sampled_from([1.0] * 4 + UNITS))
    n = draw(sizes(1, 14))
    xs = []
    for _ in range(n):
        r = []
        for e in edges:
            r.append(draw(st.one_of(st.integers(-50, 1050).map(lambda k: k / 1000.0), st.sampled_from(e))))
        xs.append(r)
    return dict(dim=dim, edges=edges, x=xs, k=draw(st.integers(0, 3)), unit=unit)


def cartesian(case, t):
    import bet.sample as samp
    dim, u = case["dim"], case.get("unit", 1.0)
    edges = [[v * u for v in e] for e in case["edges"]]
    s = samp.cartesian_sample_set(dim)
    s.setup([np.array(e) for e in edges])
    dom = np.array([[0.0, u]] * dim)
    s.set_domain(dom)
    boxes = gen.cartesian_boxes(edges)
    nb = len(boxes)
    check(s.check_num() == nb + 1, "exactly the product cells, and the rest", got=s.check_num(), want=nb + 1)
    centres = np.array([(np.array(b[0]) + np.array(b[1])) / 2 for b in boxes])
    listed = np.asarray(s.get_values())[:-1]
    order = o.pdist(listed, centres, 2.0).argmin(axis=1)
    check(sorted(order.tolist()) == list(range(nb)), "every product cell is listed once", got=listed)
    close(listed, centres[order], "cell centres")
    s.exact_volume_lebesgue()
    vol = np.array([float(np.prod((np.array(b[1]) - np.array(b[0])) / u)) for b in boxes])
    close(s.get_volumes(), np.append(vol[order], 1.0 - vol.sum()), "exact volume fractions")
    x = np.array(case["x"]) * u
    dist, ptr = s.query(x)
    same(dist, np.where(ptr == nb, np.inf, 0.0), "distance zero to the owner, infinite outside")
    owned = 0
    for r in range(len(x)):
        closed = [j for j, b in enumerate(boxes) if np.all(x[r] >= b[0]) and np.all(x[r] <= b[1])]
        strict = [j for j, b in enumerate(boxes) if np.all(x[r] > b[0]) and np.all(x[r] < b[1])]
        outer = any(x[r][d] in (edges[d][0], edges[d][-1]) for d in range(dim))
        got = int(ptr[r])
        if strict:
            check(got < nb and order[got] == strict[0], "a point inside a cell belongs to it", x=x[r], got=got)
            owned += 1
        elif not closed:
            check(got == nb, "a point outside the grid belongs to no cell", x=x[r], got=got)
        elif outer:
            check(got == nb or order[got] in closed, "a point on the rim belongs to a touching cell or outside", x=x[r], got=got)
        else:
            check(got < nb and order[got] in closed, "a point on an inner face belongs to one of the touching cells", x=x[r], got=got)
            t.label("inner face")
    if case["k"] > 1:
        d2, p2 = s.query(x, k=case["k"])
        same(np.asarray(p2)[:, 0], ptr, "first of several neighbours")
        same(np.asarray(p2)[:, 1:], np.full((len(x), case["k"] - 1), nb), "a point has only one owner")
    raises(samp.dim_not_matching, lambda: samp.cartesian_sample_set(dim + 1).setup([np.array(e) for e in edges]),
           "wrong number of edge lists")
    t.nontrivial(owned > 0 and nb > 1)


@st.composite
def ball_cases(draw):
    dim = draw(st.integers(1, 3))
    nb = draw(st.integers(1, 4))
    cells = draw(st.lists(st.tuples(*[st.integers(0, 2)] * dim), min_size=1, max_size=nb, unique=True))
    radii = [draw(st.integers(1, 31)) / 64.0 for _ in cells]
    xs = []
    for _ in range(draw(sizes(1, 12))):
        c = draw(st.integers(-1, len(cells) - 1))
        f = [draw(st.integers(-99, 99)) / 100.0 for _ in range(dim)]
        if c < 0:
            xs.append([1.0 + 1.5 * v for v in f])
        else:
            xs.append([cc + radii[c] * v * 1.2 for cc, v in zip(cells[c], f)])
    return dict(dim=dim, centres=[[float(v) for v in c] for c in cells], radii=radii, x=xs,
                p=draw(st.sampled_from(gen.PNORMS)), k=draw(st.integers(0, 4)))


def balls(case, t):
    import bet.sample as samp
    dim, p = case["dim"], gen.pn(case["p"])
    s = samp.ball_sample_set(dim)
    s.set_p_norm(p)
    s.setup(case["centres"], case["radii"])
    dom = np.array([[-0.5, 2.5]] * dim)
    s.set_domain(dom)
    nb = len(case["centres"])
    check(s.check_num() == nb + 1, "one cell per ball and one for the rest", got=s.check_num())
    close(s.get_values()[:-1], case["centres"], "centres")
    check(not np.any(np.isfinite(s.get_values()[-1])), "the outside cell has no centre", got=s.get_values()[-1])
    same(s.get_region(), np.arange(nb + 1), "cell labels")
    x, r = np.array(case["x"]), np.array(case["radii"])
    d = o.pdist(x, case["centres"], p)
    if np.any(np.abs(d - r) < 1e-9):
        t.label("ambiguous")
        return
    inside = d < r
    own = np.where(inside.any(axis=1), inside.argmax(axis=1), nb)
    answer(s, x, own, nb, case["k"], "balls")
    s.exact_volume()
    unit = 2.0 ** dim if np.isinf(p) else (2.0 * math.gamma(1 + 1 / p)) ** dim / math.gamma(1 + dim / p)
    vol = unit * r ** dim / 3.0 ** dim
    close(s.get_volumes(), np.append(vol, 1.0 - vol.sum()), "exact volume fractions")
    s.estimate_volume_emulated(gen.plain_set(x, dim))
    close(s.get_volumes(), o.fractions(own, nb + 1), "emulated volume fractions")
    raises(samp.length_not_matching, lambda: samp.ball_sample_set(dim).setup(case["centres"], case["radii"] + [1.0]),
           "different numbers of centres and radii")
    raises(samp.length_not_matching, lambda: samp.ball_sample_set(dim + 1).setup(case["centres"], case["radii"]),
           "centres of another dimension")
    t.nontrivial(nb > 1 and len(set(own.tolist())) > 1)
    t.label("p=%s" % case["p"])


@st.composite
def mc_cases(draw):
    return dict(kind=draw(st.sampled_from(["rectangle", "ball"])), dim=draw(st.integers(1, 3)), seed=draw(SEED),
                a=draw(st.integers(4, 24)) / 64.0, b=draw(st.integers(8, 31)) / 64.0, n=draw(st.sampled_from([2000, 4001])),
                domain=draw(domains(1))[0])


def monte_carlo(case, t):
    """Random estimates of the volume agree with the exact volume within sampling error."""
    import bet.sample as samp
    dim = case["dim"]
    d0, d1 = case["domain"]
    dom = np.array([[d0, d1]] * dim)
    if case["kind"] == "rectangle":
        s = samp.rectangle_sample_set(dim)
        s.setup(maxes=[in_domain([case["a"] + case["b"]] * dim, dom)], mins=[in_domain([case["a"]] * dim, dom)])
        s.set_domain(dom)
        s.exact_volume_lebesgue()
    else:
        s = samp.ball_sample_set(dim)
        s.setup([in_domain([0.5] * dim, dom)], [case["b"] * (d1 - d0)])
        s.set_domain(dom)
        s.exact_volume()
    exact = np.array(s.get_volumes())
    np.random.seed(case["seed"])
    s.estimate_volume(n_mc_points=case["n"])
    est = np.array(s.get_volumes())
    close(est.sum(), 1.0, "estimated volumes sum to one")
    check(np.all(est >= 0), "estimated volumes are nonnegative")
    sd = np.sqrt(exact * (1 - exact) / case["n"])
    check(np.all(np.abs(est - exact) <= 6.5 * sd + 2.0 / case["n"]), "estimate agrees with the exact volume", est=est, exact=exact)
    t.nontrivial(exact[0] > 0.005)


@st.composite
def overlap_cases(draw):
    dim, nb = draw(st.integers(1, 3)), draw(st.integers(1, 6))
    return dict(dim=dim, kind=draw(st.sampled_from(["rectangle", "ball"])), a=draw(points(nb, dim)),
                w=[[draw(st.integers(1, 140)) / 97.0 for _ in range(dim)] for _ in range(nb)], x=draw(points(draw(sizes(1, 12)), dim, lo=-0.2, hi=1.4)),
                k=draw(st.integers(1, 8)), p=draw(st.sampled_from(gen.PNORMS)), unit=draw(st.sampled_from([1.0] * 4 + UNITS)))


def overlap(case, t):
    """Of cells that overlap, a point is given only such as contain it, each once, as many as asked for if there are so many."""
    import bet.sample as samp
    dim, k, u = case["dim"], case["k"], case["unit"]
    a, w, x = np.array(case["a"]) * u, np.array(case["w"]) * u, np.array(case["x"]) * u
    nb = len(a)
    if case["kind"] == "rectangle":
        s = samp.rectangle_sample_set(dim)
        s.setup(maxes=layout(a + w), mins=layout(a))
        inside = np.all((x[:, None] > a) & (x[:, None] <= a + w), axis=2)
        if np.min(np.abs(np.concatenate([x[:, None] - a, x[:, None] - a - w]))) < 1e-9 * u:
            return
    else:
        s = samp.ball_sample_set(dim)
        s.set_p_norm(gen.pn(case["p"]))
        s.setup(layout(a), layout(w[:, 0]))
        d = o.pdist(x, a, gen.pn(case["p"]))
        inside = d < w[:, 0]
        if np.min(np.abs(d - w[:, 0])) < 1e-9 * u:
            return
    dist, ptr = s.query(layout(x), k=k)
    dist, ptr = np.reshape(dist, (-1, k)), np.reshape(ptr, (-1, k))
    check(dist.shape[0] == len(x) and ptr.shape[0] == len(x), "one answer per point")
    for r in range(len(x)):
        have = set(np.flatnonzero(inside[r]).tolist())
        m = min(k, len(have))
        got = ptr[r, :m].tolist()
        check(len(set(got)) == m and set(got) <= have, "cells containing the point, each once", x=x[r], got=ptr[r], want=sorted(have))
        same(ptr[r, m:], np.full(k - m, nb), "no further cell")
        same(dist[r], np.where(np.arange(k) < m, 0.0, np.inf), "distance zero to the cells containing the point")
    t.nontrivial(k > 1 and inside.sum(axis=1).max() > 1)


PROP = Prop("C05", "cells own their points", [
    Sub("rectangles", rect_cases(), rectangles, quick=1200, thorough=40000, rule="non-trivial: several rectangles, points in several cells"),
    Sub("cartesian", cart_cases(), cartesian, quick=1200, thorough=40000, rule="non-trivial: several grid cells and a point inside one"),
    Sub("balls", ball_cases(), balls, quick=1200, thorough=40000, rule="non-trivial: several balls, points in several cells"),
    Sub("overlap", overlap_cases(), overlap, quick=1000, thorough=20000, rule="non-trivial: several neighbours asked for and a point in several cells"),
    Sub("monte_carlo", mc_cases(), monte_carlo, quick=300, thorough=6000, rule="non-trivial: the cell has more than 0.5% of the volume"),
], assumptions=["volumes of rectangles and balls only for disjoint ones, as the classes document", "random estimates are judged at 6.5 standard deviations"])
