"""Generators and builders of BET objects from JSON-able descriptions."""
import numpy as np
from hypothesis import strategies as st
from vp.core import SEED, sizes, points, domains, weights, in_domain, normalized, layout

PNORMS = [2.0, 1.0, 3.0, "inf"]


def pn(p):
    return np.inf if p == "inf" else float(p)


@st.composite
def box_family(draw, dim, max_boxes=4):
    """Disjoint boxes: grid-aligned slabs along the first coordinate of [0,1]^dim."""
    n = draw(st.integers(1, max_boxes))
    cuts = sorted(draw(st.lists(st.integers(0, 64), min_size=2 * n, max_size=2 * n, unique=True)))
    out = []
    for i in range(n):
        lo, hi = [cuts[2 * i] / 64.0], [cuts[2 * i + 1] / 64.0]
        for _ in range(dim - 1):
            a = draw(st.integers(0, 60))
            b = draw(st.integers(a + 1, 64))
            lo.append(a / 64.0)
            hi.append(b / 64.0)
        out.append([lo, hi])
    if draw(st.booleans()):
        out.reverse()
    return out


@st.composite
def measure_cells(draw, dim, max_cells=7, kinds=("voronoi", "rectangle", "cartesian")):
    """Description of a discretized measure on [0,1]^dim."""
    kind = draw(st.sampled_from(list(kinds)))
    d = dict(kind=kind, dim=dim)
    if kind == "voronoi":
        m = draw(sizes(1, max_cells, big=300 if max_cells >= 7 else None))
        d["values"] = draw(points(m, dim))
        d["p"] = draw(st.sampled_from(PNORMS))
        n = m
    elif kind == "rectangle":
        d["boxes"] = draw(box_family(dim))
        n = len(d["boxes"]) + 1
    else:
        edges = []
        n = 1
        for _ in range(dim):
            e = sorted(draw(st.lists(st.integers(0, 64), min_size=2, max_size=4, unique=True)))
            edges.append([k / 64.0 for k in e])
            n *= len(e) - 1
        d["edges"] = edges
        n += 1
    d["mass"] = draw(weights(n))
    d["norm"] = draw(st.booleans())
    return d


def build_measure(d):
    import bet.sample as samp
    dim = d["dim"]
    if d["kind"] == "voronoi":
        s = samp.sample_set(dim)
        s.set_values(layout(d["values"]))
        s.set_p_norm(pn(d["p"]))
    elif d["kind"] == "rectangle":
        s = samp.rectangle_sample_set(dim)
        s.setup(maxes=[b[1] for b in d["boxes"]], mins=[b[0] for b in d["boxes"]])
    else:
        s = samp.cartesian_sample_set(dim)
        s.setup([np.array(e) for e in d["edges"]])
    m = np.array(d["mass"])
    s.set_probabilities(m / m.sum() if d["norm"] else m)
    s.set_domain(np.array([[0.0, 1.0]] * dim))
    return s


def measure_mass(d):
    m = np.array(d["mass"])
    return m / m.sum() if d["norm"] else m


def measure_owner(d, x):
    """(cell index of each point, unambiguous?) -- for cartesian grids cells are identified by geometry,
    in the order in which the grid lists its cells (see cartesian_boxes)."""
    from vp import oracles as o
    if d["kind"] == "voronoi":
        return o.nearest(x, d["values"], pn(d["p"]))
    if d["kind"] == "rectangle":
        return o.rect_owner(x, d["boxes"])
    raise ValueError(d["kind"])


def cartesian_boxes(edges):
    """All product cells, in no particular order."""
    import itertools
    cells = [list(zip(e[:-1], e[1:])) for e in edges]
    return [([c[0] for c in cell], [c[1] for c in cell]) for cell in itertools.product(*cells)]


def plain_set(values, dim, p=2.0, domain=None, **arrays):
    import bet.sample as samp
    s = samp.sample_set(dim)
    s.set_values(layout(np.array(values, float).reshape(-1, dim)))
    if pn(p) != 2.0:        # the documented default
        s.set_p_norm(pn(p))
    if domain is not None:
        s.set_domain(np.array(domain, float))
    return s


@st.composite
def points_about(draw, boxes, n, lo=-0.1, hi=1.1):
    """n points, most of them strictly inside one of the boxes."""
    dim = len(boxes[0][0])
    if n > 40:
        rs = np.random.RandomState(draw(SEED))
        f = rs.random_sample((n, dim))
        b = rs.randint(-1, len(boxes), n)
        return [[(lo + (hi - lo) * x if k < 0 else boxes[k][0][i] + (boxes[k][1][i] - boxes[k][0][i]) * x)
                 for i, x in enumerate(row.tolist())] for k, row in zip(b, f)]
    out = []
    for _ in range(n):
        b = draw(st.integers(-1, len(boxes) - 1))
        f = [draw(st.integers(1, 996)) / 997.0 for _ in range(dim)]
        if b < 0:
            out.append([lo + (hi - lo) * x for x in f])
        else:
            out.append([l + (h - l) * x for l, h, x in zip(boxes[b][0], boxes[b][1], f)])
    return out


def seed(k):
    """Seed numpy's generator for one case; processes of a parallel run get different streams."""
    import bet.Comm
    np.random.seed((k + 7919 * bet.Comm.comm.Get_rank()) % 2 ** 32)
