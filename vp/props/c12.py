"""C12: simple-function output measures are probability measures with the stated support."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o
from vp.props.c06 import cell_areas, interval_lengths


# ------------------------------------------------------------------ common pieces
def wrap(case, data):
    """The data set as an array, a sample set or a discretization, and the reference value where it is stored."""
    import bet.sample as samp
    dim = data.shape[1]
    if case["as"] == "array":
        return data.copy()
    s = gen.plain_set(data, dim)
    if case.get("ref_stored"):
        s.set_reference_value(np.array(case["ref"]))
    if case.get("prior"):       # the data set may carry results of earlier work
        s.set_probabilities(np.arange(1.0, len(data) + 1) / 64.0)
        s.set_volumes(np.arange(1.0, len(data) + 1) / 32.0)
        s.set_domain(np.stack([data.min(axis=0) - 1, data.max(axis=0) + 1], axis=1))
    if case["as"] == "set":
        return s
    inp = gen.plain_set([[float(i)] for i in range(len(data))], 1)
    if case.get("prior"):
        inp.set_reference_value(np.array([0.5]))
    d = samp.discretization(inp, s)
    if case.get("old_measure"):
        old = gen.plain_set([data[0]], dim)
        old.set_probabilities(np.array([1.0]))
        d.set_output_probability_set(old)
        d.set_io_ptr()
    return d


def refarg(case):
    if case.get("ref_stored") and case["as"] != "array":
        return {}
    return dict(Q_ref=np.array(case["ref"]))


def attached(case, dset, measure, data):
    """On a discretization the measure becomes its output measure, with the pointers of the data into it."""
    if case["as"] != "disc":
        return
    check(dset.get_output_probability_set() is measure, "the measure is the output measure of the discretization")
    _, ptr = measure.query(data)
    same(np.ravel(whole(dset._io_ptr_local)), np.ravel(ptr), "pointers of the outputs into the measure")
    if dset.get_io_ptr() is not None:
        same(np.ravel(dset.get_io_ptr()), np.ravel(ptr), "global pointers of the outputs into the measure")
    same(dset.get_output_sample_set().get_values(), data, "data unchanged")


def is_measure(p, n, what):
    check(p is not None and np.shape(p) == (n,), what + ": one probability per cell", got=np.shape(p), want=n)
    check(np.all(np.asarray(p) >= 0), what + ": nonnegative", got=p)
    close(np.sum(p), 1.0, what + ": sums to one")


def sized(draw, dim, elem, unit=1.0):
    """A scalar or one value per dimension, as list, tuple or array."""
    how = draw(st.sampled_from(["scalar", "list", "array", "tuple"]))
    unit = 1.0 if 0.1 <= unit <= 10 else unit
    v = draw(elem) * unit if how == "scalar" else [draw(elem) * unit for _ in range(dim)]
    return dict(how=how, v=v)


def arg(d):
    return {"scalar": lambda v: v, "list": list, "array": np.array, "tuple": tuple}[d["how"]](d["v"])


def corners(case, lo, hi):
    """Two opposite corners of the box, in either order."""
    flip = np.array(case["flip"][:len(lo)])
    return np.array([np.where(flip, hi, lo), np.where(flip, lo, hi)])


def scale_arg(case):
    return {} if case["size"]["how"] == "default" else dict(rect_scale=arg(case["size"]))


def per_dim(d, dim):
    return np.array([d["v"]] * dim if d["how"] in ("scalar", "default") else d["v"], float)


@st.composite
def common(draw, max_dim=3, min_n=1):
    dim = draw(st.integers(1, max_dim))
    dom = draw(domains(dim, iso=True))
    n = draw(sizes(min_n, 10, big=700))
    return dict(dim=dim, unit=max(b - a for a, b in dom), prior=draw(st.booleans()), data=in_domain(draw(points(n, dim)), dom).tolist(), ref=in_domain(draw(points(1, dim))[0], dom).tolist(),
                ref_stored=draw(st.booleans()), old_measure=draw(st.booleans()),
                flip=draw(st.sampled_from([[False] * 3, [False] * 3, [True] * 3, [True, False, True]])), **{"as": draw(st.sampled_from(["array", "set", "disc"]))})


# ------------------------------------------------------------------ regular partitions
SIZE = st.sampled_from([0.25, 1.0, 2.0, 0.5, 3.5])


@st.composite
def regular_cases(draw):
    c = draw(common(min_n=2))
    c["how"] = draw(st.sampled_from(["size", "scaled", "domain"]))
    c["size"] = sized(draw, c["dim"], SIZE, c["unit"] if c["how"] != "scaled" else 1.0)
    c["cells"] = sized(draw, c["dim"], st.sampled_from([1, 2, 3, 4, 3, 2, 12] if c["dim"] < 3 else [1, 2, 3, 4]))
    if c["cells"]["how"] == "scalar":
        c["cells"]["v"] = min(c["cells"]["v"], 3 if c["dim"] > 2 else 16)
    if c["how"] == "scaled" and draw(st.integers(0, 5)) == 0:
        c["size"] = dict(how="default", v=1.0)
    c["transposed"] = draw(st.booleans())
    c["probe"] = draw(points(8, c["dim"], lo=-0.25, hi=1.25))
    return c


def regular(case, t):
    import bet.calculateP.simpleFunP as sfun
    dim, data = case["dim"], np.array(case["data"])
    if np.any(np.ptp(data, axis=0) < 1e-3 * case["unit"]):
        return
    dset = wrap(case, data)
    kw = {} if case["cells"]["how"] == "scalar" and case["cells"]["v"] == 1 else dict(cells_per_dimension=arg(case["cells"]))
    size = per_dim(case["size"], dim)
    if case["how"] == "size":
        m = sfun.regular_partition_uniform_distribution_rectangle_size(dset, rect_size=arg(case["size"]), **dict(kw, **refarg(case)))
        lo, hi = np.array(case["ref"]) - size / 2, np.array(case["ref"]) + size / 2
    elif case["how"] == "scaled":
        m = sfun.regular_partition_uniform_distribution_rectangle_scaled(dset, **dict(kw, **scale_arg(case),  **refarg(case)))
        size = size * np.ptp(data, axis=0)
        lo, hi = np.array(case["ref"]) - size / 2, np.array(case["ref"]) + size / 2
    else:
        lo, hi = np.array(case["ref"]), np.array(case["ref"]) + size
        dom = corners(case, lo, hi)
        if case["transposed"] and dim != 2:
            dom = dom.T
        m = sfun.regular_partition_uniform_distribution_rectangle_domain(dset, dom, **kw)
    counts = per_dim(case["cells"], dim).astype(int)
    edges = [np.linspace(lo[i], hi[i], counts[i] + 1) for i in range(dim)]
    boxes = gen.cartesian_boxes(edges)
    nb = len(boxes)
    p = m.get_probabilities()
    is_measure(p, nb + 1, "regular partition")
    scale = np.max(np.abs(np.concatenate([lo, hi])))
    # the edges of a small box far from the origin are themselves rounded
    slack = 1e-9 + 1e-14 * scale * counts.max() / size.min()
    if slack > 1e-3:
        t.label("box lost in rounding")
        return
    close(np.asarray(p)[:-1], np.full(nb, 1.0 / nb), "equal cells share the probability equally", rtol=slack)
    close(p[-1], 0.0, "no probability outside the box")
    centres = np.array([(np.array(b[0]) + np.array(b[1])) / 2 for b in boxes])
    listed = np.asarray(m.get_values())[:-1]
    check(listed.shape == centres.shape, "cells requested", got=listed.shape, want=centres.shape)
    order = o.pdist(listed, centres, 2.0).argmin(axis=1)
    check(sorted(order.tolist()) == list(range(nb)), "every cell of the grid once")
    close(listed, centres[order], "cell centres", atol=1e-10 * scale)
    probe = lo + np.array(case["probe"]) * (hi - lo)
    own, clear = o.rect_owner(probe, [boxes[j] for j in order], gap=1e-12 * scale)
    if clear:
        _, ptr = m.query(probe)
        same(np.ravel(ptr), own, "the cells cover exactly the box")
    close(m.get_domain(), np.stack([lo, hi], axis=1), "the domain of the measure is the box", atol=1e-10 * scale)
    attached(case, dset, m, data)
    t.nontrivial(nb > 1)
    t.label(case["how"], case["as"], "size given as " + case["size"]["how"])


# ------------------------------------------------------------------ random partitions, uniform measure
@st.composite
def uniform_cases(draw):
    c = draw(common(max_dim=2, min_n=2))
    c["how"] = draw(st.sampled_from(["size", "scaled", "domain"]))
    c["size"] = sized(draw, c["dim"], SIZE, c["unit"] if c["how"] != "scaled" else 1.0)
    if c["how"] == "scaled" and draw(st.integers(0, 5)) == 0:
        c["size"] = dict(how="default", v=0.2)
    c["M"] = draw(sizes(1, 9, big=129))
    c["N"] = draw(st.sampled_from([1000, 3000, 2000.0]))
    c["seed"] = draw(SEED)
    return c


def uniform(case, t):
    import bet.calculateP.simpleFunP as sfun
    dim, data = case["dim"], np.array(case["data"])
    if np.any(np.ptp(data, axis=0) < 1e-3 * case["unit"]):
        return
    dset = wrap(case, data)
    size = per_dim(case["size"], dim)
    gen.seed(case["seed"])
    kw = dict(M=case["M"], num_d_emulate=case["N"])
    if case["how"] == "size":
        m = sfun.uniform_partition_uniform_distribution_rectangle_size(dset, rect_size=arg(case["size"]), **dict(kw, **refarg(case)))
    elif case["how"] == "scaled":
        m = sfun.uniform_partition_uniform_distribution_rectangle_scaled(dset, **dict(kw, **scale_arg(case), **refarg(case)))
        size = size * np.ptp(data, axis=0)
    if case["how"] != "domain":
        lo, hi = np.array(case["ref"]) - size / 2, np.array(case["ref"]) + size / 2
    else:
        lo, hi = np.array(case["ref"]), np.array(case["ref"]) + size
        m = sfun.uniform_partition_uniform_distribution_rectangle_domain(dset, corners(case, lo, hi), **kw)
    v = np.asarray(m.get_values())
    check(v.shape == (case["M"], dim), "number of cells requested", got=v.shape)
    mid, half = (lo + hi) / 2, 0.75 * (hi - lo)
    check(np.all(np.abs(v - mid) <= half * (1 + 1e-9)), "cells are taken from the box enlarged by half", values=v)
    p = np.asarray(m.get_probabilities())
    is_measure(p, case["M"], "uniform measure")
    dom = np.stack([lo, hi], axis=1)
    want = true_fractions(v, dom)
    n = float(case["N"])
    check(np.all(np.abs(p - want) <= 6.5 * np.sqrt(want * (1 - want) / n) + 3.0 / n),
          "each cell has the share of the box it covers", got=p, want=want)
    check(np.all(p[want < 1e-9] == 0), "cells away from the box have no probability", got=p, want=want)
    attached(case, dset, m, data)
    t.nontrivial(case["M"] > 2 and np.count_nonzero(p) > 1)
    t.label(case["how"], case["as"])


def true_fractions(v, dom):
    """Share of the box dom nearest to each of v (which may lie outside)."""
    if dom.shape[0] == 2:
        return cell_areas(v, dom)
    order = np.argsort(v[:, 0])
    x = v[order, 0]
    edges = np.concatenate([[-np.inf], (x[1:] + x[:-1]) / 2, [np.inf]])
    edges = np.clip(edges, dom[0, 0], dom[0, 1])
    out = np.zeros(len(v))
    out[order] = np.diff(edges) / (dom[0, 1] - dom[0, 0])
    return out


# ------------------------------------------------------------------ normal measures
@st.composite
def normal_cases(draw):
    c = draw(common(max_dim=2, min_n=1))
    c["part"] = draw(st.sampled_from(["uniform", "normal"]))
    c["std"] = sized(draw, c["dim"], st.sampled_from([0.25, 1.0, 2.0]), c["unit"])
    c["M"] = draw(sizes(1, 7, big=129))
    c["N"] = draw(st.sampled_from([1000, 4000]))
    c["seed"] = draw(SEED)
    c["ref_as"] = draw(st.sampled_from(["array", "list"]))
    return c


def normal(case, t):
    import scipy.stats as stats
    import bet.calculateP.simpleFunP as sfun
    dim, data = case["dim"], np.array(case["data"])
    dset = wrap(case, data)
    std, ref = per_dim(case["std"], dim), np.array(case["ref"])
    kw = dict(std=arg(case["std"]), M=case["M"], num_d_emulate=case["N"])
    kw.update(refarg(case))
    if "Q_ref" in kw and case["ref_as"] == "list":
        kw["Q_ref"] = list(kw["Q_ref"])
    gen.seed(case["seed"])
    f = sfun.uniform_partition_normal_distribution if case["part"] == "uniform" else sfun.normal_partition_normal_distribution
    m = f(dset, **kw)
    v = np.asarray(m.get_values())
    check(v.shape == (case["M"], dim), "number of cells requested", got=v.shape)
    if case["part"] == "uniform":
        check(np.all(np.abs(v - ref) <= 2 * std * (1 + 1e-9)), "cells within two standard deviations of the centre", values=v, ref=ref)
    else:
        check(np.all(np.abs(v - ref) <= 7 * std), "cells drawn from the normal law", values=v, ref=ref)
    p = np.asarray(m.get_probabilities())
    is_measure(p, case["M"], "normal measure")
    # reference: the normal mass of the cells, by quadrature on equal-mass strata
    k = 20001 if dim == 1 else 151
    z = stats.norm.ppf((np.arange(k) + 0.5) / k)
    grid = np.array(list(itertools.product(z, repeat=dim))) if dim > 1 else z[:, None]
    own, _ = o.nearest(ref + std * grid, v, 2.0)
    want = o.fractions(own, case["M"])
    n = float(case["N"])
    quad = 2.0 / k if dim == 1 else 4.0 / k
    check(np.all(np.abs(p - want) <= 6.5 * np.sqrt((want + quad) * (1 - want + quad) / n) + 3.0 / n + quad),
          "each cell has the normal probability of its region", got=p, want=want)
    attached(case, dset, m, data)
    t.nontrivial(case["M"] > 1)
    t.label(case["part"], case["as"])


# ------------------------------------------------------------------ measures from data
@st.composite
def data_cases(draw):
    c = draw(common())
    dim = c["dim"]
    c["how"] = draw(st.sampled_from(["samples", "user", "user"]))
    dom = draw(domains(dim, iso=True))
    c["part"] = in_domain(draw(points(draw(sizes(1, 7, big=300)), dim)), dom).tolist()
    c["dist"] = in_domain(draw(points(draw(sizes(1, 30, big=700)), dim)), dom).tolist()
    c["part_as"] = draw(st.sampled_from(["array", "set", "disc"]))
    c["dist_as"] = draw(st.sampled_from(["array", "set", "disc"]))
    c["wrong_dim"] = draw(st.sampled_from(["no", "no", "no", "part", "dist"]))
    return c


def from_data(case, t):
    import bet.calculateP.simpleFunP as sfun
    dim, data = case["dim"], np.array(case["data"])
    dset = wrap(case, data)
    if case["how"] == "samples":
        m = sfun.uniform_partition_uniform_distribution_data_samples(dset)
        same(m.get_values(), data, "the cells are those of the data")
        is_measure(m.get_probabilities(), len(data), "data samples")
        close(m.get_probabilities(), np.full(len(data), 1.0 / len(data)), "every sample has the same probability")
        if case["as"] != "array":
            own = dset if case["as"] == "set" else dset.get_output_sample_set()
            check(m is not own, "the measure is a set of its own")
            if case["prior"]:
                same(own.get_probabilities(), np.arange(1.0, len(data) + 1) / 64.0, "the data set itself is left alone")
                same(own.get_volumes(), np.arange(1.0, len(data) + 1) / 32.0, "the data set itself is left alone")
            else:
                check(own.get_probabilities() is None, "the data set itself is left alone")
        attached(case, dset, m, data)
        t.nontrivial(len(data) > 1)
        return
    part, dist = np.array(case["part"]), np.array(case["dist"])
    own, clear = o.nearest(dist, part, 2.0)
    if not clear:
        t.label("ambiguous")
        return
    bad = np.zeros((3, dim + 1))
    a = wrap({"as": case["part_as"]}, bad if case["wrong_dim"] == "part" else part)
    b = wrap({"as": case["dist_as"]}, bad if case["wrong_dim"] == "dist" else dist)
    if case["wrong_dim"] != "no":
        raises(sfun.wrong_argument_type, lambda: sfun.user_partition_user_distribution(dset, a, b), "sets of another dimension")
        t.label("rejected")
        return
    m = sfun.user_partition_user_distribution(dset, a, b)
    for thing, arr in ((dset, data), (a, part), (b, dist)):
        if isinstance(thing, np.ndarray):
            same(thing, arr, "the arrays given are left alone")
            continue
        own_set = thing if hasattr(thing, "get_values") else thing.get_output_sample_set()
        check(m is not own_set, "the measure is a set of its own")
        same(own_set.get_values(), arr, "the sets given are left alone")
        if thing is not dset or not case["prior"]:
            check(own_set.get_probabilities() is None, "the sets given are left alone")
        else:
            same(own_set.get_probabilities(), np.arange(1.0, len(data) + 1) / 64.0, "the data set itself is left alone")
    same(m.get_values(), part, "the cells are those given")
    is_measure(m.get_probabilities(), len(part), "user distribution")
    close(m.get_probabilities(), o.fractions(own, len(part)), "fraction of the samples nearest to each cell")
    attached(case, dset, m, data)
    t.nontrivial(len(set(own.tolist())) > 1)
    t.label(case["part_as"] + "/" + case["dist_as"])


PROP = Prop("C12", "simple-function output measures", [
    Sub("regular", regular_cases(), regular, quick=1000, thorough=30000, rule="non-trivial: several cells"),
    Sub("uniform", uniform_cases(), uniform, quick=600, thorough=20000, rule="non-trivial: three or more cells, several of positive probability"),
    Sub("normal", normal_cases(), normal, quick=300, thorough=8000, rule="non-trivial: two or more cells"),
    Sub("from_data", data_cases(), from_data, quick=1200, thorough=30000, rule="non-trivial: data in several cells"),
], assumptions=["sampled measures are judged at 6.5 standard deviations"])
