"""C27: the array helpers return the documented shape with exactly the given entries in order."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vp.core import *

NUM = st.one_of(st.integers(-50, 50), dyadic(-8, 8))


# ------------------------------------------------------------ tensor grids
@st.composite
def grids(draw):
    n = draw(st.integers(1, 10))
    top = {1: 7, 2: 6, 3: 5, 4: 4, 5: 3}.get(n, 2)
    return dict(X=[draw(st.lists(NUM, min_size=1, max_size=top)) for _ in range(n)],
                form=draw(st.sampled_from(["list", "arrays", "tuple"])), seed=draw(SEED))


def grid(c, t):
    import bet.util as util
    X = c["X"]
    if c["form"] != "list":
        X = [np.array(x) for x in X]
    if c["form"] == "tuple":
        X = tuple(X)
    got = util.meshgrid_ndim(X)
    want = np.array(list(itertools.product(*c["X"])), dtype=float)
    same(got, want, "tensor grid, last vector fastest")
    t.nontrivial(sum(1 for x in c["X"] if len(x) > 1) > 1)
    t.label("vectors=%d" % len(X), c["form"])


# ------------------------------------------------------------ shapes
@st.composite
def arrays(draw):
    nd = draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3]))
    shape = [draw(st.integers(1, 5)) for _ in range(nd)]
    if nd == 2 and draw(st.booleans()):
        shape[draw(st.integers(0, 1))] = 2
    k = int(np.prod(shape))
    return dict(shape=shape, flat=draw(st.lists(NUM, min_size=k, max_size=k)), form=draw(st.sampled_from(["array", "array", "list", "tuple"])),
                order=draw(st.sampled_from(["C", "F", "strided"])), dim=draw(st.integers(1, 5)), usedim=draw(st.booleans()))


def make(c):
    if not c["shape"]:
        return c["flat"][0], np.array(c["flat"])
    a = np.array(c["flat"]).reshape(c["shape"])
    if c["form"] == "array":
        x = a.copy()
        if c["order"] == "F":
            x = np.asfortranarray(x)
        elif c["order"] == "strided":
            x = np.repeat(x, 2, axis=0)[::2]
        return x, a
    x = a.tolist()
    return (tuple(map(lambda r: tuple(r) if isinstance(r, list) else r, x)) if c["form"] == "tuple" else x), a


def shapes(c, t):
    import bet.util as util
    x, a = make(c)
    nd = len(c["shape"])
    keep = np.array(x, copy=True)
    same(util.fix_dimensions_vector(x), a.ravel(), "vector of the entries in order")
    if nd <= 1:
        same(util.fix_dimensions_vector_2darray(x), a.reshape(-1, 1), "column of the entries in order")
        same(util.fix_dimensions_data(x), a.reshape(-1, 1), "data of dimension one")
    elif nd == 2:
        same(util.fix_dimensions_vector_2darray(x), a, "two-dimensional array kept")
        same(util.fix_dimensions_data(x), a, "data kept")
    # data of a given dimension: rows are samples; rows and columns are exchanged if only that fits
    if nd <= 2 and nd > 0:
        for dim in {c["dim"]} | set(c["shape"]):
            b = a.reshape(-1, 1) if nd == 1 else a
            want = b if b.shape[1] == dim else (b.T if b.shape[0] == dim else None)
            if want is not None:
                same(util.fix_dimensions_data(x, dim), want, "data of dimension %d" % dim)
    elif nd == 0:
        same(util.fix_dimensions_data(x, 1), a.reshape(1, 1), "one number is one sample of dimension one")
    # domains
    if c["shape"] == [2]:
        same(util.fix_dimensions_domain(x), a.reshape(1, 2), "interval")
    elif nd == 2 and c["shape"][1] == 2:
        same(util.fix_dimensions_domain(x), a, "box, one row per dimension")
    elif nd == 2 and c["shape"][0] == 2:
        same(util.fix_dimensions_domain(x), a.T, "box given by columns")
    elif nd > 0:
        raises(TypeError, lambda: util.fix_dimensions_domain(x), "not a box")
    same(np.array(x), keep, "the argument is left alone")
    t.nontrivial(nd > 0 and len(c["flat"]) > 1)
    t.label("shape of %d" % nd, c["form"])


# ------------------------------------------------------------ wrong dimensions are rejected
@st.composite
def wrongs(draw):
    return dict(n=draw(st.integers(1, 6)), cols=draw(st.integers(1, 6)), dim=draw(st.integers(1, 6)), local=draw(st.booleans()), seed=draw(SEED))


def wrong(c, t):
    import bet.sample as samp
    a = np.random.RandomState(c["seed"]).randn(c["n"], c["cols"])
    s = samp.sample_set(c["dim"])
    setter, getter = (s.set_values_local, s.get_values_local) if c["local"] else (s.set_values, s.get_values)
    if c["cols"] == c["dim"]:
        setter(a)
        same(getter(), a, "values as given")
    elif c["n"] == c["dim"]:
        setter(a)
        same(getter(), a.T, "values given by columns")
    else:
        raises(samp.dim_not_matching, lambda: setter(a), "values of the wrong dimension")
    box = np.sort(np.random.RandomState(c["seed"]).randn(c["cols"], 2), axis=1)
    if c["cols"] == c["dim"]:
        s.set_domain(box)
        same(s.get_domain(), box, "domain as given")
    else:
        raises(samp.dim_not_matching, lambda: s.set_domain(box), "domain of the wrong dimension")
    ref = np.random.RandomState(c["seed"]).randn(c["cols"])
    if c["cols"] == c["dim"]:
        s.set_reference_value(ref)
        same(s.get_reference_value(), ref, "reference value as given")
    else:
        raises(samp.dim_not_matching, lambda: s.set_reference_value(ref), "reference value of the wrong dimension")
    t.nontrivial(c["cols"] != c["dim"])
    t.label("fits" if c["cols"] == c["dim"] else ("by columns" if c["n"] == c["dim"] else "rejected"))


# ------------------------------------------------------------ cleaning
@st.composite
def dirty(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    k = int(np.prod(shape))
    # nan and infinities by name, so that the case is plain JSON
    return dict(shape=shape, flat=draw(st.lists(st.one_of(dyadic(-8, 8), st.sampled_from(["nan", "inf", "-inf", "1e300", "-0.0", "5e-324"])),
                                                min_size=k, max_size=k)), single=draw(st.integers(0, 3)) == 0)


def clean(c, t):
    import bet.util as util
    import sys
    with np.errstate(over="ignore"):
        x = np.array([float(v) for v in c["flat"]]).astype(np.float32 if c["single"] else float).reshape(c["shape"])
    keep = x.copy()
    big = float(np.finfo(np.float32).max) if c["single"] else sys.float_info.max
    want = np.array([0.0 if v != v else max(-big, min(big, float(v))) for v in keep.ravel()]).reshape(c["shape"])
    got = util.clean_data(x)
    check(np.all(np.isfinite(got)), "cleaned data are finite", got=got)
    same(np.asarray(got, float), want, "cleaned data")
    check(np.array_equal(x, keep, equal_nan=True), "the given data are left alone", got=x, want=keep)
    t.nontrivial(not np.all(np.isfinite(keep)) and bool(np.any(np.isfinite(keep))))


# ------------------------------------------------------------ gathering on one process
@st.composite
def singles(draw):
    return dict(shape=draw(st.lists(st.integers(0, 4), min_size=1, max_size=3)), kind=draw(st.sampled_from(["f", "i", "b"])), given=draw(st.booleans()), seed=draw(SEED))


def single(c, t):
    import bet.util as util
    a = np.random.RandomState(c["seed"]).randint(-9, 9, c["shape"]).astype(c["kind"])
    got = util.get_global_values(a.copy(), *([a.shape] if c["given"] else []))
    check(got.dtype == a.dtype, "type of the entries", got=got.dtype)
    same(got, a, "the only process holds everything")
    t.nontrivial(a.size > 1)


PROP = Prop("C27", "array helpers", [
    Sub("grid", grids(), grid, quick=2000, thorough=30000, rule="non-trivial: at least two vectors with more than one entry"),
    Sub("shapes", arrays(), shapes, quick=4000, thorough=60000, rule="non-trivial: an array of at least two entries"),
    Sub("wrong", wrongs(), wrong, quick=2000, thorough=30000, rule="non-trivial: dimension does not match"),
    Sub("clean", dirty(), clean, quick=2000, thorough=30000, rule="non-trivial: both finite and non-finite entries"),
    Sub("single", singles(), single, quick=1000, thorough=10000, rule="non-trivial: at least two entries"),
], assumptions=["at most ten vectors in a tensor grid", "0-dimensional arrays are not used as data", "square data of a given dimension are taken as rows"])
