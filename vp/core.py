"""Shared vocabulary of the checks: violations, comparisons, sub-checks, tallies, generators."""
import json
import hashlib
import numpy as np
from hypothesis import strategies as st


class Violation(Exception):
    """The property does not hold on this case."""


def check(cond, msg, **detail):
    if not cond:
        raise Violation(msg + ("" if not detail else " | " + ", ".join(
            "%s=%s" % (k, short(v)) for k, v in sorted(detail.items()))))


def short(v, n=400):
    try:
        s = repr(v)
    except Exception:  # pragma: no cover
        s = "<unprintable>"
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


def close(got, want, what, rtol=1e-9, atol=1e-11, nan_equal=False):
    """got and want are numerically equal arrays of the same shape (want is the oracle's answer)."""
    check(got is not None, what + ": no result")
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    check(g.shape == w.shape, what + ": wrong shape", got=g.shape, want=w.shape)
    fin = np.abs(w[np.isfinite(w)])
    if fin.size and fin.max() > 0:
        atol = min(atol, max(1e3 * atol * fin.max(), 1e-13))     # small answers are judged on their own scale
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=nan_equal)
    # infinities of the same sign agree
    ok |= (np.isinf(w) & (g == w))
    check(bool(np.all(ok)), what, got=g, want=w)


def same(got, want, what):
    """got and want hold exactly the same values (integers, indices, booleans)."""
    check(got is not None, what + ": no result")
    g = np.asarray(got)
    w = np.asarray(want)
    check(g.shape == w.shape, what + ": wrong shape", got=g.shape, want=w.shape)
    check(bool(np.all(g == w)), what, got=g, want=w)


def raises(exc, fn, what):
    """fn() is rejected with the documented exception."""
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation("%s: expected %s, got %s: %s" % (what, exc, type(e).__name__, e))
    raise Violation("%s: accepted, expected %s" % (what, exc))


def whole(a):
    """All of a local array: the pieces of all ranks in order when several ranks run (see vp.fakempi), else a itself.
    Every rank has to call it."""
    import sys
    fm = sys.modules.get("vp.fakempi")
    w = fm.world() if fm else None
    if w is None:
        return a
    parts = sys.modules["mpi4py"].MPI.COMM_WORLD.allgather(a)
    if any(x is None for x in parts):
        check(all(x is None for x in parts), "a local array exists on some processes only")
        return None
    return np.concatenate([np.asarray(x) for x in parts], axis=0)


def part(a):
    """The share of this rank in an array to be set locally (all of it when one rank runs)."""
    import sys
    fm = sys.modules.get("vp.fakempi")
    w = fm.world() if fm else None
    return a if w is None or a is None else np.array_split(np.asarray(a), w.size)[fm._local.rank]


def several():
    """Several ranks are running."""
    import sys
    fm = sys.modules.get("vp.fakempi")
    return fm is not None and fm.world() is not None


def sync():
    """Wait for the other ranks, if any."""
    import sys
    if several():
        sys.modules["mpi4py"].MPI.COMM_WORLD.barrier()


def leader():
    """True on the rank that may touch files in the check itself."""
    import sys
    fm = sys.modules.get("vp.fakempi")
    w = fm.world() if fm else None
    return w is None or fm._local.rank == 0


class Tally(object):
    def __init__(self):
        self.nontriv = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))


class Sub(object):
    """One executable check: a strategy producing JSON-able cases and fn(case, tally)."""

    def __init__(self, name, strategy, fn, quick=200, thorough=4000, rule="", needs=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.needs = needs  # None or "fakempi" / "nompi": how the module under test must be imported


class Prop(object):
    def __init__(self, pid, title, subs, assumptions=(), known=(), more=4):
        self.pid, self.title, self.subs, self.more = pid, title, list(subs), more     # more: multiple of each sub-check's quick count
        self.assumptions = list(assumptions)
        self.known = list(known)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


# ---------------------------------------------------------------- generators
SEED = st.integers(0, 2 ** 31 - 1)


def dyadic(lo=-4.0, hi=4.0, den=64):
    """Floats on a dyadic lattice: exactly representable, shrink towards 0."""
    return st.integers(int(lo * den), int(hi * den)).map(lambda k: k / den)


@st.composite
def points(draw, n, dim, lo=0.0, hi=1.0, den=1024, distinct=True):
    """n points of dimension dim in [lo,hi]^dim (lists), pairwise distinct by default.

    A quarter of the draws are explicit (and so shrink coordinate by coordinate), the rest are expanded
    from a drawn integer (cheap for larger n)."""
    if n <= 60 and draw(st.integers(0, 3)) == 0:
        if distinct:
            pt = st.tuples(*[st.integers(0, den)] * dim)
            rows = draw(st.lists(pt, min_size=n, max_size=n, unique=True))
        else:
            rows = draw(st.lists(st.tuples(*[st.integers(0, den)] * dim), min_size=n, max_size=n))
        return [[lo + (hi - lo) * c / den for c in r] for r in rows]
    seed = draw(st.integers(0, 2 ** 31 - 1))
    rs = np.random.RandomState(seed)
    return (lo + (hi - lo) * rs.random_sample((n, dim))).tolist()


BIG = [65, 101, 129, 257, 300, 513, 700]


def sizes(lo, hi, big=None):
    """Integers in [lo, hi], leaning to the upper half; with big, one in 25 is well above hi (at most big)."""
    base = st.one_of(st.integers(lo, hi), st.integers((lo + hi + 1) // 2, hi))
    if not big:
        return base
    return st.integers(0, 24).flatmap(lambda k: st.sampled_from([b for b in BIG if b <= big]) if k == 24 else base)


@st.composite
def perms(draw, n):
    """A permutation of range(n)."""
    if n <= 40:
        return list(draw(st.permutations(range(n))))
    return np.random.RandomState(draw(SEED)).permutation(n).tolist()


def dims(top=3, high=6):
    """Dimensions 1..top, now and then up to high."""
    return st.integers(0, 11).flatmap(lambda k: st.integers(top + 1, high) if k == 11 else st.integers(1, top))


@st.composite
def domains(draw, dim, wide=True, iso=False):
    """A (dim, 2) box with every side of positive length; one in six is very small or very large in some direction
    (in all of them alike with iso)."""
    out = []
    odd = wide and draw(st.integers(0, 5)) == 5
    one = draw(st.sampled_from(UNITS)) if odd and iso else None
    for _ in range(dim):
        if odd and (iso or draw(st.booleans())):
            unit = one or draw(st.sampled_from(UNITS))
            a = draw(st.integers(-4, 4)) * unit
            out.append([a, a + unit * draw(st.sampled_from([1.0, 3.0]))])
            continue
        a = draw(st.integers(-160, 160)) / 16.0
        w = draw(st.sampled_from([1.0, 0.5, 2.0, 3.0, 0.125, 10.0, 0.75]))
        out.append([a, a + w])
    return out


UNITS = [2.0 ** -20, 2.0 ** -40, 2.0 ** 20, 2.0 ** 10, 2.0 ** -10, 2.0 ** -30]


def layout(a):
    """The same array in one of several memory layouts (row major, column major, a strided view, a reversed view),
    chosen by its contents."""
    a = np.array(a)
    k = int(hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:4], 16) % 5
    if a.ndim == 0 or a.size == 0 or k < 2:
        return a
    if k == 2:
        return np.array(a, order="F")
    if k == 3:
        wide = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        wide[::2] = a
        wide[1::2] = 99
        return wide[::2]
    return np.array(a[::-1])[::-1]


def in_domain(u, domain):
    """Map points u in the unit box to the domain."""
    d = np.asarray(domain, dtype=float)
    return d[:, 0] + np.asarray(u, dtype=float) * (d[:, 1] - d[:, 0])


@st.composite
def weights(draw, n, positive=False, zeros=True):
    """n nonnegative numbers, not all zero."""
    lo = 1 if positive else 0
    if n > 60:
        rs = np.random.RandomState(draw(SEED))
        w = rs.randint(lo, 17, n).tolist()
    else:
        w = draw(st.lists(st.integers(lo, 16), min_size=n, max_size=n))
    if sum(w) == 0:
        w[draw(st.integers(0, n - 1))] = 1
    kind = draw(st.integers(0, 7))
    if kind == 6:       # of very different magnitudes
        return [float(x) * 2.0 ** (-4 * ((k * 7 + x) % 13)) for k, x in enumerate(w)]
    if kind == 7:       # all small
        return [float(x) * 2.0 ** -40 for x in w]
    return [float(x) for x in w]


def normalized(w):
    w = np.asarray(w, dtype=float)
    return w / w.sum()
