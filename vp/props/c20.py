"""C20: scores of sets of quantities of interest and the ranking of those sets."""
from itertools import combinations
import numpy as np
from hypothesis import strategies as st
from vp.core import *


@st.composite
def jacobians(draw, max_q=6, max_dim=4):
    dim = draw(st.integers(1, max_dim))
    q = draw(sizes(1, max_q))
    n = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["float", "float", "float", "lattice", "rows", "const", "near"]))
    seed = draw(SEED)
    rs = np.random.RandomState(seed)
    G = rs.randn(n, q, dim)
    if kind == "lattice":
        G = rs.randint(-2, 3, (n, q, dim)).astype(float)
    elif kind == "near":                                    # scores that are almost equal
        G = rs.randint(-1, 2, (1, q, dim)) + draw(st.sampled_from([1e-4, 1e-6, 1e-8])) * G
    elif kind == "const":
        G = np.repeat(G[:1], n, axis=0)
    if kind == "rows" or draw(st.integers(0, 3)) == 0:      # zero, repeated or proportional rows
        for _ in range(draw(st.integers(1, 3))):
            c = slice(None) if draw(st.booleans()) else draw(st.integers(0, n - 1))
            i, j = draw(st.integers(0, q - 1)), draw(st.integers(0, q - 1))
            G[c, i] = G[c, j] * draw(st.sampled_from([0.0, 1.0, -2.0]))
    scale = draw(st.sampled_from([1.0, 1.0, 10.0, 0.125]))
    return (scale * G).tolist()


def make(G):
    import bet.sample as sample
    G = np.array(G, float)
    s = sample.sample_set(G.shape[2])
    s.set_values(np.arange(G.shape[0] * G.shape[2], dtype=float).reshape(G.shape[0], G.shape[2]))
    s.set_jacobians(G.copy())
    return s


# ------------------------------------------------------------ definitions
def volume(A):
    """Volume of the parallelepiped of the rows, by successive projection."""
    rows, v = [], 1.0
    for a in np.array(A, float):
        b = a.copy()
        for _ in range(2):
            for r in rows:
                b = b - r * (b @ r)
        nb = np.sqrt(b @ b)
        v *= nb
        if nb > 1e-12 * max(1.0, np.sqrt(a @ a)):
            rows.append(b / nb)
    return v


def avg_measure(G, qs, bin_measure=1.0):
    m = np.mean([volume(g[list(qs)]) for g in G])
    return np.inf if m == 0 else bin_measure / m


def row_skew(A):
    """|g_i| over the length of its part orthogonal to the other rows; inf when the rows are dependent."""
    A = np.array(A, float)
    out = []
    for i in range(len(A)):
        other = np.delete(A, i, axis=0)
        q = []
        for a in other:
            b = a.copy()
            for _ in range(2):
                for r in q:
                    b = b - r * (b @ r)
            nb = np.sqrt(b @ b)
            if nb > 1e-10 * max(1e-3, np.sqrt(a @ a)):
                q.append(b / nb)
        perp = A[i].copy()
        for _ in range(2):
            for r in q:
                perp = perp - r * (perp @ r)
        n, np_ = np.sqrt(A[i] @ A[i]), np.sqrt(perp @ perp)
        out.append(np.inf if (np_ <= 1e-10 * n or n == 0 or len(q) < len(other)) else n / np_)
    return np.array(out)


def hmean(x):
    s = np.sum(1.0 / np.asarray(x, float))
    return np.inf if s == 0 else len(x) / s


def avg_skew(G, qs):
    return hmean([np.max(row_skew(g[list(qs)])) for g in G])


def score(G, qs, measure):
    return avg_measure(G, qs) if measure else avg_skew(G, qs)


def recip(got, want, what, tol=1e-7):
    """Equal as reciprocals (an infinite score and an astronomically large one are the same)."""
    g, w = np.asarray(got, float), np.asarray(want, float)
    check(g.shape == w.shape, what + ": wrong shape", got=g.shape, want=w.shape)
    with np.errstate(all="ignore"):
        rg, rw = 1.0 / g, 1.0 / w
    big = np.nanmax(np.where(np.isfinite(rw), np.abs(rw), 0), initial=1.0)
    ok = np.isclose(rg, rw, rtol=1e-6, atol=tol * big)
    check(bool(np.all(ok)), what, got=g, want=w)


# ------------------------------------------------------------ averages
@st.composite
def avg_cases(draw):
    G = draw(jacobians())
    q, dim = len(G[0]), len(G[0][0])
    sub = None
    if draw(st.integers(0, 3)):
        top = q if draw(st.integers(0, 4)) == 0 else min(q, dim)
        sub = list(draw(st.permutations(range(q))))[:draw(sizes(1, top))]
    return dict(G=G, qois=sub, bin=draw(st.sampled_from([None, 0.5, 3.0])), arr=draw(st.booleans()))


def averages(c, t):
    import bet.sensitivity.chooseQoIs as cq
    G = np.array(c["G"])
    qs = c["qois"] if c["qois"] is not None else list(range(G.shape[1]))
    s = make(c["G"])
    arg = None if c["qois"] is None else (np.array(c["qois"]) if c["arr"] else list(c["qois"]))
    if len(qs) > G.shape[2]:
        for f in (cq.calculate_avg_measure, cq.calculate_avg_skewness, cq.calculate_avg_condnum):
            raises(ValueError, lambda: f(s, arg), f.__name__ + " of more outputs than inputs")
        t.label("rejected")
        return
    sv_true = np.sqrt(np.maximum(0, np.sort(np.array([np.linalg.eigvalsh(g[qs] @ g[qs].T) for g in G]))[:, ::-1]))
    sc = max(1e-300, np.abs(G).max())
    m, sv = cq.calculate_avg_measure(s, arg, **({} if c["bin"] is None else {"bin_measure": c["bin"]}))
    recip(m, avg_measure(G, qs, c["bin"] or 1.0), "average measure")
    close(sv, sv_true, "singular values reported with the measure", rtol=1e-6, atol=1e-6 * sc)
    k, sk = cq.calculate_avg_skewness(s, arg)
    want = np.array([row_skew(g[qs]) for g in G])
    recip(k, hmean(want.max(axis=1)), "average skewness")
    dep = np.isinf(want).any(axis=1)
    if not dep.all():
        recip(np.asarray(sk)[~dep], want[~dep], "skewness of each quantity at each centre")
    n, sv = cq.calculate_avg_condnum(s, arg)
    close(sv, sv_true, "singular values reported with the condition number", rtol=1e-6, atol=1e-6 * sc)
    with np.errstate(all="ignore"):
        cn = np.where(sv_true[:, -1] > 1e-7 * sv_true[:, 0], sv_true[:, 0] / sv_true[:, -1], np.inf)
    recip(n, hmean(cn), "average condition number")
    same(s.get_jacobians(), G, "the jacobians are left unchanged")
    t.nontrivial(len(qs) > 1 and not dep.all())
    t.label("dependent" if dep.any() else "independent", "rows=%d" % len(qs))


def missing(c, t):
    import bet.sample as sample, bet.sensitivity.chooseQoIs as cq
    s = sample.sample_set(c["dim"])
    s.set_values(np.zeros((2, c["dim"])))
    for f in (cq.calculate_avg_measure, cq.calculate_avg_skewness, cq.calculate_avg_condnum, cq.chooseOptQoIs,
              cq.chooseOptQoIs_verbose, cq.chooseOptQoIs_large, cq.chooseOptQoIs_large_verbose):
        raises(ValueError, lambda: f(s), f.__name__ + " without jacobians")
    raises(ValueError, lambda: cq.find_unique_vecs(s, 0.9), "find_unique_vecs without jacobians")
    t.nontrivial()


# ------------------------------------------------------------ unique vectors
def inner(G):
    nrm = np.sqrt((G ** 2).sum(axis=2))
    nrm = np.where(nrm == 0, 1.0, nrm)
    U = G / nrm[:, :, None]
    return np.abs(np.einsum("nid,njd->ij", U, U)) / G.shape[0]


def zero_rows(G):
    return [i for i in range(G.shape[1]) if np.any(np.all(G[:, i] == 0, axis=1))]


def unique_ok(G, got, cand, tol, remove_zeros, what="unique quantities"):
    got = [int(g) for g in np.asarray(got).ravel()]
    check(len(set(got)) == len(got) and set(got) <= set(cand), what + ": distinct candidates", got=got, cand=cand)
    z = set(zero_rows(G)) if remove_zeros else set()
    check(not set(got) & z, what + ": no quantity with a zero gradient", got=got, zero=sorted(z))
    ip = inner(G)
    for a, b in combinations(got, 2):
        check(ip[a, b] <= tol + 1e-9, what + ": kept pair is not nearly parallel", pair=(a, b), inner=ip[a, b], tol=tol)
    for a in set(cand) - set(got) - z:
        check(any(ip[a, b] > tol - 1e-9 for b in got), what + ": a removed quantity is nearly parallel to a kept one",
              removed=a, kept=got, inner=ip[a], tol=tol)
    return got


@st.composite
def unique_cases(draw):
    G = draw(jacobians(max_q=8))
    q = len(G[0])
    cand = draw(st.one_of(st.none(), st.sets(st.integers(0, q - 1), min_size=1).map(sorted)))
    return dict(G=G, cand=cand, tol=draw(st.sampled_from([0.3, 0.6, 0.9, 0.99, 1.1])), rz=draw(st.booleans()))


def unique(c, t):
    import bet.sensitivity.chooseQoIs as cq
    G = np.array(c["G"])
    cand = c["cand"] if c["cand"] is not None else list(range(G.shape[1]))
    s = make(c["G"])
    got = cq.find_unique_vecs(s, c["tol"], None if c["cand"] is None else list(cand), c["rz"])
    got = unique_ok(G, got, cand, c["tol"], c["rz"])
    same(s.get_jacobians(), G, "the jacobians are left unchanged")
    t.nontrivial(0 < len(got) < len(cand))
    t.label("kept %d of %d" % (len(got), len(cand)))


# ------------------------------------------------------------ rankings
def ranked_ok(G, mat, tensor, pool, k, nret, measure, what, tol=np.inf):
    """mat lists the nret best sets of size k among pool (list of tuples); scores within reciprocal tolerance."""
    import bet.sensitivity.chooseQoIs as cq
    check(mat is not None and np.shape(mat) == (nret, k + 1), what + ": shape of the ranking", got=np.shape(mat), want=(nret, k + 1))
    mat = np.asarray(mat, float)
    all_sc = {p: score(G, p, measure) for p in pool}
    finite = sorted(v for v in all_sc.values() if v < 1e7 and v < tol)
    best = (finite + [np.inf] * nret)[:nret]
    ref = np.where(mat[:, 0] > 1e7, np.inf, mat[:, 0])
    recip(ref, best, what + ": scores are the best among all candidate sets, in order")
    s = make(G)
    own = sorted(float((cq.calculate_avg_measure if measure else cq.calculate_avg_skewness)(s, list(p))[0]) for p in pool)[:nret]
    for r, v in enumerate(own):     # by the scores the module itself reports for the sets, almost to the last digit
        if not v < min(1e3, tol):
            break
        check(abs(mat[r, 0] - v) <= 1e-10 * abs(v), what + ": the best sets by their own scores", rank=r, got=mat[:, 0], want=own)
    seen = set()
    for r, row in enumerate(mat):
        if not row[0] < 1e7:
            continue
        qs = tuple(int(x) for x in row[1:])
        check(tuple(row[1:]) == qs and len(set(qs)) == k, what + ": a set of distinct quantities", got=row)
        key = tuple(sorted(qs))
        check(key in all_sc, what + ": a candidate set", got=key, pool=sorted(all_sc)[:50])
        check(key not in seen, what + ": no set is listed twice", got=key)
        seen.add(key)
        recip(row[0], all_sc[key], what + ": the score is that of its set")
        if tensor is not None:
            A = G[:, list(qs), :]
            if measure:
                want = np.sqrt(np.maximum(0, np.sort(np.array([np.linalg.eigvalsh(a @ a.T) for a in A]))[:, ::-1]))
                close(np.asarray(tensor)[:, :, r], want, what + ": singular values of the listed set", rtol=1e-6,
                      atol=1e-6 * max(1.0, np.abs(G).max()))
            else:
                want = np.array([row_skew(a) for a in A])
                dep = np.isinf(want).any(axis=1)
                recip(np.asarray(tensor)[~dep][:, :, r], want[~dep], what + ": skewness values of the listed set")
    return len(seen)


def pool_of(cq, s, G, cand, tol, rz):
    u = cq.find_unique_vecs(s, tol, list(cand), rz)
    return unique_ok(G, u, cand, tol, rz)


@st.composite
def rank_cases(draw, large=False):
    G = draw(jacobians(max_q=6, max_dim=3 if large else 4))
    q, dim = len(G[0]), len(G[0][0])
    cand = draw(st.one_of(st.none(), st.sets(st.integers(0, q - 1), min_size=1).map(sorted)))
    return dict(G=G, cand=cand, k=draw(st.one_of(st.none(), st.integers(1 if not large else 2, max(dim, 2 if large else 1)))),
                nret=draw(st.sampled_from([None, 1, 2, 3, 20])), ip=draw(st.sampled_from([None, 0.9, 1.1, 1.1, 1.1])),
                measure=draw(st.booleans()), rz=draw(st.sampled_from([True, True, False])),
                tol=draw(st.sampled_from([None, None, 1.5, 3.0, 0.5])))


def kwargs(c, large):
    kw = {}
    if c["measure"]:
        kw["measure"] = True
    if not c["rz"]:
        kw["remove_zeros"] = False
    if c["cand"] is not None:
        kw["qoiIndices"] = np.array(c["cand"])
    if c["k"] is not None:
        kw["max_qois_return" if large else "num_qois_return"] = c["k"]
    if c["nret"] is not None:
        kw["num_optsets_return"] = c["nret"]
    if c["ip"] is not None:
        kw["inner_prod_tol"] = c["ip"]
    if large and c["tol"] is not None:
        kw["measskew_tol"] = c["tol"]
    return kw


def choose(c, t):
    import bet.sensitivity.chooseQoIs as cq
    G = np.array(c["G"])
    s = make(c["G"])
    cand = c["cand"] if c["cand"] is not None else list(range(G.shape[1]))
    k = c["k"] or G.shape[2]
    nret = c["nret"] or 10
    ip = 1.0 if c["ip"] is None else c["ip"]
    if ip == 1.0 and np.any(inner(G)[np.triu_indices(G.shape[1], 1)] > 1 - 1e-9):
        c = dict(c, ip=1.1)
        ip = 1.1
    u = pool_of(cq, s, G, cand, ip, c["rz"])
    pool = [tuple(sorted(p)) for p in combinations(u, k)]
    mat, ten = cq.chooseOptQoIs_verbose(s, **kwargs(c, False))
    n = ranked_ok(G, mat, ten, pool, k, nret, c["measure"], "chooseOptQoIs_verbose")
    mat2 = cq.chooseOptQoIs(s, **kwargs(c, False))
    same(mat2, mat, "chooseOptQoIs agrees with its verbose form")
    same(s.get_jacobians(), G, "the jacobians are left unchanged")
    t.nontrivial(n > 1 and len(pool) > nret)
    t.label("measure" if c["measure"] else "skewness", "k=%d" % k, "sets=%d" % min(n, 5))


def large(c, t):
    import bet.sensitivity.chooseQoIs as cq
    G = np.array(c["G"])
    s = make(c["G"])
    dim = G.shape[2]
    cand = c["cand"] if c["cand"] is not None else list(range(G.shape[1]))
    kmax = min(c["k"], dim) if c["k"] else dim
    c = dict(c, k=kmax if c["k"] else None)
    nret = c["nret"] or 10
    ip = 1.0 if c["ip"] is None else c["ip"]
    if ip == 1.0 and np.any(inner(G)[np.triu_indices(G.shape[1], 1)] > 1 - 1e-9):
        c = dict(c, ip=1.1)
        ip = 1.1
    tol = np.inf if c["tol"] is None else c["tol"]
    u = pool_of(cq, s, G, cand, ip, c["rz"])
    res, tens = cq.chooseOptQoIs_large_verbose(s, **kwargs(c, True))
    check(len(res) == max(0, kmax - 1) and len(tens) == len(res), "one ranking per size from two to the largest", got=len(res))
    # sets of each size reached by adding larger quantities to a good set of the previous size
    good = [(x,) for x in sorted(u)]
    n = 0
    edge = False
    for k, mat, ten in zip(range(2, kmax + 1), res, tens):
        pool = [g + (x,) for g in good for x in sorted(u) if x > g[-1]]
        sc = {p: score(G, p, c["measure"]) for p in pool}
        edge = edge or any(abs(v - tol) < 1e-6 * max(1, tol) for v in sc.values() if np.isfinite(v)) or (
            np.isinf(tol) and any(1e7 < v for v in sc.values()))
        if edge and k > 2:
            break       # membership of a borderline set in the previous list is not determined
        if not edge:
            n += ranked_ok(G, mat, ten, pool, k, nret, c["measure"], "chooseOptQoIs_large, size %d" % k, tol=tol)
        good = [p for p in pool if sc[p] < tol]
    res2 = cq.chooseOptQoIs_large(s, **kwargs(c, True))
    check(len(res2) == len(res), "both forms list the same sizes")
    for a, b in zip(res2, res):
        same(a, b, "chooseOptQoIs_large agrees with its verbose form")
    same(s.get_jacobians(), G, "the jacobians are left unchanged")
    t.nontrivial(n > 2)
    t.label("edge" if edge else "clear", "sets=%d" % min(n, 9))


PROP = Prop("C20", "optimal QoI selection", [
    Sub("averages", avg_cases(), averages, quick=1500, thorough=60000, rule="non-trivial: several independent rows at some centre"),
    Sub("missing", st.fixed_dictionaries(dict(dim=st.integers(1, 4))), missing, quick=4, thorough=4, rule="all"),
    Sub("unique", unique_cases(), unique, quick=1000, thorough=40000, rule="non-trivial: some but not all quantities kept"),
    Sub("choose", rank_cases(), choose, quick=1000, thorough=30000, rule="non-trivial: more candidate sets than requested, several ranked"),
    Sub("large", rank_cases(True), large, quick=800, thorough=30000, rule="non-trivial: more than two ranked sets over all sizes"),
], assumptions=["scores compared as reciprocals to 1e-6, so singular and numerically singular sets are the same",
                "sets whose score is within 1e-6 of the tolerance are not judged"])
