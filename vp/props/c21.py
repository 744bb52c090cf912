"""C21: cell connectivity, interior/boundary cells of contour events, sampling and model error estimates."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


# ------------------------------------------------------------ adjacency of Voronoi cells
def adjacency(x, eps=1e-7):
    """(pairs of neighbouring unbounded Voronoi cells, every answer clear?)"""
    x = np.asarray(x, float)
    n, dim = x.shape
    pairs, clear = set(), True
    if dim == 1:
        order = sorted(range(n), key=lambda i: x[i, 0])
        for a, b in zip(order[:-1], order[1:]):
            pairs.add((min(a, b), max(a, b)))
            clear = clear and x[b, 0] - x[a, 0] > 1e-12
        return pairs, clear
    sq = (x * x).sum(axis=1)
    for i in range(n):
        for j in range(i + 1, n):
            rest = np.array([k for k in range(n) if k not in (i, j)], int)
            r = 2 * (x[rest] - x[i])
            norms = np.sqrt((r * r).sum(axis=1))
            if np.any(norms < 1e-9):
                return pairs, False
            A = r / norms[:, None]
            b = (sq[rest] - sq[i]) / norms
            e = 2 * (x[j] - x[i])
            if np.sqrt(e @ e) < 1e-9:
                return pairs, False
            f = x[j] @ x[j] - x[i] @ x[i]
            if dim == 2:
                # points of the bisector: mid + t * perp; every other sample cuts it to a half-line
                mid = (x[i] + x[j]) / 2
                perp = np.array([-e[1], e[0]]) / np.sqrt(e @ e)
                m, r = np.array(A) @ perp, np.array(b) - np.array(A) @ mid
                flat = np.abs(m) < 1e-12
                hi = np.min(r[~flat & (m > 0)] / m[~flat & (m > 0)], initial=np.inf)
                lo = np.max(r[~flat & (m < 0)] / m[~flat & (m < 0)], initial=-np.inf)
                if np.any(flat & (np.abs(r) <= eps)):
                    clear = False
                if np.any(flat & (r < -eps)):
                    lo, hi = np.inf, -np.inf
                gap = hi - lo
            else:
                from scipy.optimize import linprog
                res = linprog(np.r_[np.zeros(dim), -1.0], A_ub=np.c_[np.array(A), np.ones(len(A))], b_ub=b,
                              A_eq=[np.r_[e, 0.0]], b_eq=[f], bounds=[(None, None)] * dim + [(None, 1.0)])
                if res.status != 0:
                    return pairs, False
                gap = -res.fun
            if abs(gap) < eps:
                clear = False
            if gap > 0:
                pairs.add((i, j))
    return pairs, clear


@st.composite
def discs(draw, dims=(1, 1, 2, 2, 2, 3), max_n=14):
    dim = draw(st.sampled_from(list(dims)))
    n = draw(sizes(dim + 2, max_n if dim < 3 else 9, big=130 if dim < 3 else None))
    if max_n > 14 and dim < 3:
        n = draw(st.sampled_from([30, 66, 80, 100]))
    odim = draw(st.integers(1, 2))
    x = draw(points(n, dim))
    if dim > 1 and np.linalg.svd(np.array(x) - np.mean(x, axis=0), compute_uv=False)[-1] < 1e-2:
        # samples on one line or plane have no triangulation
        x = np.random.RandomState(len(x)).random_sample((n, dim)).tolist()
    # outputs depend smoothly on the inputs, so events are contiguous and have interior cells
    A = [[draw(st.integers(-4, 4)) / 4.0 for _ in range(dim)] for _ in range(odim)]
    y = (np.array(x) @ np.array(A).T)
    if draw(st.integers(0, 4)) == 0:
        y = np.random.RandomState(draw(SEED)).random_sample((n, odim))
    lo, hi = y.min(axis=0), y.max(axis=0)
    y = (y - lo) / np.where(hi > lo, hi - lo, 1.0)
    m = draw(gen.measure_cells(odim, max_cells=draw(st.sampled_from([3, 3, 3, 6])) if max_n == 14 else 40,
                               kinds=("voronoi", "voronoi", "rectangle")))
    vol = draw(st.sampled_from(["set", "set", "emulated", "mc"]))
    d = dict(x=x, y=y.tolist(), measure=m, vol=vol,
             volumes=draw(weights(n, positive=True)) if vol == "set" else None, vscale=draw(st.sampled_from([1.0, 1.0, 2.0 ** -20, 2.0 ** 8])),
             emulated=draw(points(draw(sizes(1, 40, big=700)), dim, distinct=False)) if vol == "emulated" or draw(st.booleans()) else None)
    s = draw(st.sampled_from([0.0, 0.05, 0.2, 1.0]))
    d["err"] = (s * (np.random.RandomState(draw(SEED)).random_sample((n, odim)) - 0.5)).tolist()
    return d


def build(d, emulated=True):
    import bet.sample as samp
    x, y = np.array(d["x"]), np.array(d["y"])
    s = gen.plain_set(x, x.shape[1])
    if d["volumes"] is not None:
        s.set_volumes(d["vscale"] * normalized(d["volumes"]))
    out = gen.plain_set(y, y.shape[1])
    out.set_error_estimates(np.array(d["err"]))
    disc = samp.discretization(s, out, output_probability_set=gen.build_measure(d["measure"]))
    if emulated and d["emulated"] is not None:
        disc.set_emulated_input_sample_set(gen.plain_set(d["emulated"], x.shape[1]))
    return disc


def owners(d, y):
    own, clear = gen.measure_owner(d["measure"], np.array(y))
    return own, clear


def neighbour_events(d):
    pairs, clear = adjacency(d["x"])
    io, c2 = owners(d, d["y"])
    n = len(d["x"])
    nei = [set() for _ in range(n)]
    for i, j in pairs:
        nei[i].add(int(io[j]))
        nei[j].add(int(io[i]))
    return nei, io, clear and c2


def B_C(nei, io, m):
    B = {e: [i for i in range(len(io)) if io[i] == e and nei[i] == {e}] for e in range(m)}
    C = {e: [i for i in range(len(io)) if e in nei[i]] for e in range(m)}
    return B, C


def volumes(d):
    n = len(d["x"])
    if d["volumes"] is not None:
        return d["vscale"] * normalized(d["volumes"]), True
    if d["emulated"] is not None:
        idx, clear = o.nearest(d["emulated"], d["x"])
        return o.fractions(idx, n), clear
    return np.ones(n) / n, True


def connectivity(d, t):
    import bet.calculateP.calculateError as ce
    nei, io, clear = neighbour_events(d)
    if not clear:
        t.label("ambiguous")
        return
    disc = build(d)
    got = ce.cell_connectivity_exact(disc)
    n = len(d["x"])
    for i in range(n):
        g = [int(k) for k in got[i]]
        check(len(set(g)) == len(g) and set(g) == nei[i], "events of the neighbours of a cell", cell=i, got=sorted(g), want=sorted(nei[i]))
    m = len(d["measure"]["mass"])
    B, C = B_C(nei, io, m)
    bn, cn = ce.boundary_sets(disc, got)
    for e in range(m):
        check(sorted(bn.get(e, [])) == B[e], "interior cells of a contour event", event=e, got=bn.get(e, []), want=B[e])
        check(sorted(cn.get(e, [])) == C[e], "cells touching a contour event", event=e, got=cn.get(e, []), want=C[e])
    t.nontrivial(len(set(io.tolist())) > 1 and any(B.values()))
    t.label("dim=%d" % len(d["x"][0]))


# ------------------------------------------------------------ sampling error
def sampling_contour(d, B, C, io, vol, p):
    up, low = [], []
    for e, pe in enumerate(p):
        if pe <= 0:
            u = l = 0.0
        elif not B[e]:
            u = l = np.nan
        else:
            vb, vc = vol[B[e]].sum(), vol[C[e]].sum()
            vca = sum(vol[i] for i in C[e] if io[i] == e)
            if vb == 0 or vc == 0:
                u = l = None
            else:
                terms = [vb / vc - 1.0, vca / vb - 1.0]
                u, l = pe * max(terms), pe * min(terms)
        up.append(u)
        low.append(l)
    return up, low


def sampling_region(d, B, C, io, pts, in_A, p):
    """pts: cell of the model samples holding each estimation point."""
    up = low = 0.0
    for e, pe in enumerate(p):
        if pe <= 0:
            continue
        in_e = io[pts] == e
        inB, inC = np.isin(pts, B[e]), np.isin(pts, C[e])
        if not in_e.any() or not inC.any() or not inB.any():
            return np.nan, np.nan
        E = (in_A & in_e).sum() / in_e.sum()
        terms = [(in_A & inB).sum() / inC.sum() - E, (in_A & inC).sum() / inB.sum() - E]
        up += pe * max(terms)
        low += pe * min(terms)
    return up, low


@st.composite
def region_sets(draw, dim):
    k = draw(sizes(1, 6))
    return dict(values=draw(points(k, dim)), regions=draw(st.lists(st.integers(-1, 2), min_size=k, max_size=k)),
                p=draw(st.sampled_from(gen.PNORMS)))


def build_regions(r, dim):
    s = gen.plain_set(r["values"], dim, r["p"])
    s.set_region(np.array(r["regions"]))
    return s


@st.composite
def calls(draw):
    d = draw(discs(dims=(1, 2, 2)))
    dim = len(d["x"][0])
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 2)) == 0:
            ops.append(["contour"])
        else:
            r = draw(region_sets(dim))
            em = draw(points(draw(sizes(5, 40)), dim, distinct=False)) if draw(st.booleans()) else None
            ops.append(["region", r, draw(st.sampled_from(r["regions"])), em])
    return dict(d=d, ops=ops)


def mass(d):
    return gen.measure_mass(d["measure"])


def in_region(r, pts, region):
    idx, clear = o.nearest(pts, r["values"], gen.pn(r["p"]))
    return np.array(r["regions"])[idx] == region, clear


def unchanged(disc, d):
    """Estimating errors leaves the problem as it was."""
    same(disc.get_input_sample_set().get_values(), np.array(d["x"]), "inputs unchanged by the error estimate")
    same(disc.get_output_sample_set().get_values(), np.array(d["y"]), "outputs unchanged by the error estimate")
    same(disc.get_output_probability_set().get_probabilities(), mass(d), "output measure unchanged by the error estimate")
    em = disc.get_emulated_input_sample_set()
    if d["emulated"] is None:
        check(em is None, "no emulated set appears", got=em)
    else:
        same(em.get_values(), np.array(d["emulated"]), "emulated set unchanged by the error estimate")


def sampling(c, t):
    import bet.calculateP.calculateError as ce
    d = c["d"]
    nei, io, clear = neighbour_events(d)
    vol, c2 = volumes(d)
    if not (clear and c2):
        t.label("ambiguous")
        return
    dim, m = len(d["x"][0]), len(d["measure"]["mass"])
    B, C = B_C(nei, io, m)
    p = mass(d)
    disc = build(d)
    est = ce.sampling_error(disc)
    for op in c["ops"]:
        if op[0] == "contour":
            up, low = est.calculate_for_contour_events()
            wu, wl = sampling_contour(d, B, C, io, vol, p)
            check(len(up) == m and len(low) == m, "one bound per contour event")
            for e in range(m):
                if wu[e] is None:
                    continue
                close(up[e], wu[e], "upper sampling error bound of event %d" % e, nan_equal=True)
                close(low[e], wl[e], "lower sampling error bound of event %d" % e, nan_equal=True)
                t.nontrivial(p[e] > 0 and bool(B[e]) and wu[e] != 0)
        else:
            _, r, region, em = op
            pts = em if em is not None else (d["emulated"] if d["emulated"] is not None else d["x"])
            idx, c3 = o.nearest(pts, d["x"])
            in_A, c4 = in_region(r, pts, region)
            if not (c3 and c4):
                t.label("ambiguous")
                return
            got = est.calculate_for_sample_set_region(build_regions(r, dim), region,
                                                      emulated_set=None if em is None else gen.plain_set(em, dim))
            want = sampling_region(d, B, C, io, idx, in_A, p)
            close(got[0], want[0], "upper sampling error bound of a region", nan_equal=True)
            close(got[1], want[1], "lower sampling error bound of a region", nan_equal=True)
            if np.isfinite(want[0]):
                t.label("finite region bound")
                t.nontrivial()
        unchanged(disc, d)


# ------------------------------------------------------------ model error
def model_contour(p, io, io2, vol):
    out = []
    for e, pe in enumerate(p):
        if pe <= 0:
            out.append(0.0)
            continue
        J, Je = vol[io == e].sum(), vol[io2 == e].sum()
        Jb = vol[(io == e) & (io2 == e)].sum()
        out.append(np.nan if J * Je == 0 else pe * (1.0 - Jb / Je))
    return out


def model_region(p, e1, e2, in_A):
    est, cont = 0.0, []
    for e, pe in enumerate(p):
        if pe <= 0:
            cont.append(0.0)
            continue
        a, b = e1 == e, e2 == e
        if not a.any() or not b.any():
            cont.append(np.inf)
        else:
            cont.append(pe * ((in_A & a).sum() / a.sum() - (in_A & b).sum() / b.sum()))
    return sum(cont), cont


def model(c, t):
    import bet.calculateP.calculateError as ce
    d = c["d"]
    x, y = np.array(d["x"]), np.array(d["y"])
    dim = x.shape[1]
    io, c1 = owners(d, y)
    io2, c2 = owners(d, y + np.array(d["err"]))
    vol, c3 = volumes(d)
    if not (c1 and c2 and c3):
        t.label("ambiguous")
        return
    p = mass(d)
    disc = build(d)
    est = ce.model_error(disc)
    zero = not np.any(np.array(d["err"]))
    for op in c["ops"]:
        if op[0] == "contour":
            got = est.calculate_for_contour_events()
            want = model_contour(p, io, io2, vol)
            check(len(got) == len(want), "one estimate per contour event")
            for e in range(len(want)):
                if np.isfinite(want[e]):
                    close(got[e], want[e], "model error of contour event %d" % e)
                else:
                    check(not np.isfinite(got[e]), "no finite model error for an event without samples", got=got[e])
                t.nontrivial(bool(np.isfinite(want[e]) and want[e] != 0))
            t.label("zero" if zero else "moved")
        else:
            _, r, region, em = op
            pts = em if em is not None else (d["emulated"] if d["emulated"] is not None else d["x"])
            idx, c4 = o.nearest(pts, x)
            in_A, c5 = in_region(r, pts, region)
            if not (c4 and c5):
                t.label("ambiguous")
                return
            want, cont = model_region(p, io[idx], io2[idx], in_A)
            got = est.calculate_for_sample_set_region(build_regions(r, dim), region,
                                                      emulated_set=None if em is None else gen.plain_set(em, dim))
            close(got, want, "model error of a region")
            t.nontrivial(bool(np.isfinite(want) and want != 0))
            if em is None and d["emulated"] is None:
                eid = np.zeros(len(x))
                for e, ce_ in enumerate(cont):
                    moved = (io == e) != (io2 == e)
                    if p[e] > 0 and moved.any():
                        eid[moved] += ce_ / moved.sum()
                close(whole(disc.get_input_sample_set().get_error_id_local()), eid,
                      "model error attributed to the samples moved by it", nan_equal=True)
                t.label("attributed")
        unchanged(disc, d)


# ------------------------------------------------------------ rejections
def reject(c, t):
    import bet.sample as samp, bet.calculateP.calculateError as ce
    d = c["d"]
    dim = len(d["x"][0])
    W = ce.wrong_argument_type
    for f in (ce.cell_connectivity_exact, ce.sampling_error, ce.model_error, lambda z: ce.boundary_sets(z, [])):
        raises(W, lambda: f(c["junk"]), "not a discretization")
    disc = build(d)
    disc.get_input_sample_set().set_p_norm(gen.pn(c["p"]))
    raises(W, lambda: ce.cell_connectivity_exact(disc), "connectivity in another norm")
    raises(W, lambda: ce.boundary_sets(disc, []), "boundary sets in another norm")
    disc = build(d)
    raises(NotImplementedError, lambda: ce.sampling_error(disc, exact=False), "inexact connectivity")
    ests = [ce.sampling_error(disc).calculate_for_sample_set_region, ce.model_error(disc).calculate_for_sample_set_region,
            ce.model_error(disc).calculate_for_sample_set_region_mc]
    s = build_regions(c["r"], dim)
    bare = gen.plain_set(c["r"]["values"], dim)
    for f in ests:
        raises(W, lambda: f(s, 7), "a region that does not exist")
        raises(W, lambda: f(bare, 0), "a set without regions")
    disc = build(d)
    out = gen.plain_set(d["y"], len(d["y"][0]))
    disc.set_output_sample_set(out)
    raises(W, lambda: ce.model_error(disc), "model error without error estimates")
    t.nontrivial()


@st.composite
def reject_cases(draw):
    d = draw(discs(dims=(1, 2)))
    return dict(d=d, p=draw(st.sampled_from([1.0, 3.0, "inf"])), junk=draw(st.sampled_from([None, 1, "x"])),
                r=draw(region_sets(len(d["x"][0]))))


PROP = Prop("C21", "error estimates", [
    Sub("connectivity", discs(), connectivity, quick=500, thorough=20000,
        rule="non-trivial: several events occur and some event has an interior cell"),
    Sub("many", discs(dims=(1, 2, 2, 2), max_n=100), connectivity, quick=24, thorough=800,
        rule="non-trivial: several events occur and some event has an interior cell; 30 to 100 samples, up to 40 events"),
    Sub("sampling", calls(), sampling, quick=700, thorough=30000,
        rule="non-trivial: a finite non-zero bound was checked"),
    Sub("model", calls(), model, quick=900, thorough=40000, rule="non-trivial: a finite non-zero estimate was checked"),
    Sub("reject", reject_cases(), reject, quick=60, thorough=1000, rule="all"),
], assumptions=["cases with a tie in a nearest-cell or adjacency decision (1e-9 / 1e-7) are skipped",
                "connectivity in dimensions 1 to 3"])
