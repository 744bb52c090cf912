"""C04: Voronoi queries return the nearest of the current samples, after any history."""
import os
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


def nearest_ok(dist, ptr, x, values, p, k):
    x, values = np.asarray(x, float), np.asarray(values, float)
    d = o.pdist(x, values, p)
    n, m = len(values), len(x)
    dist, ptr = np.asarray(dist), np.asarray(ptr)
    want_shape = (m,) if k == 1 else (m, k)
    check(dist.shape == want_shape and ptr.shape == want_shape, "shape of the answer", got=(dist.shape, ptr.shape),
          want=want_shape)
    dist, ptr = dist.reshape(m, k), ptr.reshape(m, k)
    kk = min(k, n)
    srt = np.sort(d, axis=1)[:, :kk]
    check(np.all((ptr[:, :kk] >= 0) & (ptr[:, :kk] < n)), "indices of existing samples", got=ptr, n=n)
    close(dist[:, :kk], srt, "distances to the nearest samples, in order", rtol=1e-9, atol=1e-12)
    close(np.take_along_axis(d, ptr[:, :kk].astype(int), axis=1), srt, "samples at those distances", rtol=1e-9, atol=1e-12)
    for r in range(m):
        check(len(set(ptr[r, :kk].tolist())) == kk, "no sample listed twice", got=ptr[r])
    if k > n:
        check(np.all(np.isinf(dist[:, n:])), "no further neighbours", got=dist)


@st.composite
def around(draw, m, dim):
    """Query points about the samples, now and then far away from them."""
    r = draw(st.sampled_from([0.5, 0.5, 0.5, 50.0, 1e6]))
    return draw(points(m, dim, lo=-r, hi=1 + r, distinct=False))


@st.composite
def histories(draw):
    dim = draw(dims())
    dom = draw(domains(dim))
    n = draw(sizes(1, 10, big=300))
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        op = draw(st.sampled_from(["query", "query", "query", "set", "append", "normalize", "undo", "copy", "clip",
                                   "to_local", "to_global", "set_local", "merge", "save", "volumes", "p"]))
        if op == "query":
            m = draw(st.integers(1, 5))
            ops.append([op, draw(around(m, dim)), draw(st.integers(1, 4)),
                        draw(st.booleans())])
        elif op in ("set", "set_local", "merge"):
            ops.append([op, draw(points(draw(st.one_of(st.just(n), st.integers(1, 10))), dim))])
        elif op == "append":
            ops.append([op, draw(points(draw(st.integers(1, 4)), dim))])
        elif op == "clip":
            ops.append([op, draw(st.integers(1, 10))])
        elif op == "p":
            ops.append([op, draw(st.sampled_from(gen.PNORMS))])
        else:
            ops.append([op])
    m = draw(st.integers(1, 4))
    ops.append(["query", draw(around(m, dim)), draw(st.integers(1, 3)), False])
    return dict(dim=dim, domain=dom, values=draw(points(n, dim)), p=draw(st.sampled_from(gen.PNORMS)), ops=ops)


def history(case, t):
    import bet.sample as samp
    import bet.util as util
    dim = case["dim"]
    dom0 = np.array(case["domain"])
    unit = np.array([[0.0, 1.0]] * dim)
    s = samp.sample_set(dim) if case["p"] != 1.0 else samp.voronoi_sample_set(dim)
    u = np.array(case["values"])             # model: unit-box coordinates of the samples
    normed = False

    def world(a):
        return np.asarray(a, float) if normed else in_domain(a, dom0)
    s.set_domain(dom0.copy())
    s.set_values(layout(world(u)))
    p = gen.pn(case["p"])
    s.set_p_norm(p)
    queried = changed = requery = False
    for op in case["ops"]:
        if op[0] == "query":
            x = world(op[1])
            before = x.copy()
            if op[3] and dim == 1:
                pass
            dist, ptr = s.query(x, k=op[2]) if op[2] != 1 or op[3] else s.query(x)
            nearest_ok(dist, ptr, before, world(u), p, op[2])
            same(x, before, "query points unchanged")
            requery |= queried and changed
            queried = True
        elif op[0] == "set":
            u = np.array(op[1])
            s.set_values(layout(world(u)))
            s.set_volumes(np.ones(len(u)) / len(u))
        elif op[0] == "set_local":
            u = np.array(op[1])
            s.set_values_local(part(world(u)))
            s.set_volumes_local(part(np.ones(len(u)) / len(u)))
            s.local_to_global()
        elif op[0] == "append":
            u = np.concatenate([u, np.array(op[1])])
            s.append_values(world(op[1]))
            s.set_volumes(np.ones(len(u)) / len(u))
        elif op[0] == "normalize":
            if not normed:
                s.normalize_domain()
                normed = True
        elif op[0] == "undo":
            s.undo_normalize_domain()
            normed = False
        elif op[0] == "copy":
            old = s
            s = s.copy()
            old.set_values(np.zeros((1, dim)) - 50.0)
        elif op[0] == "clip":
            s = s.clip(op[1])
            u = u[:op[1]]
        elif op[0] == "to_local":
            s.global_to_local()
        elif op[0] == "to_global":
            s.local_to_global()
        elif op[0] == "merge":
            if several():
                continue     # the order of merged samples depends on the number of processes
            other = samp.sample_set(dim)
            other.set_domain(unit.copy() if normed else dom0.copy())
            other.set_values(world(op[1]))
            s = s.merge(other)
            u = np.concatenate([u, np.array(op[1])])
            if normed:      # the merged set has no memory of the original domain
                dom0, normed = unit, False
        elif op[0] == "volumes":
            s.estimate_volume_mc()
        elif op[0] == "save":
            s.save("c04_set")
            s = util.load_object("c04_set")
            sync()
            if leader():
                os.remove("c04_set.p")
            sync()
        elif op[0] == "p":
            p = gen.pn(op[1])
            s.set_p_norm(p)
        changed |= op[0] not in ("query", "to_local", "to_global", "volumes", "save", "p") and queried
    close(s.get_values(), world(u), "current values", rtol=1e-9, atol=1e-9)
    t.nontrivial(requery)
    for op in case["ops"]:
        t.label(op[0])


@st.composite
def single(draw):
    dim = draw(dims(4, 7))
    n = draw(sizes(1, 40, big=700))
    return dict(dim=dim, values=draw(points(n, dim, distinct=False)), p=draw(st.sampled_from(gen.PNORMS + [1.5, 7.0])),
                x=draw(around(draw(sizes(1, 30, big=700)), dim)), k=draw(st.one_of(st.integers(1, 6), st.integers(1, 60))))


def once(case, t):
    s = gen.plain_set(case["values"], case["dim"], case["p"])
    x = np.array(case["x"])
    dist, ptr = s.query(x, k=case["k"])
    nearest_ok(dist, ptr, x, case["values"], gen.pn(case["p"]), case["k"])
    t.nontrivial(len(case["values"]) > case["k"])
    t.label("p=%s" % case["p"])


PROP = Prop("C04", "nearest neighbours", [
    Sub("history", histories(), history, quick=2500, thorough=80000,
        rule="non-trivial: a query after the values changed following an earlier query"),
    Sub("once", single(), once, quick=1500, thorough=40000, rule="non-trivial: more samples than neighbours asked for"),
])
