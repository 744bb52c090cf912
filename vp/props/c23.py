"""C23: sorting samples by density and selecting the most or least probable ones."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen


@st.composite
def cases(draw):
    n, dim, odim = draw(sizes(1, 12, big=700)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["distinct", "distinct", "any", "dyadic"]))
    if kind == "distinct":
        P = [float(k) for k in draw(perms(n + 1))][:n]
        if sum(P) == 0:
            P[0] = 1.0
    elif kind == "dyadic":       # partial sums are exact in every order
        P = [float(k) for k in draw(perms(n + 1))][:n]
        total = 1
        while total < sum(P):
            total *= 2
        P[0] += total - sum(P)
    else:
        P = draw(weights(n))
    P = (normalized(P) * draw(st.sampled_from([1.0, 1.0, 1.0, 2.0]))).tolist()
    if kind == "any" and draw(st.booleans()):
        # probabilities that are all but nothing still count
        P = [2.0 ** -draw(st.sampled_from([54, 60, 300])) if p > 0 and draw(st.integers(0, 3)) == 0 else p for p in P]
    V = draw(st.sampled_from(["none", "positive", "zeros"]))
    vol = None
    if V != "none":
        vol = draw(weights(n, positive=V == "positive"))
    x = np.random.RandomState(draw(SEED)).random_sample((n, dim + odim))
    return dict(P=P, exact=kind == "dyadic", vol=vol, x=x[:, :dim].tolist(), y=x[:, dim:].tolist(), disc=draw(st.booleans()),
                pct=draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.9, 1.5]), st.integers(0, 1000).map(lambda k: k / 1000.0),
                                   st.tuples(st.integers(0, n), st.just("cum")).map(list))),
                sort=draw(st.sampled_from([True, True, True, False])), fn=draw(st.sampled_from(["highest", "lowest", "prob"])),
                desc=draw(st.booleans()))


def build(c):
    import bet.sample as samp
    s = gen.plain_set(c["x"], len(c["x"][0]))
    s.set_probabilities(np.array(c["P"]))
    if c["vol"] is not None:
        s.set_volumes(np.array(c["vol"]))
    if not c["disc"]:
        return s, s
    return samp.discretization(s, gen.plain_set(c["y"], len(c["y"][0]))), s


def density(c):
    P = np.array(c["P"])
    if c["vol"] is None:
        return P
    v = np.array(c["vol"])
    return np.where(P > 0, np.where(v > 0, P / np.where(v > 0, v, 1.0), np.inf), 0.0)


def carried(c, out, idx, what):
    idx = np.asarray(idx, dtype=int)
    inp = out.get_input_sample_set() if c["disc"] else out
    same(inp.get_values(), np.array(c["x"])[idx], what + ": values of the kept samples")
    same(inp.get_probabilities(), np.array(c["P"])[idx], what + ": probabilities of the kept samples")
    if c["vol"] is None:
        check(inp.get_volumes() is None, what + ": no volumes invented")
    else:
        same(inp.get_volumes(), np.array(c["vol"])[idx], what + ": volumes of the kept samples")
    if c["disc"]:
        same(out.get_output_sample_set().get_values(), np.array(c["y"])[idx], what + ": outputs of the kept samples")


def untouched(c, s, obj):
    same(s.get_values(), np.array(c["x"]), "the given set keeps its values")
    same(s.get_probabilities(), np.array(c["P"]), "the given set keeps its probabilities")
    if c["vol"] is not None:
        same(s.get_volumes(), np.array(c["vol"]), "the given set keeps its volumes")
    if c["disc"]:
        same(obj.get_output_sample_set().get_values(), np.array(c["y"]), "the given discretization keeps its outputs")


def sorted_(c, t):
    import bet.postProcess.postTools as pt
    obj, s = build(c)
    out, idx = pt.sort_by_rho(obj)
    idx = np.asarray(idx, dtype=int)
    P, rho = np.array(c["P"]), density(c)
    same(np.sort(idx), np.flatnonzero(P > 0), "exactly the samples of positive probability are kept")
    r = rho[idx]
    check(bool(np.all(r[:-1] >= r[1:] * (1 - 1e-12))), "densities decrease", got=r)
    carried(c, out, idx, "sort_by_rho")
    untouched(c, s, obj)
    raises(pt.bad_object, lambda: pt.sort_by_rho([1.0]), "not a sample set")
    t.nontrivial(len(idx) > 2)
    t.label("zeros" if len(idx) < len(P) else "all positive", "volumes" if c["vol"] else "no volumes")


def select(c, t):
    import bet.postProcess.postTools as pt
    obj, s = build(c)
    P, rho = np.array(c["P"]), density(c)
    desc = c["fn"] == "lowest" or (c["fn"] == "prob" and c["desc"])
    # candidates in the order in which they are taken
    if c["sort"]:
        pos = np.flatnonzero(P > 0)
        order = pos[np.argsort(-rho[pos], kind="stable")]
    else:
        order = np.arange(len(P))
    if desc:
        order = order[::-1]
    cum = np.cumsum(P[order])
    pct = c["pct"]
    if isinstance(pct, list):      # exactly at a cumulative sum
        k = min(pct[0], len(cum) - 1)
        pct = float(cum[k])
    if c["fn"] == "highest":
        num, out, idx = pt.sample_highest_prob(pct, obj, **({} if c["sort"] else dict(sort=False)))
    elif c["fn"] == "lowest":
        num, out, idx = pt.sample_lowest_prob(pct, obj, **({} if c["sort"] else dict(sort=False)))
    else:
        num, out, idx = pt.sample_prob(pct, obj, **dict({} if c["sort"] else dict(sort=False), **({} if not c["desc"] else dict(descending=True))))
    idx = np.asarray(idx, dtype=int)
    check(len(idx) == num, "as many indices as samples", num=num, got=len(idx))
    check(len(set(idx.tolist())) == num and set(idx.tolist()) <= set(order.tolist()), "distinct candidate samples", got=idx)
    carried(c, out, idx, "selection")
    eps = 0.0 if c["exact"] else 1e-12
    total = P[idx].sum()
    check(total <= pct + eps, "the selected mass does not exceed the target", got=total, target=pct)
    rest = np.array([i for i in order if i not in set(idx.tolist())], int)
    if c["sort"]:
        sgn = 1.0 if desc else -1.0
        key = sgn * rho
        k = key[idx]
        check(bool(np.all(k[:-1] <= k[1:] + 1e-12 * np.abs(k[1:]))) if len(k) > 1 and np.all(np.isfinite(k)) else True,
              "samples are taken in order of density", got=rho[idx])
        if len(rest):
            if len(idx):
                check(key[idx].max() <= key[rest].min() + 1e-12 * abs(key[rest].min()) if np.isfinite(key[rest].min()) else True,
                      "no left-out sample should have come earlier", kept=rho[idx], left=rho[rest])
            nxt = [i for i in rest if key[i] <= key[rest].min() or abs(key[i] - key[rest].min()) <= 1e-12 * abs(key[i])]
            check(any((total + P[i] > pct - eps) for i in nxt), "the next sample would exceed the target",
                  mass=total, target=pct, next=P[nxt])
    else:
        same(idx, order[:len(idx)], "samples are taken in the given order")
        if len(idx) < len(order):
            check(total + P[order[len(idx)]] > pct - eps, "the next sample would exceed the target", mass=total, target=pct)
    untouched(c, s, obj)
    t.nontrivial(0 < num < len(order))
    t.label(c["fn"], "sorted" if c["sort"] else "as given", "disc" if c["disc"] else "set")


PROP = Prop("C23", "selection by probability density", [
    Sub("sort", cases(), sorted_, quick=1500, thorough=60000, rule="non-trivial: at least three samples of positive probability"),
    Sub("select", cases(), select, quick=3000, thorough=120000, rule="non-trivial: some but not all candidates selected"),
], assumptions=["ties in density may be broken either way", "a cumulative mass within 1e-12 of the target may be in or out"])
