"""C03: transferring probabilities between sample sets."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


@st.composite
def pairs(draw):
    dim = draw(dims())
    n, m = draw(sizes(1, 9, big=513)), draw(sizes(1, 9, big=513))
    e = draw(sizes(1, 40, big=700))
    return dict(dim=dim, old=draw(points(n, dim)), new=draw(points(m, dim)), em=draw(points(e, dim)),
                p_old=draw(st.sampled_from(gen.PNORMS)), p_new=draw(st.sampled_from(gen.PNORMS)),
                mass=draw(weights(n)), em_mass=draw(weights(e)),
                norm=draw(st.booleans()),
                new_boxes=draw(gen.box_family(dim)) if draw(st.integers(0, 3)) == 3 else None,
                old_boxes=draw(gen.box_family(dim)) if draw(st.integers(0, 3)) == 3 else None,
                box_mass=draw(weights(5)),
                how=draw(st.sampled_from(["global", "local_first", "both", "late"])),
                stale=draw(st.booleans()))


def rects(boxes, dim):
    import bet.sample as samp
    s = samp.rectangle_sample_set(dim)
    s.setup(maxes=[b[1] for b in boxes], mins=[b[0] for b in boxes])
    s.set_domain(np.array([[0.0, 1.0]] * dim))
    return s


def with_mass(values, dim, p, mass, how, boxes=None):
    s = gen.plain_set(values, dim, p, [[0, 1]] * dim) if boxes is None else rects(boxes, dim)
    if how == "late":
        s.global_to_local()
    s.set_probabilities(np.array(mass, float))
    if how in ("local_first", "both"):
        s.global_to_local()
    return s


def target(case):
    if case["new_boxes"]:
        s = rects(case["new_boxes"], case["dim"])
    else:
        s = gen.plain_set(case["new"], case["dim"], case["p_new"], [[0, 1]] * case["dim"])
    if case["stale"]:
        s.set_probabilities(np.full(cells(case), 7.0))
        s.global_to_local()
    return s


def cells(case):
    return len(case["new_boxes"]) + 1 if case["new_boxes"] else len(case["new"])


def falls(x, case):
    """New cell of each point."""
    if case["new_boxes"]:
        return o.rect_owner(x, case["new_boxes"])
    return o.nearest(x, case["new"], gen.pn(case["p_new"]))


def stored(s, want, what):
    close(s.get_probabilities(), want, what)
    check(s.get_prob_type() == "voronoi", what + ": cell-wise measure")
    s.local_to_global()
    close(s.get_probabilities(), want, what + " (after gathering local arrays)")


def sample_set(case, t):
    import bet.calculateP.calculateP as calcP
    to, clear = falls(case["old"], case)
    if not clear:
        t.label("ambiguous")
        return
    mass = normalized(case["mass"]) if case["norm"] else np.array(case["mass"])
    want = np.array([mass[to == j].sum() for j in range(cells(case))])
    old, new = with_mass(case["old"], case["dim"], case["p_old"], mass, case["how"]), target(case)
    got = calcP.prob_from_sample_set(old, new)
    close(got, want, "mass received by each new cell")
    stored(new, want, "mass stored with the new set")
    close(old.get_probabilities(), mass, "old measure unchanged")
    close(new.get_probabilities().sum(), mass.sum(), "total mass")
    # onto itself
    again = gen.plain_set(case["old"], case["dim"], case["p_old"], [[0, 1]] * case["dim"])
    close(calcP.prob_from_sample_set(old, again), mass, "transfer onto the same samples")
    # the Monte Carlo route
    new2 = target(case)
    close(calcP.prob_from_sample_set_with_emulated_volumes(old, new2), want, "transfer without emulated points")
    stored(new2, want, "stored without emulated points")
    t.nontrivial(len(set(to.tolist())) > 1 and np.count_nonzero(mass) > 1)


def emulated(case, t):
    import bet.calculateP.calculateP as calcP
    if case["old_boxes"]:
        a, c1 = o.rect_owner(case["em"], case["old_boxes"])
    else:
        a, c1 = o.nearest(case["em"], case["old"], gen.pn(case["p_old"]))
    b, c2 = falls(case["em"], case)
    if not (c1 and c2):
        t.label("ambiguous")
        return
    mass = case["mass"] if not case["old_boxes"] else case["box_mass"][:len(case["old_boxes"])] + [0.5]
    mass = normalized(mass) if case["norm"] else np.array(mass)
    pts = o.split_mass(a, np.ones(len(a)), mass)
    if pts.sum() == 0:
        t.label("no point in the support")
        return
    missing = any(mass[i] > 0 and not np.any(a == i) for i in range(len(mass)))
    if missing:
        pts = pts / pts.sum()
    want = np.array([pts[b == j].sum() for j in range(cells(case))])
    old, new = with_mass(case["old"], case["dim"], case["p_old"], mass, case["how"], case["old_boxes"]), target(case)
    em = gen.plain_set(case["em"], case["dim"])
    if case["stale"]:
        em.global_to_local()
    got = calcP.prob_from_sample_set_with_emulated_volumes(old, new, em)
    close(got, want, "mass received by each new cell")
    stored(new, want, "mass stored with the new set")
    close(np.sum(got), 1.0 if missing else mass.sum(), "total mass")
    close(old.get_probabilities(), mass, "old measure unchanged")
    t.label("renormalized" if missing else "every old cell has points")
    t.nontrivial(len(set(b.tolist())) > 1 and len(set(a.tolist())) > 1)


def from_disc(case, t):
    import bet.calculateP.calculateP as calcP
    import bet.sample as samp
    ei, c1 = falls(case["em"], case)
    oi, c2 = falls(case["old"], case)
    if not (c1 and c2):
        t.label("ambiguous")
        return
    mass, em_mass = normalized(case["mass"]), normalized(case["em_mass"])
    out = gen.plain_set(np.zeros((len(case["old"]), 1)), 1)
    inp = with_mass(case["old"], case["dim"], case["p_old"], mass, case["how"])
    new = target(case)
    d = samp.discretization(inp, out)
    want = np.array([mass[oi == j].sum() for j in range(cells(case))])
    close(calcP.prob_from_discretization_input(d, new), want, "transfer of the input measure")
    stored(new, want, "stored transfer of the input measure")
    em = with_mass(case["em"], case["dim"], 2.0, em_mass, case["how"])
    d = samp.discretization(inp, out, emulated_input_sample_set=em)
    new = target(case)
    want = np.array([em_mass[ei == j].sum() for j in range(cells(case))])
    close(calcP.prob_from_discretization_input(d, new), want, "transfer of the emulated measure")
    stored(new, want, "stored transfer of the emulated measure")
    # sets of another dimension are rejected
    other = gen.plain_set(np.zeros((2, case["dim"] + 1)) + [[0.0], [0.5]], case["dim"] + 1)
    raises(samp.dim_not_matching, lambda: calcP.prob_from_discretization_input(d, other), "wrong dimension")
    raises(samp.dim_not_matching, lambda: calcP.prob_from_sample_set(inp, other), "wrong dimension")
    raises(samp.dim_not_matching, lambda: calcP.prob_from_sample_set_with_emulated_volumes(inp, other, em),
           "wrong dimension")
    t.nontrivial(len(set(ei.tolist())) > 1)


PROP = Prop("C03", "transfer", [
    Sub("sample_set", pairs(), sample_set, quick=1000, thorough=40000,
        rule="non-trivial: at least two new cells receive mass from at least two old samples of positive mass"),
    Sub("emulated", pairs(), emulated, quick=1000, thorough=40000,
        rule="non-trivial: emulated points occupy several old and several new cells"),
    Sub("from_disc", pairs(), from_disc, quick=1000, thorough=40000,
        rule="non-trivial: emulated samples fall in several new cells"),
], assumptions=["cases with equidistant cells are skipped", "at least one emulated point lies in the support of the old measure"])
