"""C07: domain normalization is an exact affine round trip."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


@st.composite
def cases(draw):
    dim = draw(dims())
    n, other = draw(sizes(1, 6, big=300)), draw(st.integers(1, 3))
    seed = draw(st.integers(0, 10 ** 6))
    return dict(dim=dim, domain=draw(domains(dim)), values=draw(points(n, dim, lo=-0.25, hi=1.25)), other=other, seed=seed,
                jac=draw(st.booleans()), err=draw(st.booleans()), ref=draw(st.booleans()), integer=draw(st.booleans()),
                storage=draw(st.sampled_from(["global", "scattered", "gathered", "local_only"])),
                ops=draw(st.lists(st.sampled_from(["normalize", "undo", "to_local", "to_global", "query"]), max_size=6)))


def affine(case, t):
    import bet.sample as samp
    dim = case["dim"]
    dom = np.array(case["domain"])
    w, a = dom[:, 1] - dom[:, 0], dom[:, 0]
    u = np.array(case["values"])
    vals = a + u * w
    if case["integer"]:
        vals = np.round(vals).astype(int)
    rs = np.random.RandomState(case["seed"])
    n = len(vals)
    jac = rs.randint(-8, 9, (n, case["other"], dim)) / 4.0
    err = rs.randint(-8, 9, (n, dim)) / 4.0
    ref = a + w * rs.randint(0, 9, dim) / 8.0
    mine = dict(vals=vals.copy(), jac=jac.copy(), err=err.copy(), ref=ref.copy(), dom=dom.copy())
    s = samp.sample_set(dim)
    s.set_domain(dom)
    s.set_p_norm(2.0)
    if case["storage"] in ("global", "scattered"):
        s.set_values(layout(vals))
        if case["jac"]:
            s.set_jacobians(jac)
        if case["err"]:
            s.set_error_estimates(err)
        if case["storage"] == "scattered":
            s.global_to_local()
    else:
        s.set_values_local(part(vals))
        if case["jac"]:
            s.set_jacobians_local(part(jac))
        if case["err"]:
            s.set_error_estimates_local(part(err))
        if case["storage"] == "gathered":
            s.local_to_global()
    if case["ref"]:
        s.set_reference_value(ref)
    has_g = case["storage"] != "local_only"
    has_l = case["storage"] != "global"
    normed = False

    def expect():
        nonlocal normed
        v = (mine["vals"] - a) / w if normed else mine["vals"]
        j = mine["jac"] * w if normed else mine["jac"]
        e = (mine["err"] - a) / w if normed else mine["err"]
        r = (mine["ref"] - a) / w if normed else mine["ref"]
        d = np.array([[0.0, 1.0]] * dim) if normed else mine["dom"]
        state = "normalized" if normed else "restored"
        close(s.get_domain(), d, state + " domain")
        if has_g:
            close(s.get_values(), v, state + " values")
        if has_l:
            close(whole(s.get_values_local()), v, state + " local values")
        if case["jac"]:
            if has_g:
                close(s.get_jacobians(), j, state + " derivatives")
            if has_l:
                close(whole(s.get_jacobians_local()), j, state + " local derivatives")
        if case["err"]:
            if has_g:
                close(s.get_error_estimates(), e, state + " error estimates")
            if has_l:
                close(whole(s.get_error_estimates_local()), e, state + " local error estimates")
        if case["ref"]:
            close(s.get_reference_value(), r, state + " reference value")
        if has_g:
            bb = s.get_bounding_box()
            close(bb, np.stack([v.min(axis=0), v.max(axis=0)], axis=1), state + " bounding box")
    cycles = 0
    for op in case["ops"] + ["normalize", "undo"]:
        if op == "normalize":
            if normed:
                continue
            s.normalize_domain()
            normed = True
        elif op == "undo":
            s.undo_normalize_domain()
            cycles += normed
            normed = False
        elif op == "to_local":
            if not has_g:
                continue
            s.global_to_local()
            has_l = True
        elif op == "to_global":
            s.local_to_global()
            has_g = has_g or has_l
        elif op == "query" and has_g:
            v = (mine["vals"] - a) / w if normed else mine["vals"]
            dist, ptr = s.query(np.array(v, float))
            close(dist, np.zeros(n), "each sample is its own nearest sample", atol=1e-8)
        expect()
    same(vals, mine["vals"], "caller's values unchanged")
    same(jac, mine["jac"], "caller's derivatives unchanged")
    same(err, mine["err"], "caller's error estimates unchanged")
    same(ref, mine["ref"], "caller's reference value unchanged")
    same(dom, mine["dom"], "caller's domain unchanged")
    t.nontrivial(np.any(w != 1.0) or np.any(a != 0.0))
    t.label(case["storage"], "cycles=%d" % min(cycles, 3))


@st.composite
def rects(draw):
    dim = draw(st.integers(1, 3))
    boxes = draw(gen.box_family(dim))
    return dict(dim=dim, domain=draw(domains(dim)), boxes=boxes, x=draw(gen.points_about(boxes, draw(sizes(1, 12)))))


def rectangles(case, t):
    """Membership and volume fractions of boxes do not depend on normalization."""
    import bet.sample as samp
    dim = case["dim"]
    dom = np.array(case["domain"])
    s = samp.rectangle_sample_set(dim)
    s.setup(maxes=[in_domain(b[1], dom) for b in case["boxes"]], mins=[in_domain(b[0], dom) for b in case["boxes"]])
    s.set_domain(dom)
    own, clear = o.rect_owner(case["x"], case["boxes"], gap=1e-6)
    if not clear:
        t.label("ambiguous")
        return
    vol = [np.prod(np.array(b[1]) - np.array(b[0])) for b in case["boxes"]]
    vol = np.array(vol + [1.0 - sum(vol)])
    u = np.array(case["x"])
    x = in_domain(u, dom)
    same(s.query(x)[1], own, "cell of each point")
    s.exact_volume_lebesgue()
    close(s.get_volumes(), vol, "volume fractions")
    s.normalize_domain()
    same(s.query(u)[1], own, "cell of each normalized point")
    s.exact_volume_lebesgue()
    close(s.get_volumes(), vol, "volume fractions after normalizing")
    s.undo_normalize_domain()
    same(s.query(x)[1], own, "cell of each point after undoing")
    s.exact_volume_lebesgue()
    close(s.get_volumes(), vol, "volume fractions after undoing")
    t.nontrivial(len(set(own.tolist())) > 1)


PROP = Prop("C07", "normalization", [
    Sub("affine", cases(), affine, quick=2000, thorough=60000, rule="non-trivial: the domain is not already the unit box"),
    Sub("rectangles", rects(), rectangles, quick=800, thorough=20000, rule="non-trivial: points in more than one cell"),
])
