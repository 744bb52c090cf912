"""C08: sample sets keep their per-sample arrays consistent through every edit."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen

ATTRS = ["values", "volumes", "probabilities", "jacobians", "error_estimates", "region", "error_id"]
EXTRA = ["weights", "weights_init"]
UNIT = [1.0, 1.0, 1e-3, 1e6]


def fresh(attr, n, dim, seed):
    """Arrays whose rows are all different, so that a mixed up row is visible."""
    rs = np.random.RandomState(seed)
    if attr == "values":
        return rs.permutation(8 * n * dim + 8)[:n * dim].reshape(n, dim) / 8.0
    if attr == "jacobians":
        return rs.permutation(4 * n * dim * 2 + 8)[:n * dim * 2].reshape(n, 2, dim) / 4.0
    if attr == "error_estimates":
        return rs.permutation(4 * n * dim + 8)[:n * dim].reshape(n, dim) / 4.0
    if attr in ("region", "error_id"):
        return rs.permutation(n + 5)[:n]
    return rs.permutation(4 * n + 4)[:n] / 16.0


def get(s, a):
    return getattr(s, "get_" + a)()


@st.composite
def histories(draw):
    dim = draw(dims())
    n = draw(sizes(1, 7, big=300))
    ops = []
    for _ in range(draw(sizes(1, 10))):
        k = draw(st.sampled_from(["set", "set", "set_local", "append", "clip", "copy", "to_local", "to_global",
                                  "bad", "merge", "bad_local"]))
        if k in ("set", "bad"):
            ops.append([k, draw(st.sampled_from(ATTRS + (EXTRA if k == "set" else []))), draw(st.integers(0, 999)),
                        draw(st.integers(1, 3))])
        elif k in ("set_local", "bad_local"):
            ops.append([k, draw(st.sampled_from(ATTRS)), draw(st.integers(0, 999)), draw(st.integers(1, 3))])
        elif k in ("append", "clip", "merge"):
            ops.append([k, draw(st.integers(1, 5)), draw(st.integers(0, 999))])
        else:
            ops.append([k])
    return dict(dim=dim, n=n, seed=draw(st.integers(0, 999)), ops=ops)


def history(case, t):
    import bet.sample as samp
    dim, n = case["dim"], case["n"]
    s = samp.sample_set(dim)
    G, L = {a: None for a in ATTRS + EXTRA}, {a: None for a in ATTRS}
    G["values"] = fresh("values", n, dim, case["seed"])
    s.set_values(layout(G["values"]))
    # bounds that need all their digits
    domain = np.array([[-1.0 / (3 + i), 100.0 + 1.0 / (7 + case["seed"] + i)] for i in range(dim)]) * UNIT[case["seed"] % len(UNIT)]
    s.set_domain(domain.copy())

    def verify(s, G, L, what):
        for a in ATTRS + EXTRA:
            if G[a] is None:
                check(get(s, a) is None, what + ": %s absent" % a, got=get(s, a))
            else:
                same(get(s, a), G[a], "%s: %s" % (what, a))
        for a in ATTRS:
            if L[a] is None:
                check(get(s, a + "_local") is None, what + ": local %s absent" % a, got=get(s, a + "_local"))
            else:
                same(whole(get(s, a + "_local")), L[a], "%s: local %s" % (what, a))
        check(s.check_num() == len(G["values"]), what + ": number of samples", got=s.check_num(), want=len(G["values"]))
        if any(v is not None for v in L.values()):
            check(len(whole(np.zeros(s.check_num_local()))) == len(G["values"]), what + ": local number of samples")
        check(s.shape() == G["values"].shape, what + ": shape")
        if L["values"] is not None:
            check(s.shape_local() == part(L["values"]).shape, what + ": local shape")
        check(s.get_dim() == dim, what + ": dimension")
        same(s.get_domain(), domain, what + ": domain")
        bb = np.stack([G["values"].min(axis=0), G["values"].max(axis=0)], axis=1)
        same(s.get_bounding_box(), bb, what + ": bounding box")

    verify(s, G, L, "start")
    edits = 0
    for i, op in enumerate(case["ops"]):
        n = len(G["values"])
        what = "after step %d %s" % (i, op[0])
        if op[0] == "set":
            v = fresh(op[1], n, dim, op[2])
            getattr(s, "set_" + op[1])(layout(v))
            G[op[1]] = v
            if op[1] in L and L[op[1]] is not None:
                L[op[1]] = v
        elif op[0] == "set_local":
            v = fresh(op[1], n, dim, op[2])
            getattr(s, "set_" + op[1] + "_local")(part(layout(v)))
            L[op[1]] = v
        elif op[0] == "bad":
            # a global array of another length is reported, whatever else is set
            if op[1] == "values" and all(G[a] is None for a in ATTRS if a != "values"):
                continue
            keep = None if get(s, op[1]) is None else np.array(get(s, op[1]))
            getattr(s, "set_" + op[1])(fresh(op[1], n + op[3], dim, op[2]))
            raises(samp.length_not_matching, s.check_num, what)
            getattr(s, "set_" + op[1])(keep) if keep is not None else getattr(s, "set_" + op[1])(
                fresh(op[1], n, dim, 5))
            if keep is None:
                G[op[1]] = fresh(op[1], n, dim, 5)
                if L[op[1]] is not None:
                    L[op[1]] = G[op[1]]
            elif L[op[1]] is not None:
                L[op[1]] = G[op[1]]
        elif op[0] == "bad_local":
            if all(L[a] is None for a in ATTRS if a != op[1]):
                continue
            keep = None if L[op[1]] is None else L[op[1]]
            getattr(s, "set_" + op[1] + "_local")(fresh(op[1], part(np.zeros(n)).shape[0] + op[3], dim, op[2]))
            raises(samp.length_not_matching, s.check_num_local, what)
            v = keep if keep is not None else fresh(op[1], n, dim, 6)
            getattr(s, "set_" + op[1] + "_local")(part(layout(v)))
            L[op[1]] = v
        elif op[0] == "append":
            # new samples, with all the attributes that exist
            m = op[1]
            add = {a: fresh(a, m, dim, op[2]) for a in ATTRS}
            s.append_values(layout(add["values"]))
            for a in ATTRS:
                if G[a] is None:
                    continue
                new = np.concatenate([G[a], add[a]])
                if a in ("jacobians", "error_estimates"):
                    getattr(s, "append_" + a)(layout(add[a]))
                elif a != "values":
                    getattr(s, "set_" + a)(layout(new))
                G[a] = new
            for a in EXTRA:
                if G[a] is not None:
                    G[a] = fresh(a, n + m, dim, 3)
                    getattr(s, "set_" + a)(layout(G[a]))
            for a in ATTRS:
                if L[a] is None:
                    continue
                if G[a] is not None:
                    L[a] = G[a]
                else:
                    L[a] = np.concatenate([L[a], add[a]])
                    getattr(s, "set_" + a + "_local")(part(layout(L[a])))
        elif op[0] == "clip":
            # attributes known only locally are gathered first
            s.local_to_global()
            for a in ATTRS:
                if L[a] is not None:
                    G[a] = L[a]
            old, oldG, oldL = s, dict(G), dict(L)
            s = s.clip(op[1])
            k = op[1]
            G = {a: None if G[a] is None else G[a][:k] for a in G}
            if L["values"] is not None:
                L = {a: G[a] for a in L}
            else:
                L = {a: L[a] for a in L}
                for a in ATTRS:
                    if L[a] is not None:     # local copies of a set without local values are not maintained by clip
                        getattr(s, "set_" + a + "_local")(part(layout(G[a])))
                        L[a] = G[a]
            verify(old, oldG, oldL, what + " (original)")
        elif op[0] == "copy":
            old = s
            s = s.copy()
            check(s == old, what + ": a copy is equal to the original")
            # wreck the original in place: the copy must not notice
            for a in ATTRS:
                v = get(old, a)
                if v is not None:
                    v[...] = 77
                v = get(old, a + "_local")
                if v is not None:
                    v[...] = 77
            old.get_domain()[...] = 5.0
        elif op[0] == "to_local":
            s.global_to_local()
            for a in ATTRS:
                if G[a] is not None:
                    L[a] = G[a]
        elif op[0] == "to_global":
            s.local_to_global()
            for a in ATTRS:
                if L[a] is not None:
                    G[a] = L[a]
        elif op[0] == "merge":
            if several():
                continue     # merging keeps the samples of a process together, so the order depends on their number
            s.local_to_global()
            for a in ATTRS:
                if L[a] is not None:
                    G[a] = L[a]
            other = samp.sample_set(dim)
            ov = fresh("values", op[1], dim, op[2])
            other.set_values(layout(ov))
            if op[2] % 2:
                other.set_domain(domain.copy())
            s.set_p_norm(3.0)
            m = s.merge(other)
            same(m.get_values(), np.concatenate([G["values"], ov]), what + ": merged values")
            check(m.check_num() == n + op[1], what + ": merged number")
            check(m.get_p_norm() == 3.0, what + ": merged p-norm")
            same(m.get_domain(), domain, what + ": merged domain")
            same(other.get_values(), ov, what + ": other set unchanged")
            rev = other.merge(s)
            same(rev.get_values(), np.concatenate([ov, G["values"]]), what + ": merged the other way round")
            same(rev.get_domain(), domain, what + ": domain merged the other way round")
            wrong = samp.sample_set(dim + 1)
            wrong.set_values(np.zeros((1, dim + 1)))
            raises(samp.dim_not_matching, lambda: s.merge(wrong), what + ": merge with another dimension")
            wrong = samp.sample_set(dim)
            wrong.set_values(np.zeros((1, dim)))
            wrong.set_domain(domain + (domain[:, [1]] - domain[:, [0]]))
            raises(samp.domain_not_matching, lambda: s.merge(wrong), what + ": merge with another domain")
            near = domain.copy()
            near[op[2] % dim, op[2] % 2] += 0.01 * (domain[op[2] % dim, 1] - domain[op[2] % dim, 0])
            wrong.set_domain(near)
            raises(samp.domain_not_matching, lambda: s.merge(wrong), what + ": merge with a domain that differs by a hundredth in one bound")
            if L["values"] is None:
                # merging distributes the two sets
                for a in ATTRS:
                    if G[a] is not None:
                        L[a] = G[a]
            check(s == s.copy(), "still usable")
        verify(s, G, L, what)
        edits += op[0] in ("append", "clip", "copy", "merge", "to_local", "to_global")
    t.nontrivial(edits > 0 and sum(v is not None for v in G.values()) > 1 and len(G["values"]) > 1)
    for op in case["ops"]:
        t.label(op[0])


@st.composite
def shapes(draw):
    dim = draw(st.integers(1, 4))
    return dict(dim=dim, n=draw(st.integers(1, 6)), wrong=draw(st.integers(1, 4)), seed=draw(st.integers(0, 999)))


def rejects(case, t):
    """Values, domains and reference values of another dimension are rejected."""
    import bet.sample as samp
    dim, n, w = case["dim"], case["n"], case["wrong"]
    s = samp.sample_set(dim)
    v = fresh("values", n, dim, case["seed"])
    s.set_values(layout(v))
    same(s.get_values(), v, "values kept")
    if dim == 1:
        s.set_values(v[:, 0].copy())
        same(s.get_values(), v, "a flat list of one-dimensional samples")
    if w != dim and n != dim:
        bad = np.ones((n, w))
        raises(samp.dim_not_matching, lambda: samp.sample_set(dim).set_values(bad), "values of another dimension")
        raises(samp.dim_not_matching, lambda: samp.sample_set(dim).set_values_local(bad), "local values of another dimension")
    if w != dim:
        raises(samp.dim_not_matching, lambda: s.set_domain(np.ones((w, 2))), "domain of another dimension")
        raises(samp.dim_not_matching, lambda: s.set_reference_value(np.ones(w)), "reference value of another dimension")
    ref = np.arange(dim) + 0.5
    s.set_reference_value(ref.copy())
    close(np.ravel(s.get_reference_value()), ref, "reference value kept")
    dom = np.stack([np.arange(dim) * 1.0, np.arange(dim) + 2.0], axis=1)
    s.set_domain(dom.copy())
    same(s.get_domain(), dom, "domain kept")
    s.set_labels(["x%d" % i for i in range(dim)])
    check(s.get_labels() == ["x%d" % i for i in range(dim)], "labels kept")
    # inconsistent discretizations
    other = samp.sample_set(1)
    other.set_values(np.zeros((n + w, 1)))
    raises(samp.length_not_matching, lambda: samp.discretization(s, other), "input and output of different lengths")
    # pointwise bounds
    t.nontrivial(w != dim)


PROP = Prop("C08", "arrays stay consistent", [
    Sub("history", histories(), history, quick=2000, thorough=60000,
        rule="non-trivial: several attributes, several samples and at least one append, clip, copy, merge or communication"),
    Sub("rejects", shapes(), rejects, quick=300, thorough=4000, rule="non-trivial: a wrong dimension was offered"),
])
