"""C35: calculations do not alter what they read, and asking again gives the same answer."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import scenes
from vp.props.c33 import problems, quiet


def snapshot(obj):
    return {k: freeze(v) for k, v in vars(obj).items() if v is not None and not callable(getattr(v, "query", None))}


def freeze(v):
    import copy
    if isinstance(v, np.ndarray):
        return v.copy()
    return copy.deepcopy(v) if isinstance(v, (list, tuple, dict, str, int, float, bool)) else v


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a, key=str) == sorted(b, key=str) and all(equal(a[k], b[k]) for k in a)
    return a is b or a == b


RESULTS = {"_probabilities", "_probabilities_local", "_volumes", "_volumes_local", "_radii", "_radii_local", "_normalized_radii", "_normalized_radii_local",
           "_weights", "_weights_local", "_prob_type", "_prob_parameters"}


def public(k):
    """Contents a user can see: the arrays, domain, norm and densities (not the caches of bounds and trees)."""
    return k in ("_dim", "_domain", "_p_norm", "_reference_value", "_region", "_region_local", "_values", "_values_local", "_jacobians", "_jacobians_local",
                 "_error_estimates", "_error_estimates_local", "_error_id", "_cluster_maps", "_labels", "_prob_type_init", "_prob_parameters_init", "_weights_init") or k in RESULTS


# What a calculation is there to set, by routine of the table and role of the set.
SETS = dict(
    prob=dict(in_="probabilities prob_type"), prob_emulated=dict(in_="probabilities prob_type volumes", em="probabilities prob_type"),
    volumes=dict(in_="volumes"), random_volumes=dict(in_="volumes radii"),
    surrogate_probability=dict(in_="probabilities prob_type error_id", em="volumes probabilities prob_type"),
    model_error=dict(in_="probabilities prob_type", em="volumes"), sampling_error=dict(in_="probabilities prob_type", em="volumes"),
    density_inversion=dict(in_="weights prob_type prob_parameters"), inversion_ratios=dict(in_="weights"))


def bystanders(S, r, rs):
    """Give every set whatever it lacks and the calculation neither needs nor sets: it has to be there afterwards."""
    for s, role in S.kept:
        if role is None:
            continue
        sets = SETS.get(r.name, {}).get(role if role != "in" else "in_", "").split()
        n = s.check_num()
        for a in ("weights", "error_id", "volumes", "probabilities", "reference_value"):
            if a not in sets and getattr(s, "_" + a) is None:
                getattr(s, "set_" + a)(rs.random_sample(s.get_dim() if a == "reference_value" else n))
        if "prob_type" not in sets and s.get_prob_type() is None:
            s.set_prob_type("voronoi")
        S.spread(s)


def reading(c, t):
    r = scenes.TABLE[c["routine"]]
    with quiet(), np.errstate(all="ignore"):
        S = scenes.Scene(c, lay=c["lay"])
        go = r.f(S)
        if c["rng"] % 3:
            bystanders(S, r, np.random.RandomState(c["rng"] % 2 ** 32))
        before = [(o, snapshot(o)) for o, _ in S.kept]
        np.random.seed(c["rng"] % 2 ** 32)
        a = scenes.results(go)
        for o, old in before:
            for k, v in old.items():
                if public(k):
                    check(equal(v, getattr(o, k)), "%s alters %s of a set it was given" % (r.name, k), was=v, now=getattr(o, k))
        if not r.again:
            return
        np.random.seed(c["rng"] % 2 ** 32)
        b = scenes.results(go)
        fresh = r.f(scenes.Scene(c, lay=c["lay"]))
        np.random.seed((c["rng"] + 1) % 2 ** 32)
    check(len(a) == len(b), "%s: same results on asking again" % r.name)
    n = 0
    for (what, x, _, _, _), (_, y, _, _, _) in zip(a, b):
        if x is not None:
            close(y, x, "%s, %s: asked again" % (r.name, what), rtol=1e-12, atol=1e-14, nan_equal=True)
            n += x.size
    t.nontrivial(n > 1)
    t.label(r.name)


PROP = Prop("C35", "asking changes nothing", [
    Sub("reading", problems(sorted(scenes.TABLE)), reading, quick=3000, thorough=60000, rule="non-trivial: the calculation returns more than one number, twice"),
], assumptions=["random routines run with the same seed both times"])
