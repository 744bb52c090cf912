"""C33: results do not depend on the order in which samples, events, points or coordinates are given."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, scenes


@st.composite
def problems(draw, names):
    name = draw(st.sampled_from(names))
    return dict(routine=name, dim=draw(dims(3, 4)), odim=draw(st.integers(1, 3)), n=draw(sizes(14, 20, big=130)), m=draw(st.integers(1, 6)),
                seed=draw(SEED), p=draw(st.sampled_from(gen.PNORMS)), local=draw(st.booleans()), rng=draw(SEED), lay=draw(st.booleans()))


@st.composite
def cases(draw):
    c = draw(problems(sorted(k for k, r in scenes.TABLE.items() if r.order)))
    labels = scenes.TABLE[c["routine"]].order
    c["labels"] = "".join(sorted(draw(st.sets(st.sampled_from(list(labels)), min_size=1)))) if draw(st.booleans()) else labels
    c["pseed"] = draw(SEED)
    return c


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def relabel(c, t):
    r = scenes.TABLE[c["routine"]]
    with quiet(), np.errstate(all="ignore"):
        base = scenes.Scene(c, lay=False)
        a, _ = scenes.run(base, r, c["rng"])
        rs = np.random.RandomState(c["pseed"])
        perm = {l: rs.permutation(base.size[l]) for l in c["labels"]}
        S = scenes.Scene(c, perm=perm, lay=c["lay"])
        b, _ = scenes.run(S, r, c["rng"])
    n = scenes.compare(a, b, S, c["routine"])
    t.nontrivial(n > 1 and any(np.any(p != np.arange(len(p))) for p in perm.values()))
    t.label(c["routine"], *["labels " + l for l in c["labels"]])


PROP = Prop("C33", "order does not matter", [
    Sub("relabel", cases(), relabel, quick=3000, thorough=60000, rule="non-trivial: the calculation returns more than one number and something is actually reordered"),
], assumptions=["data in general position: no point equally near to two others, no two equal densities"])
