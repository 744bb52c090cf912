"""C34: results do not depend on the units and origin in which parameters and outputs are given."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import scenes
from vp.props.c33 import problems, quiet

SCALES = [2.0 ** -20, 2.0 ** -7, 0.3, 1.0, 3.7, 1000.0, 2.0 ** 20, 2.0 ** -30]


@st.composite
def scales(draw, n, kind, reflect, shift):
    if kind is None or n == 0:
        return [1.0] * n, [0.0] * n
    one = draw(st.sampled_from(SCALES))
    more = SCALES if kind == "any" else [one * k for k in (0.25, 0.3, 1.0, 3.7, 20.0)]     # covariances have to stay well conditioned
    a = [one if kind == "iso" or draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(more)) for _ in range(n)]
    a = [-v if reflect and draw(st.booleans()) else v for v in a]
    return a, [v * draw(st.integers(-4, 4)) / 2.0 if shift else 0.0 for v in a]


@st.composite
def cases(draw):
    c = draw(problems(sorted(k for k, r in scenes.TABLE.items() if r.ui or r.uo)))
    r = scenes.TABLE[c["routine"]]
    which = draw(st.sampled_from(["i", "o", "io", "io"]))
    c["ai"], c["bi"] = draw(scales(c["dim"], r.ui if "i" in which or not r.uo else None, r.reflect, draw(st.booleans())))
    c["ao"], c["bo"] = draw(scales(c["odim"], r.uo if "o" in which or not r.ui else None, r.reflect, draw(st.booleans())))
    c["volumes"] = draw(st.sampled_from([1.0, 2.0 ** -20, 2.0 ** -60, 2.0 ** 30]))
    return c


def units(c, t):
    r = scenes.TABLE[c["routine"]]
    with quiet(), np.errstate(all="ignore"):
        base = scenes.Scene(c, lay=False)
        a, _ = scenes.run(base, r, c["rng"])
        S = scenes.Scene(c, ai=c["ai"], bi=c["bi"], ao=c["ao"], bo=c["bo"], lay=c["lay"], volumes=c["volumes"])
        b, _ = scenes.run(S, r, c["rng"])
    n = scenes.compare(a, b, S, c["routine"])
    t.nontrivial(n > 0 and set(c["ai"] + c["ao"]) != {1.0})
    t.label(c["routine"], *(["reversed"] if min(c["ai"] + c["ao"]) < 0 else []))


PROP = Prop("C34", "units do not matter", [
    Sub("units", cases(), units, quick=3000, thorough=60000, rule="non-trivial: some coordinate is given in another unit or reversed and something is compared"),
], assumptions=["scales between 2^-30 and 2^20 per coordinate; calculations that measure distances are scaled equally in all coordinates",
                "random routines run with the same seed in both units"])
