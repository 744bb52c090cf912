"""C01: inverting an output measure conserves the mass of every contour event."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


@st.composite
def problems(draw, kinds=("voronoi", "rectangle", "cartesian"), max_n=14):
    n = draw(sizes(1, max_n, big=700))
    din, dout = draw(dims()), draw(dims(3, 5))
    vols = draw(st.sampled_from(["mc", "arbitrary", "arbitrary", "zeros"]))
    return dict(
        din=din, dout=dout,
        inputs=draw(points(n, din)), outputs=draw(points(n, dout, distinct=False)),
        volumes=None if vols == "mc" else draw(weights(n, positive=(vols == "arbitrary"))),
        measure=draw(gen.measure_cells(dout, kinds=kinds)),
        perm=draw(perms(n)),
        local_first=draw(st.sampled_from([False, True, "early"])), via_setter=draw(st.booleans()), ptr_first=draw(st.booleans()),
        p_in=draw(st.sampled_from(gen.PNORMS)))


def build(case, order=None):
    import bet.sample as samp
    idx = np.arange(len(case["inputs"])) if order is None else np.array(order)
    inp = gen.plain_set(np.array(case["inputs"])[idx], case["din"], case["p_in"], [[0, 1]] * case["din"])
    if case["local_first"] == "early":      # distributed before the volumes are known
        inp.global_to_local()
    if case["volumes"] is not None:
        v = np.array(case["volumes"])
        inp.set_volumes((v / v.sum())[idx])
    else:
        inp.estimate_volume_mc()
    out = gen.plain_set(np.array(case["outputs"])[idx], case["dout"])
    m = gen.build_measure(case["measure"])
    if case["local_first"] is True:
        inp.global_to_local()
        out.global_to_local()
    if case["via_setter"]:
        d = samp.discretization(inp, out)
        d.set_output_probability_set(m)
    else:
        d = samp.discretization(inp, out, output_probability_set=m)
    if case["ptr_first"]:
        d.set_io_ptr()
    return d


def volumes_of(case):
    n = len(case["inputs"])
    if case["volumes"] is None:
        return np.ones(n) / n
    v = np.array(case["volumes"])
    return v / v.sum()


def owners(case, disc):
    """Cell index of each output from geometry alone."""
    d = case["measure"]
    if d["kind"] != "cartesian":
        return gen.measure_owner(d, case["outputs"])
    # the grid's own listing order is read off its cell centres
    boxes = gen.cartesian_boxes(d["edges"])
    own, clear = o.rect_owner(case["outputs"], boxes)
    centres = np.array([(np.array(b[0]) + np.array(b[1])) / 2 for b in boxes])
    listed = np.asarray(disc.get_output_probability_set().get_values())[:-1]
    check(listed.shape == centres.shape, "a Cartesian grid has exactly the product cells", got=listed.shape,
          want=centres.shape)
    dist = o.pdist(centres, listed, 2.0)
    to = dist.argmin(axis=1)
    check(bool(np.all(dist.min(axis=1) < 1e-9)) and len(set(to.tolist())) == len(to),
          "grid cell centres are those of the product cells")
    full = np.append(to, len(boxes))
    return full[own], clear


def split(case, t):
    import bet.calculateP.calculateP as calcP
    disc = build(case)
    own, clear = owners(case, disc)
    if not clear:
        t.label("ambiguous")
        return
    mass = gen.measure_mass(case["measure"])
    want = o.split_mass(own, volumes_of(case), mass)
    calcP.prob(disc)
    got = np.array(disc.get_input_sample_set().get_probabilities())
    close(got, want, "probability of each input sample")
    close(whole(disc.get_input_sample_set().get_probabilities_local()), want, "local probability of each input sample")
    # event by event
    for e in range(len(mass)):
        here = own == e
        expect = mass[e] if volumes_of(case)[here].sum() > 0 else 0.0
        close(got[here].sum(), expect, "mass of event %d" % e)
    check(disc.get_input_sample_set().get_prob_type() == "voronoi", "solution is a cell-wise measure")
    # the data are untouched
    same(disc.get_input_sample_set().get_values(), np.array(case["inputs"]), "input values unchanged")
    same(disc.get_output_sample_set().get_values(), np.array(case["outputs"]), "output values unchanged")
    close(disc.get_input_sample_set().get_volumes(), volumes_of(case), "volumes unchanged")
    close(disc.get_output_probability_set().get_probabilities(), mass, "output measure unchanged")
    # again on the same discretization, and on a copy
    calcP.prob(disc)
    close(disc.get_input_sample_set().get_probabilities(), want, "second solve on the same discretization")
    cp = disc.copy()
    calcP.prob(cp)
    close(cp.get_input_sample_set().get_probabilities(), want, "solve on a copy")
    # permuted samples
    pd = build(case, case["perm"])
    calcP.prob(pd)
    close(pd.get_input_sample_set().get_probabilities(), want[np.array(case["perm"])], "permuted samples")
    # local only
    ld = build(case)
    calcP.prob(ld, globalize=False)
    close(whole(ld.get_input_sample_set().get_probabilities_local()), want, "solve without globalizing")
    shared = len(set(own.tolist())) < len(own)
    t.nontrivial(shared and len(set(own.tolist())) > 1)
    t.label("kind=" + case["measure"]["kind"], "vol=" + ("mc" if case["volumes"] is None else "given"),
            "empty_event" if set(range(len(mass))) - set(own.tolist()) else "all_events_hit")


@st.composite
def updates(draw):
    c = draw(problems(kinds=("voronoi", "rectangle"), max_n=8))
    n = len(c["inputs"])
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["volumes", "mass", "mc", "solve", "local", "global"]))
        if k == "volumes":
            steps.append([k, draw(weights(n))])
        elif k == "mass":
            steps.append([k, draw(weights(len(c["measure"]["mass"])))])
        else:
            steps.append([k])
    c["steps"] = steps
    return c


def history(case, t):
    """Volumes and the output measure may change between solves; each solve uses the current ones."""
    import bet.calculateP.calculateP as calcP
    disc = build(case)
    own, clear = owners(case, disc)
    if not clear:
        t.label("ambiguous")
        return
    vol, mass = volumes_of(case), gen.measure_mass(case["measure"])
    calcP.prob(disc)
    solves = 0
    for s in case["steps"] + [["solve"]]:
        if s[0] == "volumes":
            vol = np.array(s[1])
            disc.get_input_sample_set().set_volumes(np.array(s[1]))
        elif s[0] == "mass":
            mass = normalized(s[1])
            disc.get_output_probability_set().set_probabilities(mass.copy())
        elif s[0] == "mc":
            vol = np.ones(len(own)) / len(own)
            disc.get_input_sample_set().estimate_volume_mc()
        elif s[0] == "local":
            disc.global_to_local()
        elif s[0] == "global":
            disc.local_to_global()
        else:
            calcP.prob(disc)
            solves += 1
            close(disc.get_input_sample_set().get_probabilities(), o.split_mass(own, vol, mass),
                  "solve %d after changes" % solves)
    t.nontrivial(any(s[0] in ("volumes", "mass", "mc") for s in case["steps"]) and len(own) > 1)


PROP = Prop("C01", "contour-event mass", [
    Sub("split", problems(), split, quick=1500, thorough=60000,
        rule="non-trivial: at least two events are hit and one of them by several samples"),
    Sub("history", updates(), history, quick=800, thorough=30000,
        rule="non-trivial: volumes or output measure changed between solves, more than one sample"),
], assumptions=["cases where an output lies on the boundary between output cells are skipped (counted under 'ambiguous')"])
