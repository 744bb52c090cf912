"""C02: solving with emulated samples."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o
from vp.props import c01


@st.composite
def problems(draw):
    c = draw(c01.problems(kinds=("voronoi", "voronoi", "rectangle"), max_n=8))
    m = draw(sizes(1, 30, big=700))
    c["emulated"] = draw(points(m, c["din"]))
    c["em_local_first"] = draw(st.booleans())
    c["em_via_setter"] = draw(st.booleans())
    c["ii_first"] = draw(st.sampled_from(["no", "global", "local"]))
    c["before"] = draw(st.lists(st.sampled_from(["prob", "emulated", "volumes"]), max_size=2))
    return c


def build(case):
    import bet.sample as samp
    d = c01.build(case)
    em = gen.plain_set(case["emulated"], case["din"], 2.0, [[0, 1]] * case["din"])
    if case["em_local_first"]:
        em.global_to_local()
    if case["em_via_setter"]:
        d.set_emulated_input_sample_set(em)
    else:
        d = samp.discretization(d.get_input_sample_set(), d.get_output_sample_set(),
                                output_probability_set=d.get_output_probability_set(),
                                emulated_input_sample_set=em)
    if case["ii_first"] != "no":
        d.set_emulated_ii_ptr(globalize=case["ii_first"] == "global")
    return d


def emulate(case, t):
    import bet.calculateP.calculateP as calcP
    disc = build(case)
    own, clear1 = c01.owners(case, disc)
    ii, clear2 = o.nearest(case["emulated"], case["inputs"], gen.pn(case["p_in"]))
    if not (clear1 and clear2):
        t.label("ambiguous")
        return
    mass = gen.measure_mass(case["measure"])
    frac = o.fractions(ii, len(case["inputs"]))
    want_em = o.split_mass(own[ii], np.ones(len(ii)), mass)
    want_in = o.split_mass(own, frac, mass)
    have_vol = volumes = c01.volumes_of(case)
    for b in case["before"]:
        if b == "prob":
            calcP.prob(disc)
        elif b == "emulated":
            calcP.prob_on_emulated_samples(disc)
        else:
            disc.estimate_input_volume_emulated()
            close(disc.get_input_sample_set().get_volumes(), frac, "volumes estimated from emulated samples")
            volumes = frac
    calcP.prob_on_emulated_samples(disc)
    em = disc.get_emulated_input_sample_set()
    close(em.get_probabilities(), want_em, "probability of each emulated sample")
    close(whole(em.get_probabilities_local()), want_em, "local probability of each emulated sample")
    check(em.get_prob_type() == "voronoi", "emulated solution is a cell-wise measure")
    reached = sorted(set(own[ii].tolist()))
    close(np.sum(em.get_probabilities()), mass[reached].sum(), "total mass of the events reached")
    same(em.get_values(), np.array(case["emulated"]), "emulated values unchanged")
    close(disc.get_input_sample_set().get_volumes(), volumes, "volumes not changed by solving on emulated samples")
    # globalize=False
    d2 = build(case)
    calcP.prob_on_emulated_samples(d2, globalize=False)
    close(whole(d2.get_emulated_input_sample_set().get_probabilities_local()), want_em, "without globalizing")
    # volumes from emulated samples, then invert
    calcP.prob_with_emulated_volumes(disc)
    inp = disc.get_input_sample_set()
    close(inp.get_volumes(), frac, "emulated volumes are the fractions of points nearest to each sample")
    close(inp.get_probabilities(), want_in, "solution with emulated volumes")
    d3 = build(case)
    d3.estimate_input_volume_emulated()
    calcP.prob(d3)
    close(d3.get_input_sample_set().get_probabilities(), want_in, "volumes first, then invert")
    t.nontrivial(len(set(own[ii].tolist())) > 1 and len(set(ii.tolist())) < len(ii))
    t.label("unreached_event" if len(reached) < len(mass) else "all_reached")


PROP = Prop("C02", "emulated solutions", [
    Sub("emulate", problems(), emulate, quick=1200, thorough=50000,
        rule="non-trivial: emulated samples reach at least two events and share nearest model samples"),
], assumptions=["cases with a point equidistant from two samples or on a cell boundary are skipped (label 'ambiguous')"])
