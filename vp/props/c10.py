"""C10: results of a discretization reflect the sets it currently holds."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


@st.composite
def histories(draw):
    di, do = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    n = draw(sizes(1, 7, big=300))
    ops = []
    if draw(st.integers(0, 3)):
        for k in ("prob", "em_in", "em_out"):
            if draw(st.integers(0, 3)):
                ops.append([k, draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 3))])
    for _ in range(draw(sizes(2, 16))):
        k = draw(st.sampled_from(["solve", "solve_emulated", "solve", "solve_emulated", "solve_volumes", "input", "output", "prob", "em_in", "em_out", "prob", "em_in",
                                  "io_ptr", "ii_ptr", "oo_ptr", "globalize", "solve", "solve_emulated", "solve_volumes",
                                  "localize", "globalize_sets", "globalize_sets", "copy", "simple", "volumes", "transfer", "obs"]))
        ops.append([k, draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 3))])
    return dict(di=di, do=do, n=n, seed=draw(st.integers(0, 10 ** 6)), ops=ops)


def rand_set(rs, n, dim, vols=False, probs=False, p=None):
    s = gen.plain_set(rs.random_sample((n, dim)), dim, p or [1.0, 2.0, 3.0, "inf"][rs.randint(4)], [[0, 1]] * dim)
    if vols:
        v = rs.random_sample(n) + 0.05
        s.set_volumes(v / v.sum())
    if probs:
        v = np.maximum(rs.random_sample(n) - 0.2, 0.0)
        v[rs.randint(n)] += 0.3
        s.set_probabilities(v / v.sum())
    return s


def rect_measure(rs, dim):
    import bet.sample as samp
    s = samp.rectangle_sample_set(dim)
    c = 0.3 + 0.4 * rs.random_sample()
    lo = [[0.0] * dim, [c] + [0.0] * (dim - 1)]
    hi = [[c] + [0.8] * (dim - 1), [1.0] * dim]
    s.setup(maxes=hi, mins=lo)
    q = rs.random_sample()
    s.set_probabilities(np.array([q, 1 - q, 0.0]))
    return s


def current(s):
    return s.get_values() if s.get_values() is not None else whole(s.get_values_local())


def spread(s):
    """The same samples, known by their local part only."""
    import bet.sample as samp
    d = samp.sample_set(s.get_dim())
    d.set_p_norm(s.get_p_norm())
    d.set_domain(s.get_domain())
    d.set_values_local(part(s.get_values().copy()))
    return d


GETTERS = (("input", "get_input_sample_set"), ("output", "get_output_sample_set"), ("prob", "get_output_probability_set"),
           ("em_in", "get_emulated_input_sample_set"), ("em_out", "get_emulated_output_sample_set"), ("obs", "get_output_observed_set"))


class Model(object):
    """Plain copies of what the discretization was given last."""

    def __init__(self):
        self.vals, self.p, self.vols, self.mass = {}, {}, None, None
        self.rects = None

    def take(self, name, s, boxes=None):
        self.vals[name] = np.array(current(s), float)
        self.p[name] = s.get_p_norm()
        if name == "prob":
            self.rects = boxes
            self.mass = np.array(s.get_probabilities(), float)
        if name == "input":
            self.vols = None if s.get_volumes() is None else np.array(s.get_volumes())

    def owner(self, x):
        if self.rects is not None:
            return o.rect_owner(x, self.rects, gap=1e-9)
        return o.nearest(x, self.vals["prob"], self.p["prob"])


def boxes_of(s):
    """Corners of the rectangles, for rectangle sets built here or by a regular partition."""
    return list(zip(np.asarray(s._left)[:-1].tolist(), np.asarray(s._right)[:-1].tolist()))


def history(case, t):
    import bet.sample as samp
    import bet.calculateP.calculateP as calcP
    import bet.calculateP.simpleFunP as sfun
    di, do, n = case["di"], case["do"], case["n"]
    rs = np.random.RandomState(case["seed"])
    m = Model()
    inp, out = rand_set(rs, n, di, vols=True), rand_set(rs, n, do)
    disc = samp.discretization(inp, out)
    m.take("input", inp)
    m.take("output", out)
    stale = solved = False

    def replace(name, s, boxes=None):
        m.take(name, s, boxes)
        setter = dict(input="set_input_sample_set", output="set_output_sample_set", prob="set_output_probability_set",
                      em_in="set_emulated_input_sample_set", em_out="set_emulated_output_sample_set", obs="set_output_observed_set")[name]
        getattr(disc, setter)(s)

    def pointers(what):
        """Every pointer held is the map of the current sets; None where ambiguous."""
        clear = True
        for attr, needs, fn in (("io_ptr", ("output", "prob"), lambda: m.owner(m.vals["output"])),
                                ("emulated_ii_ptr", ("em_in", "input"), lambda: o.nearest(m.vals["em_in"], m.vals["input"], m.p["input"])),
                                ("emulated_oo_ptr", ("em_out", "prob"), lambda: m.owner(m.vals["em_out"]))):
            g, l = getattr(disc, "get_" + attr)(), getattr(disc, "_" + attr + "_local")
            if g is None and l is None:
                continue
            check(all(k in m.vals for k in needs), what + ": a pointer exists without its sets", pointer=attr)
            want, ok = fn()
            if not ok:
                clear = False
                continue
            if g is not None:
                same(np.ravel(g), want, "%s: %s of the current sets" % (what, attr))
            if l is not None:
                same(np.ravel(whole(l)), want, "%s: local %s of the current sets" % (what, attr))
        return clear

    for i, (k, seed, v) in enumerate(case["ops"]):
        r = np.random.RandomState(seed)
        what = "step %d (%s)" % (i, k)
        if k == "input":
            s = rand_set(r, n, di, vols=True)
            stale |= solved
            replace("input", s)
        elif k == "output":
            s = rand_set(r, n, do)
            if v % 2:
                s.global_to_local()
            stale |= solved
            replace("output", s)
        elif k == "prob":
            if v == 0:
                s = rect_measure(r, do)
                replace("prob", s, boxes_of(s))
            else:
                replace("prob", rand_set(r, 1 + r.randint(6), do, probs=True))
            stale |= solved
        elif k == "em_in":
            s = rand_set(r, 1 + r.randint(9), di)
            if v == 1:
                s.global_to_local()
            elif v == 3:
                s = spread(s)
            stale |= solved
            replace("em_in", s)
        elif k == "em_out":
            s = rand_set(r, 1 + r.randint(9), do)
            replace("em_out", spread(s) if v == 3 else s)
        elif k == "obs":
            s = rand_set(r, 1 + r.randint(9), do)
            replace("obs", spread(s) if v % 2 else s)
        elif k == "simple":
            if v == 0:
                s = sfun.regular_partition_uniform_distribution_rectangle_size(
                    disc, Q_ref=0.3 + 0.4 * r.random_sample(do), rect_size=0.5, cells_per_dimension=1 + r.randint(3))
                boxes = boxes_of(s)
            elif v == 1:
                s = sfun.user_partition_user_distribution(disc, r.random_sample((4, do)), r.random_sample((9, do)))
                boxes = None
            elif v == 2:
                s = sfun.uniform_partition_uniform_distribution_data_samples(disc)
                boxes = None
            else:
                np.random.seed(seed)
                s = sfun.uniform_partition_uniform_distribution_rectangle_size(disc, Q_ref=np.full(do, 0.5), rect_size=0.5, M=5, num_d_emulate=50)
                boxes = None
            check(disc.get_output_probability_set() is s, what + ": the measure becomes the output measure of the discretization")
            m.take("prob", s, boxes)
            stale |= solved
        elif k == "io_ptr" and "prob" in m.vals:
            disc.set_io_ptr(globalize=bool(v % 2))
            check(disc._io_ptr_local is not None and (disc.get_io_ptr() is not None) == bool(v % 2), what + ": pointer set as asked")
        elif k == "ii_ptr" and "em_in" in m.vals:
            disc.set_emulated_ii_ptr(globalize=bool(v % 2))
            check(disc._emulated_ii_ptr_local is not None and (disc.get_emulated_ii_ptr() is not None) == bool(v % 2), what + ": pointer set as asked")
        elif k == "oo_ptr" and "em_out" in m.vals and "prob" in m.vals:
            disc.set_emulated_oo_ptr(globalize=bool(v % 2))
            check(disc._emulated_oo_ptr_local is not None and (disc.get_emulated_oo_ptr() is not None) == bool(v % 2), what + ": pointer set as asked")
        elif k == "globalize":
            disc.globalize_ptrs()
            for a in ("io_ptr", "emulated_ii_ptr", "emulated_oo_ptr"):
                check((getattr(disc, "_" + a + "_local") is None) or getattr(disc, "get_" + a)() is not None, what + ": pointer is global", pointer=a)
        elif k == "localize":
            disc.global_to_local()
            for name, f in GETTERS:
                if name in m.vals:
                    held = getattr(disc, f)()
                    check(held.get_values_local() is not None, what + ": the %s set is distributed" % name)
                    check(np.array_equal(whole(held.get_values_local()), m.vals[name], equal_nan=True), what + ": local values of the %s set" % name)
            for a in ("io_ptr", "emulated_ii_ptr", "emulated_oo_ptr"):
                check(getattr(disc, "get_" + a)() is None or getattr(disc, "_" + a + "_local") is not None, what + ": pointer is distributed", pointer=a)
        elif k == "globalize_sets":
            disc.local_to_global()
            for name, f in GETTERS:
                if name in m.vals:
                    check(getattr(disc, f)().get_values() is not None, what + ": the %s set is global" % name)
                    check(np.array_equal(getattr(disc, f)().get_values(), m.vals[name], equal_nan=True), what + ": values of the %s set" % name)
        elif k == "copy":
            disc = disc.copy()
        elif k == "volumes" and "em_in" in m.vals:
            own, ok = o.nearest(m.vals["em_in"], m.vals["input"], m.p["input"])
            if not ok:
                return
            disc.estimate_input_volume_emulated()
            m.vols = o.fractions(own, n)
            close(disc.get_input_sample_set().get_volumes(), m.vols, what + ": volumes from the current emulated set")
        elif k == "solve" and "prob" in m.vals:
            own, ok = m.owner(m.vals["output"])
            if not ok:
                return
            calcP.prob(disc)
            close(disc.get_input_sample_set().get_probabilities(), o.split_mass(own, m.vols, m.mass), what + ": solution for the current sets")
            t.nontrivial(stale)
            t.label("solve after a replacement" if stale else "solve")
            solved = True
        elif k in ("solve_emulated", "solve_volumes") and "prob" in m.vals and "em_in" in m.vals:
            own, ok = m.owner(m.vals["output"])
            ii, ok2 = o.nearest(m.vals["em_in"], m.vals["input"], m.p["input"])
            if not (ok and ok2):
                return
            if k == "solve_emulated":
                calcP.prob_on_emulated_samples(disc)
                close(disc.get_emulated_input_sample_set().get_probabilities(), o.split_mass(own[ii], np.ones(len(ii)), m.mass),
                      what + ": emulated solution for the current sets")
            else:
                calcP.prob_with_emulated_volumes(disc)
                m.vols = o.fractions(ii, n)
                close(disc.get_input_sample_set().get_probabilities(), o.split_mass(own, m.vols, m.mass), what + ": solution for the current sets")
            t.nontrivial(stale)
            t.label("solve after a replacement" if stale else "solve")
            solved = True
        elif k == "transfer" and disc.get_input_sample_set().get_probabilities() is not None:
            new = rand_set(r, 4, di)
            src = disc.get_emulated_input_sample_set() or disc.get_input_sample_set()
            if src.get_probabilities() is None:
                continue
            own, ok = o.nearest(current(src), new.get_values(), new.get_p_norm())
            if not ok:
                return
            w = np.array([np.sum(src.get_probabilities()[own == j]) for j in range(4)])
            close(calcP.prob_from_discretization_input(disc, new), w, what + ": measure of the current set transferred")
            close(new.get_probabilities(), w, what + ": measure transferred is stored")
        if not pointers(what):
            t.label("ambiguous")
            return
        for name, getter in GETTERS:
            s = getattr(disc, getter)()
            check((s is not None) == (name in m.vals), what + ": set present", name=name)
            if s is not None:
                check(np.array_equal(current(s), m.vals[name], equal_nan=True), what + ": the %s set is the one given last" % name)
        check(disc.check_nums() == n, what + ": number of samples")


@st.composite
def reject_cases(draw):
    return dict(d=draw(st.permutations([1, 2, 3])), n=draw(sizes(1, 4)), extra=draw(st.integers(1, 3)),
                which=draw(st.sampled_from(["prob", "em_in", "em_out", "lengths", "type", "no_output"])), have=draw(st.booleans()))


def rejects(case, t):
    """Sets of another dimension, of another length or of another type are refused and leave the discretization as it was."""
    import bet.sample as samp
    rs = np.random.RandomState(1)
    a, b, n = case["d"][0], case["d"][1], case["n"]
    mk = lambda dim, k=n: gen.plain_set(rs.random_sample((k, dim)), dim)
    d = samp.discretization(mk(a), mk(a))
    if case["which"] == "lengths":
        raises(samp.length_not_matching, lambda: samp.discretization(mk(a), mk(b, n + case["extra"])), "input and output of different lengths")
        d.set_output_sample_set(mk(a, n + case["extra"]))
        raises(samp.length_not_matching, d.check_nums, "input and output of different lengths")
    elif case["which"] == "type":
        d.set_emulated_output_sample_set(mk(a))
        for f in ("set_input_sample_set", "set_output_sample_set", "set_output_probability_set", "set_emulated_input_sample_set",
                  "set_emulated_output_sample_set", "set_output_observed_set"):
            was = getattr(d, "g" + f[1:])()
            raises(AttributeError, lambda: getattr(d, f)(np.zeros((n, a))), f + " of an array")
            check(getattr(d, "g" + f[1:])() is was, "the set held before stays")
    elif case["which"] == "no_output":
        # without outputs the output measure and the emulated outputs still have to agree with each other
        first, second = ("output_probability_set", "emulated_output_sample_set")[::1 if case["have"] else -1]
        e = samp.discretization(mk(a), None)
        check(e.get_output_sample_set() is None and e.get_input_sample_set().check_num() == n, "a discretization without outputs")
        getattr(e, "set_" + first)(mk(b))
        raises(samp.dim_not_matching, lambda: getattr(e, "set_" + second)(mk(a)), "set of another dimension")
        check(getattr(e, "get_" + second)() is None, "nothing is kept of the refused set")
        s2 = mk(b)
        getattr(e, "set_" + second)(s2)
        check(getattr(e, "get_" + second)() is s2, "a set of the right dimension is taken")
        e.set_output_sample_set(mk(b))
        check(e.check_nums() == n, "outputs added later")
    else:
        f = dict(prob="output_probability_set", em_in="emulated_input_sample_set", em_out="emulated_output_sample_set")[case["which"]]
        old = None
        if case["have"]:
            old = mk(a)
            getattr(d, "set_" + f)(old)
        raises(samp.dim_not_matching, lambda: getattr(d, "set_" + f)(mk(b)), "set of another dimension")
        check(getattr(d, "get_" + f)() is old, "the set held before stays")
        getattr(d, "set_" + f)(mk(a))
    t.nontrivial()


PROP = Prop("C10", "discretization results reflect the current sets", [
    Sub("history", histories(), history, quick=3000, thorough=100000,
        rule="non-trivial: a solution was computed after some set had been replaced following an earlier solution"),
    Sub("rejects", reject_cases(), rejects, quick=100, thorough=1000, rule="every case"),
], assumptions=["sets are replaced through the setters of the discretization or by the simple-function routines, not edited in place",
                "steps with a point equidistant from two samples end the history (label 'ambiguous')"])
