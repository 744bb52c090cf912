"""C17: model evaluation pairs each input with its own output."""
import os
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o
from vp.props.c15 import law


@st.composite
def models(draw, din):
    dout = draw(st.integers(1, 3))
    return dict(dout=dout, kind=draw(st.sampled_from(["affine", "quadratic", "flat"])) if dout == 1 else
                draw(st.sampled_from(["affine", "quadratic"])), seed=draw(SEED),
                ee=draw(st.booleans()), jac=draw(st.booleans()), tup=draw(st.booleans()),
                strict=draw(st.booleans()))


class Model(object):
    """An explicit map with its derivative and an error estimate that depends on the input."""

    def __init__(self, m, din):
        rs = np.random.RandomState(m["seed"])
        self.m, self.din = m, din
        self.a = rs.normal(size=(m["dout"], din))
        self.b = rs.normal(size=m["dout"])
        self.q = rs.normal(size=(m["dout"], din)) if m["kind"] != "affine" else np.zeros((m["dout"], din))
        self.calls = []

    def value(self, x):
        return x @ self.a.T + (x ** 2) @ self.q.T + self.b

    def error(self, x):
        return np.sin(self.value(x)) * 0.1

    def jac(self, x):
        return self.a[None] + 2 * self.q[None] * x[:, None, :]

    def __call__(self, x):
        x = np.asarray(x)
        if self.m["strict"] and (x.ndim != 2 or x.shape[1] != self.din):
            raise IndexError("model takes arrays of shape (N, %d)" % self.din)
        self.calls.append(np.array(x))
        v = self.value(x)
        if self.m["kind"] == "flat":
            v = v[:, 0]
        out = [v]
        if self.m["ee"]:
            out.append(self.error(x))
        if self.m["jac"]:
            out.append(self.jac(x))
        return tuple(out) if len(out) > 1 or self.m["tup"] else v


@st.composite
def cases(draw):
    din = draw(st.integers(1, 3))
    n = draw(sizes(1, 12, big=300))
    return dict(din=din, model=draw(models(din)), values=draw(points(n, din)), store=draw(st.sampled_from(["global", "local", "both"])),
                glob=draw(st.booleans()), save=draw(st.sampled_from([None, None, "name", "sub/name"])), ref=draw(st.booleans()),
                domain=draw(st.booleans()), via=draw(st.sampled_from(["arg", "attr", "old"])), again=draw(st.integers(0, 2)),
                again_n=draw(sizes(1, 9, big=129)), seed=draw(SEED))


def verify(d, M, vals, glob, what):
    i, q = d.get_input_sample_set(), d.get_output_sample_set()
    gi = i.get_values() if glob else whole(i.get_values_local())
    gq = q.get_values() if glob else whole(q.get_values_local())
    check(q.get_dim() == M.m["dout"], what + ": dimension of the outputs", got=q.get_dim())
    close(gi, vals, what + ": inputs")
    close(gq, M.value(vals), what + ": outputs")
    if M.m["ee"]:
        close(q.get_error_estimates() if glob else whole(q.get_error_estimates_local()), M.error(vals), what + ": error estimates")
    if M.m["jac"]:
        close(i.get_jacobians() if glob else whole(i.get_jacobians_local()), M.jac(vals), what + ": jacobians")


def evaluate(c, t):
    import bet.sample as samp
    import bet.sampling.basicSampling as bs
    M = Model(c["model"], c["din"])
    s = samp.sample_set(c["din"])
    vals = np.array(c["values"])
    if c["store"] == "local":
        s.set_values_local(part(vals.copy()))
    else:
        s.set_values(layout(vals))
        if c["store"] == "both":
            s.global_to_local()
    dom = np.array([[0.0, 1.0]] * c["din"])
    if c["domain"]:
        s.set_domain(dom)
    ref = None
    if c["ref"]:
        ref = np.random.RandomState(c["seed"]).random_sample(c["din"])
        s.set_reference_value(ref.copy())
    sm = bs.sampler(M, error_estimates=c["model"]["ee"], jacobians=c["model"]["jac"])
    name = c["save"]
    if name and "/" in name:
        os.makedirs(os.path.dirname(name), exist_ok=True)

    def go(s_):
        kw = dict(savefile=name, globalize=c["glob"])
        if c["via"] == "arg":
            return sm.compute_qoi_and_create_discretization(s_, **kw)
        if c["via"] == "old":
            return sm.compute_QoI_and_create_discretization(s_, **kw)
        sm.input_sample_set = s_
        return sm.compute_qoi_and_create_discretization(**kw)
    d = go(s)
    verify(d, M, vals, c["glob"], "evaluation")
    check(sm.discretization is d, "the sampler keeps the discretization")
    if c["ref"]:
        close(d.get_output_sample_set().get_reference_value(), M.value(ref[None])[0], "mapped reference value")
        close(d.get_input_sample_set().get_reference_value(), ref, "reference value")
    check(d.check_nums() == len(vals) if c["glob"] else True, "numbers of samples agree")
    if c["glob"]:
        # a copy of the sampler has samples of its own
        other = sm.copy()
        other.discretization.get_output_sample_set().set_values(np.zeros((len(vals), M.m["dout"])))
        other.input_sample_set.set_values(np.zeros((len(vals), c["din"])))
        other.discretization.get_input_sample_set().set_values(np.zeros((len(vals), c["din"])))
        verify(d, M, vals, True, "after a change to a copy of the sampler")
    if name:
        import bet.util as util
        back = samp.load_discretization(name) if hasattr(samp, "load_discretization") else util.load_object(name, localize=False)
        verify(back, M, vals, c["glob"], "saved discretization")
        check(back == d, "the saved discretization equals the returned one")
        t.label("saved")
    # evaluating again after the inputs changed (same set, new values) or with another set
    if c["again"] and c["glob"]:
        new = np.random.RandomState(c["seed"] + 1).random_sample((len(vals) if c["again"] == 1 else c["again_n"], c["din"]))
        if c["again"] == 1:
            s.set_values(layout(new))
            d2 = go(s)
        else:
            s2 = samp.sample_set(c["din"])
            s2.set_values(layout(new))
            d2 = go(s2)
        verify(d2, M, new, True, "second evaluation")
    t.nontrivial(len(vals) > 1)
    t.label("ref" if c["ref"] else "noref", c["store"], "ee" if c["model"]["ee"] else "no ee")


@st.composite
def random_cases(draw):
    din = draw(st.integers(1, 3))
    return dict(din=din, model=draw(models(din)), laws=[draw(law()) for _ in range(din)], n=draw(sizes(1, 30, big=300)),
                glob=draw(st.booleans()), route=draw(st.sampled_from(["random", "lhs", "regular", "create", "create"])),
                domain=draw(domains(din)), save=draw(st.booleans()))


def routes(c, t):
    import bet.sampling.basicSampling as bs
    M = Model(c["model"], c["din"])
    sm = bs.sampler(M, error_estimates=c["model"]["ee"], jacobians=c["model"]["jac"])
    name = "d" if c["save"] else None
    glob = c["glob"]
    if c["route"] == "create":
        d = sm.create_random_discretization(c["laws"], c["din"], savefile=name, num_samples=c["n"], globalize=glob)
        n = c["n"]
    else:
        dom = np.array(c["domain"])
        if c["route"] == "random":
            sm.random_sample_set("uniform", dom, c["n"], globalize=glob)
            n = c["n"]
        elif c["route"] == "lhs":
            sm.lhs_sample_set(dom, c["n"], "center", globalize=glob)
            n = c["n"]
        else:
            k = 1 + c["n"] % 3
            sm.regular_sample_set(dom, k)
            n = k ** c["din"]
        d = sm.compute_qoi_and_create_discretization(savefile=name, globalize=glob)
    i = d.get_input_sample_set()
    vals = np.array(i.get_values() if glob else whole(i.get_values_local()))
    check(vals.shape == (n, c["din"]), "number of inputs", got=vals.shape, want=(n, c["din"]))
    verify(d, M, vals, glob, c["route"])
    if name:
        import bet.util as util
        back = util.load_object(name, localize=False)
        verify(back, M, vals, glob, "saved discretization")
    t.nontrivial(n > 1)
    t.label(c["route"])


def rejected(c, t):
    import bet.sampling.basicSampling as bs
    sm = bs.sampler(lambda x: c["what"])
    s = gen.plain_set([[0.5]], 1)
    raises(bs.bad_object, lambda: sm.compute_qoi_and_create_discretization(s), "a model returning %r" % (c["what"],))
    t.nontrivial()


PROP = Prop("C17", "model evaluation", [
    Sub("evaluate", cases(), evaluate, quick=900, thorough=30000, rule="non-trivial: several samples"),
    Sub("routes", random_cases(), routes, quick=500, thorough=20000, rule="non-trivial: several samples"),
    Sub("rejected", st.fixed_dictionaries(dict(what=st.sampled_from(["x", 3.5, {"a": 1}]))), rejected, quick=3, thorough=3,
        rule="every case"),
], assumptions=["single process (several ranks are covered by C26)"])
