"""A table of calculations on one problem ("scene") whose samples, events and coordinates can be relabelled and whose
coordinates can be given in other units.  Every array carries the labels of its axes and its unit, so that what a
relabelled or rescaled problem has to give follows from the answer to the original one.

labels: s samples, e emulated samples, m output events, t samples of a second set, q query points, v observations,
        k quantities of interest, c rectangles, i parameter coordinates, o output coordinates; '.' no label
units:  x / y coordinates, dx / dy (positive) lengths, ex / ey signed differences, J derivatives, px / py densities,
        len a length under equal scaling of all parameters; None a number"""
import numpy as np
from vp.core import layout
from vp import gen


class Scene(object):
    def __init__(self, c, perm=None, ai=None, bi=None, ao=None, bo=None, lay=True, volumes=1.0):
        self.c, self.lay, self.volumes = c, lay, volumes
        self.dim, self.odim = c["dim"], c["odim"]
        self.size = dict(s=c["n"], e=3 * c["n"] + 5, m=c["m"], t=c["n"] // 2 + 2, q=7, v=c["n"] + 4, k=c["dim"] + 2, c=3, i=c["dim"], o=c["odim"])
        self.perm = {k: np.arange(n) for k, n in self.size.items()}
        for k, p in (perm or {}).items():
            self.perm[k] = np.asarray(p)
        self.inv = {k: np.argsort(p) for k, p in self.perm.items()}
        self.ai = np.ones(self.dim) if ai is None else np.asarray(ai, float)
        self.bi = np.zeros(self.dim) if bi is None else np.asarray(bi, float)
        self.ao = np.ones(self.odim) if ao is None else np.asarray(ao, float)
        self.bo = np.zeros(self.odim) if bo is None else np.asarray(bo, float)
        self.kept = []
        rs = np.random.RandomState(c["seed"])
        S = self.size
        self.raw = r = {}
        r["x"] = rs.random_sample((S["s"], self.dim))
        r["A"] = rs.normal(size=(self.dim, self.odim))
        r["y"] = r["x"] @ r["A"] + 0.3 * rs.normal(size=(S["s"], self.odim))
        r["em"] = rs.random_sample((S["e"], self.dim))
        r["t"] = rs.random_sample((S["t"], self.dim))
        r["q"] = rs.random_sample((S["q"], self.dim))
        r["part"] = r["y"][rs.randint(0, S["s"], S["m"])] + 0.2 * rs.normal(size=(S["m"], self.odim))
        w = rs.randint(0, 4, S["m"]).astype(float)
        w[rs.randint(S["m"])] += 1
        r["pm"] = w / w.sum()
        r["vol"] = rs.random_sample(S["s"]) + 0.1
        r["vol"] *= self.volumes / r["vol"].sum()
        p = rs.random_sample(S["s"]) * (rs.random_sample(S["s"]) < 0.8) + 1e-3
        p[rs.randint(S["s"])] += 1
        r["prob"] = p / p.sum()
        r["jac"] = rs.normal(size=(S["s"], self.odim, self.dim))
        r["err"] = 0.3 * rs.normal(size=(S["s"], self.odim))
        r["lab"] = rs.permutation(np.arange(S["s"]) % 2)
        r["tlab"] = rs.randint(0, 2, S["t"])
        r["tprob"] = rs.random_sample(S["t"])
        r["tprob"] /= r["tprob"].sum()
        r["G"] = rs.normal(size=(S["s"], S["k"], self.dim))
        r["step"] = 0.01 + 0.05 * rs.random_sample(self.dim)
        r["obs"] = r["y"][rs.randint(0, S["s"], S["v"])] + 0.1 * rs.normal(size=(S["v"], self.odim))
        r["vlab"] = rs.permutation(np.arange(S["v"]) % 2)
        u = np.sort(rs.random_sample((self.dim, 6)), axis=1)
        r["lo"], r["hi"] = u[:, 0::2].T.copy(), u[:, 1::2].T.copy()
        # three boxes apart in every coordinate, in an order of their own per coordinate but the first
        r["cen"] = (r["lo"] + r["hi"]) / 2
        r["loc"], r["sc"] = rs.random_sample(self.dim), 0.2 + rs.random_sample(self.dim)
        r["cov"] = np.diag(0.1 + rs.random_sample(self.dim)) + 0.05
        r["ref"] = r["y"][0]
        r["B"] = rs.normal(size=(self.dim, self.odim))
        r["eprob"] = rs.random_sample(S["e"]) * (rs.random_sample(S["e"]) < 0.8)

    # ---------------------------------------------------------------- the transformation
    def carry(self, a, axes="", unit=None, ptr=None):
        """What the array a of the original problem is in this one."""
        a = np.array(a, dtype=None if unit is None else float)
        along = lambda v, l: np.reshape(v, [-1 if x == l else 1 for x in axes])
        if unit == "x":
            a = along(self.ai, "i") * a + along(self.bi, "i")
        elif unit == "y":
            a = along(self.ao, "o") * a + along(self.bo, "o")
        elif unit == "ex":
            a = along(self.ai, "i") * a
        elif unit == "ey":
            a = along(self.ao, "o") * a
        elif unit == "dx":
            a = along(np.abs(self.ai), "i") * a
        elif unit == "dy":
            a = along(np.abs(self.ao), "o") * a
        elif unit == "J":
            a = along(self.ao, "o") * a / along(self.ai, "i")
        elif unit == "vol":
            a = a * self.volumes
        elif unit == "px":
            a = a / np.prod(np.abs(self.ai))
        elif unit == "py":
            a = a / np.prod(np.abs(self.ao))
        elif unit == "len":
            a = a * abs(self.ai[0])
        elif unit == "cov":
            a = a * along(self.ai, "i") * self.ai
            a = a[..., self.perm["i"], :][..., self.perm["i"]]
            return a
        elif unit == "pxi":      # a density in coordinate i alone
            a = a / along(np.abs(self.ai), "i")
        elif unit is not None:
            raise ValueError(unit)
        for k, l in enumerate(axes):
            if l != ".":
                a = np.take(a, self.perm[l], axis=k)
        if ptr:
            a = self.inv[ptr][a]
        return a

    def __call__(self, name, axes, unit=None):
        a = self.carry(self.raw[name], axes, unit)
        return layout(a) if self.lay else a

    def box(self, lo=0.0, hi=1.0):
        e = self.carry([[lo, hi]] * self.dim, "i.", "x")
        return np.sort(e, axis=1)

    def coord(self, l, k):
        """The coordinate (or quantity) k of the original problem, under its name here."""
        return int(self.inv[l][k])

    def length(self):
        return abs(self.ai[0])

    # ---------------------------------------------------------------- objects
    def keep(self, obj, role=None):
        """Register an object whose contents are not to change."""
        self.kept.append((obj, role))
        return obj

    def plain(self, values, dim, p=None, domain=None):
        import bet.sample as samp
        s = samp.sample_set(dim)
        s.set_values(values)
        if domain is not None:
            s.set_domain(domain)
        if p is not None and gen.pn(p) != 2.0:
            s.set_p_norm(gen.pn(p))
        return s

    def inputs(self, p=None):
        s = self.plain(self("x", "si", "x"), self.dim, p, self.box())
        return self.spread(self.keep(s, "in"))

    def spread(self, s):
        if self.c["local"]:
            s.global_to_local()
        return s

    def outputs(self):
        return self.spread(self.keep(self.plain(self("y", "so", "y"), self.odim), "out"))

    def second(self, p=None):
        return self.spread(self.keep(self.plain(self("t", "ti", "x"), self.dim, p, self.box()), "second"))

    def emulated(self):
        return self.spread(self.keep(self.plain(self("em", "ei", "x"), self.dim, None, self.box()), "em"))

    def measure(self, p=None):
        s = self.plain(self("part", "mo", "y"), self.odim, p)
        s.set_probabilities(self("pm", "m"))
        return self.keep(s, "measure")

    def disc(self, p=None, pm=None, **kw):
        import bet.sample as samp
        return samp.discretization(self.inputs(p), self.outputs(), output_probability_set=self.measure(pm), **kw)


class Routine(object):
    def __init__(self, name, f, order, ui, uo, reflect, again):
        self.name, self.f, self.order, self.ui, self.uo, self.reflect, self.again = name, f, order, ui, uo, reflect, again


TABLE = {}


def routine(order="", ui=None, uo=None, reflect=False, again=True):
    """order: labels that may be permuted; ui, uo: scaling of parameters and outputs allowed ("any", "iso", None);
    reflect: coordinates may be reversed; again: a second call gives the same."""
    def deco(f):
        TABLE[f.__name__] = Routine(f.__name__, f, order, ui, uo, reflect, again)
        return f
    return deco


def values(s, *names):
    s.local_to_global()
    return [getattr(s, "get_" + n)() for n in names]


# ==================================================================== inversion
@routine("smio", "any", "iso", True)
def prob(S):
    import bet.calculateP.calculateP as cp
    d = S.disc(pm=S.c["p"])
    d.get_input_sample_set().set_volumes(S("vol", "s"))

    def go():
        cp.prob(d)
        d.set_io_ptr()
        return [("probability", values(d.get_input_sample_set(), "probabilities")[0], "s"),
                ("cell of the output", d.get_io_ptr(), "s", None, "m")]
    return go


@routine("smeio", "iso", "iso", True)
def prob_emulated(S):
    import bet.calculateP.calculateP as cp
    d = S.disc(p=S.c["p"], emulated_input_sample_set=S.emulated())

    def go():
        cp.prob_on_emulated_samples(d)
        a = np.array(values(d.get_emulated_input_sample_set(), "probabilities")[0])
        cp.prob_with_emulated_volumes(d)
        p, v = values(d.get_input_sample_set(), "probabilities", "volumes")
        return [("emulated probability", a, "e"), ("probability", p, "s"), ("volume", v, "s"),
                ("cell of the emulated sample", d.get_emulated_ii_ptr(), "e", None, "s")]
    return go


@routine("stei", "iso", None, True)
def transfer(S):
    import bet.calculateP.calculateP as cp
    old, new, em = S.inputs(S.c["p"]), S.second(S.c["p"]), S.emulated()
    old.set_probabilities(S("prob", "s"))
    old.set_probabilities_local(None)
    a, b = new.copy(), new.copy()

    def go():
        cp.prob_from_sample_set(old, a)
        cp.prob_from_sample_set_with_emulated_volumes(old, b, em)
        return [("probability", a.get_probabilities(), "t"), ("probability by emulation", b.get_probabilities(), "t")]
    return go


@routine("stei", "iso", None, True)
def transfer_solution(S):
    import bet.calculateP.calculateP as cp
    import bet.sample as samp
    d = samp.discretization(S.inputs(), S.outputs(), emulated_input_sample_set=S.emulated())
    d.get_emulated_input_sample_set().set_probabilities(S("eprob", "e"))
    S.spread(d.get_emulated_input_sample_set())
    e = samp.discretization(S.inputs(), S.outputs())
    e.get_input_sample_set().set_probabilities(S("prob", "s"))
    S.spread(e.get_input_sample_set())
    new = S.second(S.c["p"])
    a, b = new.copy(), new.copy()

    def go():
        cp.prob_from_discretization_input(d, a)
        cp.prob_from_discretization_input(e, b)
        return [("probability of emulated samples", a.get_probabilities(), "t"), ("probability of samples", b.get_probabilities(), "t")]
    return go


# ==================================================================== geometry
@routine("sei", "iso", None, True)
def volumes(S):
    s, em = S.inputs(), S.emulated()
    q = S.inputs(S.c["p"])

    def go():
        q.estimate_volume_emulated(em)
        r = [("emulated volume", np.array(values(q, "volumes")[0]), "s")]
        if S.dim == 1:
            s.exact_volume_1D()
            r.append(("exact volume", np.array(values(s, "volumes")[0]), "s"))
        if S.dim == 2:
            s.exact_volume_2D()
            r.append(("exact volume", np.array(values(s, "volumes")[0]), "s"))
        return r
    return go


@routine("s", "iso", None)
def random_volumes(S):
    """Radii and volumes by random points: the points are those of the seed, placed in the domain."""
    s = S.inputs(S.c["p"])
    def go():
        s.estimate_volume(n_mc_points=400)
        a = np.array(values(s, "volumes")[0])
        s.estimate_radii(n_mc_points=300)
        return [("volume", a, "s"), ("radius in the unit box", np.array(s.get_normalized_radii() if hasattr(s, "get_normalized_radii") else s._normalized_radii), "s")]
    return go


@routine("sqi", "iso", None, True)
def query(S):
    s = S.inputs(S.c["p"])
    pts = S("q", "qi", "x")
    k = min(3, S.size["s"])

    def go():
        d, p = s.query(pts)
        dk, pk = s.query(pts, k=k)
        shape = (S.size["q"], k)
        return [("distance", np.ravel(d), "q", "len"), ("nearest", np.ravel(p), "q", None, "s"),
                ("distances", np.reshape(dk, shape), "q.", "len"), ("neighbours", np.reshape(pk, shape), "q.", None, "s")]
    return go


@routine("ci", "any", None, True)
def rectangles(S):
    import bet.sample as samp
    r = samp.rectangle_sample_set(S.dim)
    lo, hi = S("lo", "ci", "x"), S("hi", "ci", "x")
    r.setup(maxes=np.maximum(lo, hi), mins=np.minimum(lo, hi))
    r.set_domain(S.box())
    S.keep(r)
    pts = S.carry(np.concatenate([S.raw["q"], S.raw["cen"]]), ".i", "x")

    def go():
        r.exact_volume_lebesgue()
        v = np.ravel(r.get_volumes())
        _, p = r.query(pts)
        p = np.ravel(p)
        inside = np.array([S.perm["c"][j] if j < 3 else 3 for j in p])       # original names
        return [("volume", v[:3], "c"), ("volume outside", v[3:], "."), ("owner", inside, ".")]
    return go


@routine("ci", "iso", None, True)
def balls(S):
    import bet.sample as samp
    r = samp.ball_sample_set(S.dim)
    gap = np.min([np.abs(a - b).max() for k, a in enumerate(S.raw["cen"]) for b in S.raw["cen"][:k]])
    edge = min(S.raw["cen"].min(), (1 - S.raw["cen"]).min())
    rad = S.carry(np.array([0.3, 0.45, 0.2]) * min(gap, edge), "c", "len")
    r.setup(centers=S("cen", "ci", "x"), radii=rad)
    r.set_domain(S.box())
    S.keep(r)
    near = S.raw["cen"][0] + 0.25 * min(gap, edge) * np.ones(S.dim) / np.sqrt(S.dim)
    pts = S.carry(np.concatenate([S.raw["q"], S.raw["cen"], near[None, :]]), ".i", "x")

    def go():
        r.exact_volume()
        v = np.ravel(r.get_volumes())
        _, p = r.query(pts)
        inside = np.array([S.perm["c"][j] if j < 3 else 3 for j in np.ravel(p)])
        return [("volume", v[:3], "c"), ("owner", inside, ".")]
    return go


@routine("", "any", None)
def grids(S):
    import bet.sample as samp
    r = samp.cartesian_sample_set(S.dim)
    e = S.carry(np.sort(S.raw["lo"], axis=0), ".i", "x")
    r.setup([e[:, k] for k in range(S.dim)])
    r.set_domain(S.box())
    S.keep(r)
    pts = S("q", "qi", "x")

    def go():
        r.exact_volume_lebesgue()
        _, p = r.query(pts)
        return [("volume", np.ravel(r.get_volumes()), "."), ("owner", np.ravel(p), "q")]
    return go


@routine("sio", "any", None)
def normalized(S):
    s = S.plain(S("x", "si", "x"), S.dim, None, S.box())
    s.set_jacobians(S.carry(S.raw["jac"], "soi") / S.ai[S.perm["i"]])

    def go():
        s.normalize_domain()
        a = [("normalized value", np.array(values(s, "values")[0]), "si"), ("normalized derivative", np.array(values(s, "jacobians")[0]), "soi")]
        s.undo_normalize_domain()
        return a + [("value", np.array(values(s, "values")[0]), "si", "x")]
    return go


@routine("si", "any", None, True)
def bounds(S):
    s = S.inputs()

    def go():
        s.update_bounds()
        b = s.get_bounding_box()
        return [("width", np.ravel(s._width[0] if np.ndim(s._width) > 1 else s._width), "i", "dx"),
                ("box", np.asarray(b)[:, 1] - np.asarray(b)[:, 0], "i", "dx")]
    return go


# ==================================================================== surrogates and errors
@routine("sqio", "iso", "any", True)
def surrogate(S):
    import bet.surrogates as sur
    import bet.sample as samp
    d = samp.discretization(S.inputs(S.c["p"]), S.outputs())
    d.get_input_sample_set().set_jacobians(S("jac", "soi", "J"))
    d.get_output_sample_set().set_error_estimates(S("err", "so", "ey"))
    d.get_input_sample_set().set_region(S("lab", "s"))
    pts = S("q", "qi", "x")
    S.keep(d.get_input_sample_set())
    S.keep(d.get_output_sample_set())

    def go():
        s = sur.piecewise_polynomial_surrogate(d)
        r = []
        for k in (0, 1):
            new = S.keep(S.plain(pts, S.dim))
            out = s.generate_for_input_set(new, k)
            v, e = values(out.get_output_sample_set(), "values", "error_estimates")
            r += [("order %d" % k, v, "qo", "y"), ("error of order %d" % k, e, "qo", "ey"),
                  ("region", values(out.get_input_sample_set(), "region")[0], "q")]
        return r
    return go


@routine("smteio", "iso", "iso", True)
def surrogate_probability(S):
    import bet.surrogates as sur
    d = S.disc()
    em = S.emulated()
    d.get_input_sample_set().set_jacobians(S("jac", "soi", "J"))
    d.get_output_sample_set().set_error_estimates(S("err", "so", "ey"))
    t = S.second()
    t.set_region(S("tlab", "t"))
    if not np.any(S.raw["tlab"] == 0):
        t.set_region(np.zeros(S.size["t"], int))

    def go():
        s = sur.piecewise_polynomial_surrogate(d)
        s.generate_for_input_set(em, 1)
        p, e = s.calculate_prob_for_sample_set_region(t.copy(), [0])
        return [("probability", np.ravel(p), "."), ("error", np.ravel(e), ".")]
    return go


@routine("smteio", "iso", "iso", True)
def model_error(S):
    import bet.calculateP.calculateError as ce
    d = S.disc()
    d.get_input_sample_set().set_volumes(S("vol", "s"))
    d.get_output_sample_set().set_error_estimates(S("err", "so", "ey"))
    em, t = S.emulated(), S.second()
    t.set_region(S("tlab", "t"))
    if not np.any(S.raw["tlab"] == 0):
        t.set_region(np.zeros(S.size["t"], int))

    def go():
        m = ce.model_error(d)
        return [("events", np.ravel(m.calculate_for_contour_events()), "m"),
                ("region", np.ravel(m.calculate_for_sample_set_region(t.copy(), 0, em)), "."),
                ("region by samples", np.ravel(m.calculate_for_sample_set_region_mc(t.copy(), 0)), ".")]
    return go


@routine("smteio", "iso", "iso", True)
def sampling_error(S):
    import bet.calculateP.calculateError as ce
    d = S.disc()
    d.get_input_sample_set().set_volumes(S("vol", "s"))
    em, t = S.emulated(), S.second()
    t.set_region(S("tlab", "t"))
    if not np.any(S.raw["tlab"] == 0):
        t.set_region(np.zeros(S.size["t"], int))

    def go():
        m = ce.sampling_error(d)
        up, low = m.calculate_for_contour_events()
        near = ce.cell_connectivity_exact(d)
        table = np.zeros((S.size["s"], S.size["m"]), bool)
        for k in range(S.size["s"]):
            table[k, [int(j) for j in near[k]]] = True
        return [("upper", np.ravel(up), "m"), ("lower", np.ravel(low), "m"), ("neighbouring events", table, "sm"),
                ("region", np.ravel(m.calculate_for_sample_set_region(t.copy(), 0, em)), ".")]
    return go


# ==================================================================== output measures
def cells(m):
    v = np.asarray(m.get_values(), float)
    return [v[np.all(np.isfinite(v), axis=1)], np.asarray(m.get_probabilities(), float)]


def grid_of(S, m, what):
    """The cells of positive probability, as rows of coordinates in no particular order."""
    v, p = np.asarray(m.get_values(), float), np.asarray(m.get_probabilities(), float)
    return [(what + ": cells", v[p > 0], "*o", "y"), (what + ": probabilities", np.sort(p[p > 0]), ".")]


@routine("so", None, "any", True)
def regular_measures(S):
    import bet.calculateP.simpleFunP as sf
    import bet.sample as samp
    d = samp.discretization(S.inputs(), S.outputs())
    k = S.carry(np.arange(S.odim) % 2 + 1, "o")
    wide = S.carry(np.linspace(0.3, 0.9, S.odim), "o", "dy")
    ref = S("ref", "o", "y")
    dom = np.sort(S.carry(np.stack([S.raw["ref"] - 0.3, S.raw["ref"] + np.linspace(0.1, 0.5, S.odim)]), ".o", "y"), axis=0)

    def go():
        a = grid_of(S, sf.regular_partition_uniform_distribution_rectangle_size(d, ref, wide, k), "size")
        a += grid_of(S, sf.regular_partition_uniform_distribution_rectangle_scaled(d, ref, 0.3, k), "scaled")
        a += grid_of(S, sf.regular_partition_uniform_distribution_rectangle_domain(d, dom, k), "domain")
        return a
    return go


@routine("s", None, "mild")
def random_measures(S):
    import bet.calculateP.simpleFunP as sf
    import bet.sample as samp
    d = samp.discretization(S.inputs(), S.outputs())
    ref = S("ref", "o", "y")
    wide = S.carry(np.linspace(0.3, 0.9, S.odim), "o", "dy")
    iso = len(set(np.abs(S.ao))) == 1
    std = S.carry(np.linspace(0.1, 0.2, S.odim), "o", "dy")

    def go():
        r = []
        for name, f, kw in (("uniform on a box by size", sf.uniform_partition_uniform_distribution_rectangle_size, dict(Q_ref=ref, rect_size=wide)),
                            ("uniform on a box by scale", sf.uniform_partition_uniform_distribution_rectangle_scaled, dict(Q_ref=ref, rect_scale=0.3)),
                            ("normal", sf.normal_partition_normal_distribution, dict(Q_ref=ref, std=std)),
                            ("uniform cells, normal", sf.uniform_partition_normal_distribution, dict(Q_ref=ref, std=std))):
            m = f(d, M=4, num_d_emulate=100, **kw)
            v, p = cells(m)
            r.append((name + ": cells", v, ".o", "y"))
            # the cells are those nearest to a point in the given coordinates
            r.append((name + ": probabilities", p if iso else None, "."))
        return r
    return go


@routine("smo", None, "iso", True)
def given_measures(S):
    import bet.calculateP.simpleFunP as sf
    out = S.outputs()
    part = S("part", "mo", "y")

    def go():
        u = sf.uniform_partition_uniform_distribution_data_samples(out)
        v = sf.user_partition_user_distribution(S("y", "so", "y"), part, S("y", "so", "y"))
        return [("data samples", u.get_values(), "so", "y"), ("probability", u.get_probabilities(), "s"),
                ("cells", v.get_values(), "mo", "y"), ("probability of cells", v.get_probabilities(), "m")]
    return go


# ==================================================================== gradients and choice of quantities
def field(S, v):
    """A quadratic map of the original coordinates, in this problem's labels and units."""
    x = np.empty((len(v), S.dim))
    x[:, S.perm["i"]] = np.asarray(v, float)
    x = (x - S.bi) / S.ai
    y = x @ S.raw["A"] + (x ** 2) @ S.raw["B"]
    return (y * S.ao + S.bo)[:, S.perm["o"]]


@routine("sio", "any", "any")
def forward_differences(S):
    import bet.sensitivity.gradients as g
    import bet.sample as samp
    c = S.inputs()
    step = S("step", "i", "dx")

    def go():
        p = g.pick_ffd_points(c, step)
        out = samp.sample_set(S.odim)
        out.set_values(field(S, p.get_values()))
        r = g.calculate_gradients_ffd(samp.discretization(p, out), normalize=False)
        return [("points", p.get_values(), "*i", "x"), ("centres", r.get_input_sample_set().get_values(), "si", "x"),
                ("jacobian", r.get_input_sample_set().get_jacobians(), "soi", "J")]
    return go


@routine("sio", "any", "any", True)
def central_differences(S):
    import bet.sensitivity.gradients as g
    import bet.sample as samp
    c = S.inputs()
    step = S("step", "i", "dx")

    def go():
        p = g.pick_cfd_points(c, step)
        out = samp.sample_set(S.odim)
        out.set_values(field(S, p.get_values()))
        r = g.calculate_gradients_cfd(samp.discretization(p, out), normalize=False)
        return [("points", p.get_values(), "*i", "x"), ("centres", r.get_input_sample_set().get_values(), "si", "x"),
                ("jacobian", r.get_input_sample_set().get_jacobians(), "soi", "J")]
    return go


@routine("eio", "iso", "any", True)
def rbf(S):
    import bet.sensitivity.gradients as g
    import bet.sample as samp
    cen, rest = S.raw["t"][:2], S("em", "ei", "x")
    pts = np.concatenate([S.carry(cen, ".i", "x"), rest])
    s, out = S.keep(S.plain(pts, S.dim)), samp.sample_set(S.odim)
    out.set_values(field(S, pts))
    S.keep(out)
    kernel = ["Gaussian", "Multiquadric", "InverseMultiquadric"][S.c["seed"] % 3]
    ep = 2.0 / S.length()

    def go():
        r = g.calculate_gradients_rbf(samp.discretization(s, out), num_centers=2, RBF=kernel, ep=ep, normalize=False)
        J = r.get_input_sample_set().get_jacobians()
        # the gradient of an interpolant is linear in the outputs, which carry no constant here if the shift is zero
        return [("jacobian", J if not np.any(S.bo) else None, ".oi", "J")]
    return go


@routine("ski", "iso", None, True)
def qoi_measures(S):
    import bet.sensitivity.chooseQoIs as q
    s = S.plain(S("x", "si", "x"), S.dim)
    s.set_jacobians(S.carry(S.raw["G"], "ski") / S.length())
    S.keep(s)
    k = [S.coord("k", j) for j in range(S.dim)]

    def go():
        m, sv = q.calculate_avg_measure(s, k)
        w, skew = q.calculate_avg_skewness(s, k)
        n, cv = q.calculate_avg_condnum(s, k)
        return [("measure", np.ravel(m / S.length() ** S.dim), "."), ("singular values", sv * S.length(), "s."), ("skewness", np.ravel(w), "."),
                ("skewness of each", skew, "s."), ("condition number", np.ravel(n), "."), ("singular values 2", cv * S.length(), "s.")]
    return go


@routine("ski", "iso", None, True)
def qoi_search(S):
    import bet.sensitivity.chooseQoIs as q
    s = S.plain(S("x", "si", "x"), S.dim)
    s.set_jacobians(S.carry(S.raw["G"], "ski") / S.length())
    S.keep(s)

    def go():
        m = np.asarray(q.chooseOptQoIs(s, num_qois_return=S.dim, num_optsets_return=4))
        names = np.sort(S.perm["k"][np.rint(m[:, 1:]).astype(int)], axis=1) if np.all(np.isfinite(m[:, 0])) else m[:, 1:] * 0
        r = [("scores", m[:, 0], ".")]
        if S.dim > 1:
            r.append(("chosen sets", names, ".."))
        return r
    return go


# ==================================================================== post-processing
@routine("si", "any", None)
def marginals(S):
    import bet.postProcess.plotP as p
    s = S.inputs()
    s.set_probabilities(S("prob", "s"))
    nb = S.carry(np.arange(S.dim) % 3 + 2, "i")

    def go():
        b, m = p.calculate_1D_marginal_probs(s, nbins=[int(k) for k in nb])
        r = []
        for k in range(S.dim):
            j = S.coord("i", k)
            r += [("marginal of parameter %d" % k, m[j], "."), ("edges", (np.asarray(b[j]) - S.bi[k]) / S.ai[k], ".")]
        sm = p.smooth_marginals_1D(m, b, sigma=S.length() * 0.2) if len(set(S.ai)) == 1 else None
        r += [("smoothed marginal of parameter %d" % k, None if sm is None else sm[S.coord("i", k)], ".") for k in range(S.dim)]
        if S.dim > 1:
            b2, m2 = p.calculate_2D_marginal_probs(s, nbins=[int(k) for k in nb])
            for k in range(S.dim):
                for l in range(k):
                    a, c = S.coord("i", l), S.coord("i", k)
                    r.append(("marginal of parameters %d and %d" % (l, k), m2[(a, c)] if a < c else m2[(c, a)].T, ".."))
        return r
    return go


@routine("sio", "any", "any", True)
def selection(S):
    import bet.postProcess.postTools as pt
    import bet.sample as samp
    d = samp.discretization(S.inputs(), S.outputs())
    d.get_input_sample_set().set_probabilities(S("prob", "s"))
    d.get_input_sample_set().set_volumes(S("vol", "s"))
    S.keep(d.get_input_sample_set())

    def go():
        r = []
        for name, out in (("sorted", pt.sort_by_rho(d)), ("highest", pt.sample_highest_prob(0.55, d, True)[1:]), ("lowest", pt.sample_lowest_prob(0.45, d, True)[1:])):
            k, ind = out
            i, o = k.get_input_sample_set(), k.get_output_sample_set()
            r += [(name + ": indices", np.ravel(ind).astype(int), ".", None, "s"), (name + ": values", i.get_values(), ".i", "x"),
                  (name + ": outputs", o.get_values(), ".o", "y"), (name + ": probabilities", i.get_probabilities(), "."), (name + ": volumes", i.get_volumes(), ".", "vol")]
        return r
    return go


@routine("sqi", "mild", None, True)
def densities(S):
    """Random variables, Gaussians and Voronoi densities."""
    s = S.inputs()
    pts = S("q", "qi", "x")
    loc, sc = S("loc", "i", "x"), S("sc", "i", "dx")
    s.set_prob_type_init("rv")
    s.set_prob_parameters_init([["norm", dict(loc=l, scale=w)] for l, w in zip(loc, sc)])
    s.set_prob_type("gmm")
    means = [S.carry(S.raw["q"][0], "i", "x"), S.carry(S.raw["q"][1], "i", "x")]
    s.set_prob_parameters((means, [S.carry(S.raw["cov"], "i.", "cov"), S.carry(2 * S.raw["cov"], "i.", "cov")], [0.25, 0.75]))
    S.keep(s)

    def go():
        r = [("initial density", np.ravel(s.pdf_init(pts)), "q", "px"), ("density", np.ravel(s.pdf(pts)), "q", "px")]
        for k in range(S.dim):
            j = S.coord("i", k)
            x = pts[:, j].copy()
            r += [("initial marginal", np.ravel(s.marginal_pdf_init(x, j)) * abs(S.ai[k]), "q"), ("marginal", np.ravel(s.marginal_pdf(x, j)) * abs(S.ai[k]), "q")]
        return r
    return go


@routine("sqi", "iso", None, True)
def voronoi_density(S):
    s = S.inputs(S.c["p"])
    s.set_prob_type("voronoi")
    s.set_probabilities(S("prob", "s"))
    s.set_volumes(S("vol", "s"))
    S.keep(s)
    pts = S("q", "qi", "x")

    def go():
        return [("density", np.ravel(s.pdf(pts)) * S.volumes, "q", "px")]
    return go


def inverse(S, clusters):
    import bet.sample as samp
    inp, out = S.inputs(), S.outputs()
    obs = S.keep(S.plain(S("obs", "vo", "y"), S.odim), "observed")
    if clusters:
        out.set_region(S("lab", "s"))
        obs.set_region(S("vlab", "v"))
    S.keep(out)
    S.keep(obs)
    return samp.discretization(inp, out, output_observed_set=obs)


@routine("svqio", "mild", "mild", True)
def density_inversion(S):
    import bet.calculateP.calculateR as cr
    pts = S("q", "qi", "x")
    cl = S.c["local"]
    names = ("invert_to_kde", "invert_to_gmm", "invert_to_multivariate_gaussian")
    ds = [inverse(S, cl) for _ in names]

    def go():
        r = []
        for name, d in zip(names, ds):
            getattr(cr, name)(d)
            i = d.get_input_sample_set()
            r += [(name + ": weights", np.ravel(values(i, "weights")[0]), "s"), (name + ": density", np.ravel(i.pdf(pts)), "q", "px")]
            for k in range(S.dim):
                j = S.coord("i", k)
                r.append((name + ": marginal", np.ravel(i.marginal_pdf(pts[:, j].copy(), j)) * abs(S.ai[k]), "q"))
        return r
    return go


@routine("svqio", "mild", "mild", True)
def inversion_ratios(S):
    import bet.calculateP.calculateR as cr
    d = inverse(S, S.c["local"])

    def go():
        w = cr.invert(d)
        i = d.get_input_sample_set()
        return [("weights", np.ravel(values(i, "weights")[0]), "s"),
                ("mean ratio per cluster", np.array([np.nan if m is None else m for m in w[0]], float), ".")]
    return go


@routine("qi", "any", None, True)
def distances(S):
    import bet.postProcess.compareP as comp
    sets = []
    for k in (0, 1):
        s = S.second()
        s.set_prob_type("rv")
        loc, sc = S.carry(S.raw["loc"] * (1 + k), "i", "x"), S.carry(S.raw["sc"] / (1 + k), "i", "dx")
        s.set_prob_parameters([["norm", dict(loc=l, scale=w)] for l, w in zip(loc, sc)])
        sets.append(S.keep(s))
    pts = S("q", "qi", "x")

    def go():
        c = comp.compare(*sets)
        c.set_compare_set(pts)
        r = [(f, np.ravel(c.distance(f, normalize=True)), ".") for f in ("tv", "hell", "sqhell", "2", "kl")]
        r.append(("tv", np.ravel(c.distance("tv") * np.prod(np.abs(S.ai))), "."))
        for k in range(S.dim):
            j = S.coord("i", k)
            r += [("marginal " + f, np.ravel(c.distance_marginal(j, num_points=50, functional=f)), ".") for f in ("tv", "hell", "kl")]
            r.append(("marginal by quadrature", np.ravel(c.distance_marginal_quad(j, functional="sqhell", maxiter=30)), "."))
        return r
    return go


# ==================================================================== sampling and models
@routine("sio", "any", "any", True)
def model(S):
    import bet.sampling.basicSampling as bs
    inp = S.inputs()
    f = bs.sampler(lambda v: field(S, v))

    def go():
        d = f.compute_qoi_and_create_discretization(inp, globalize=True)
        return [("outputs", values(d.get_output_sample_set(), "values")[0], "so", "y"), ("inputs", values(d.get_input_sample_set(), "values")[0], "si", "x")]
    return go


@routine("i", "any", None, True)
def regular_samples(S):
    import bet.sampling.basicSampling as bs
    s = S.plain(S("t", "ti", "x"), S.dim, None, S.box())
    k = S.carry(np.arange(S.dim) % 3 + 1, "i")

    def go():
        r = bs.regular_sample_set(s.copy(), [int(j) for j in k])
        return [("grid", values(r, "values")[0], "*i", "x"), ("volumes", values(r, "volumes")[0], ".")]
    return go


@routine("", "any", None)
def random_samples(S):
    import bet.sampling.basicSampling as bs
    s = S.plain(S("t", "ti", "x"), S.dim, None, S.box())
    loc, sc = S("loc", "i", "x"), S("sc", "i", "dx")

    def go():
        a = bs.lhs_sample_set(s.copy(), 5, "center")
        b = bs.random_sample_set("uniform", s.copy(), 6)
        c = bs.random_sample_set([["norm", dict(loc=l, scale=w)] for l, w in zip(loc, sc)], S.dim, 6)
        return [("latin hypercube", values(a, "values")[0], ".i", "x"), ("uniform", values(b, "values")[0], ".i", "x"), ("normal", values(c, "values")[0], ".i", "x")]
    return go


@routine("sio", "any", "any", True)
def choices(S):
    import bet.sample as samp
    d = samp.discretization(S.inputs(), S.outputs())
    d.get_input_sample_set().set_jacobians(S("jac", "soi", "J"))
    d.get_output_sample_set().set_error_estimates(S("err", "so", "ey"))
    d.get_output_sample_set().set_reference_value(S("ref", "o", "y"))
    S.keep(d.get_input_sample_set())
    S.keep(d.get_output_sample_set())
    a, b = [S.coord("i", k) for k in range(S.dim)], [S.coord("o", k) for k in range(S.odim)]
    last = [S.coord("o", S.odim - 1)]

    def go():
        r = []
        c = d.choose_inputs_outputs(inputs=a, outputs=b)        # the original order of coordinates
        ai, bi, ao, bo = S.ai, S.bi, S.ao, S.bo
        i, o = c.get_input_sample_set(), c.get_output_sample_set()
        r += [("inputs", (values(i, "values")[0] - bi) / ai, "s."), ("jacobians", values(i, "jacobians")[0] * ai / ao[:, None], "s.."),
              ("outputs", (values(o, "values")[0] - bo) / ao, "s."), ("errors", values(o, "error_estimates")[0] / ao, "s."),
              ("reference", (np.ravel(values(o, "reference_value")[0]) - bo) / ao, ".")]
        c = d.choose_inputs_outputs(outputs=last)
        r.append(("last output", (values(c.get_output_sample_set(), "values")[0] - bo[-1]) / ao[-1], "s."))
        return r
    return go


# ==================================================================== running and comparing
def run(S, r, seed):
    """The results of one run: a list of (name, array or None, axes, unit, ptr), and the function for another run."""
    go = r.f(S)
    np.random.seed(seed % 2 ** 32)
    return results(go), go


def results(go):
    out = []
    for t in go():
        t = tuple(t) + (None,) * (5 - len(t))
        out.append((t[0], None if t[1] is None else np.array(t[1])) + t[2:])
    return out


def match_rows(got, want, what, tol=1e-7):
    """The same rows, in any order."""
    from vp.core import check
    check(got.shape == want.shape, what + ": wrong shape", got=got.shape, want=want.shape)
    if not len(got):
        return
    scale = np.maximum(np.ptp(want, axis=0), np.abs(want).max(axis=0) * 1e-6) + 1e-300
    d = (np.abs(got[:, None, :] - want[None, :, :]) / scale).max(axis=2)
    near = d.argmin(axis=1)
    check(bool(np.all(d.min(axis=1) < tol)) and len(set(near.tolist())) == len(near), what, got=got, want=want)


def compare(base, other, S, name, rtol=1e-7):
    """other is what the relabelled or rescaled problem S gives, base what the original gave. Returns the numbers compared."""
    from vp.core import check, close, same
    check(len(base) == len(other), "%s: same results" % name)
    count = 0
    for (what, a, axes, unit, ptr), (_, b, _, _, _) in zip(base, other):
        if a is None or b is None:
            continue
        what = "%s, %s" % (name, what)
        if "*" in axes:
            match_rows(np.asarray(b, float), S.carry(a, axes.replace("*", "."), unit), what)
            count += a.size
            continue
        want = S.carry(a, axes, unit, ptr)
        if ptr or want.dtype.kind in "ib":
            same(b, want, what)
        else:
            big = float(np.nanmax(np.abs(np.where(np.isfinite(want), want, 0)), initial=0.0)) if want.size else 0.0
            close(b, want, what, rtol=rtol, atol=1e-9 * big + 1e-300 if unit else 1e-10, nan_equal=True)
        count += a.size
    return count
