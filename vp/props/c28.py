"""C28: without mpi4py the package gives the results of a one-process MPI run.

The checks of the other properties run with mpi4py made unavailable; the operations of the fallback communicator are compared with those of
mpi4py on one process; and whole programs run on two copies of the package, one of each kind, must give bit-equal results."""
import contextlib, importlib, os, sys, tempfile
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen

# ------------------------------------------------------------ two copies of the package
_twins = {}
MODULES = ["bet", "bet.Comm", "bet.util", "bet.sample", "bet.surrogates", "bet.calculateP.calculateP", "bet.calculateP.calculateError",
           "bet.calculateP.calculateR", "bet.calculateP.simpleFunP", "bet.sampling.basicSampling", "bet.sensitivity.gradients",
           "bet.sensitivity.chooseQoIs", "bet.postProcess.postTools", "bet.postProcess.plotP", "bet.postProcess.compareP"]


def _mine():
    return {k: v for k, v in sys.modules.items() if k == "bet" or k.startswith("bet.") or k == "mpi4py" or k.startswith("mpi4py.")}


def _swap(mods):
    for k in _mine():
        del sys.modules[k]
    sys.modules.update(mods)


@contextlib.contextmanager
def copy_of(kind):
    """The package as imported with ("mpi") or without ("fallback") mpi4py."""
    now = _mine()
    if kind not in _twins:
        if kind == "fallback":
            _swap({"mpi4py": None})
        for m in MODULES:
            importlib.import_module(m)
        _twins[kind] = _mine()
    _swap(_twins[kind])
    try:
        yield
    finally:
        _swap(now)


# ------------------------------------------------------------ the communicator
PAY = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-9, 9), dyadic(-3, 3), st.text("ab", max_size=2)),
                   lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from(["a", "b"]), x, max_size=2)), max_leaves=4)


@st.composite
def comms(draw):
    return dict(op=draw(st.sampled_from(["allgather", "gather", "allreduce", "bcast", "scatter", "Allreduce", "Bcast", "size", "barrier"])),
                val=draw(PAY), array=draw(st.lists(dyadic(-3, 3), max_size=5)), use=draw(st.sampled_from(["plain", "array", "array2", "int"])),
                redop=draw(st.sampled_from(["SUM", "MAX"])))


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def payload(c):
    if c["use"] == "plain":
        return c["val"]
    a = np.array(c["array"])
    if c["use"] == "array2":
        a = np.vstack([a, a + 1])
    return a.astype(int) if c["use"] == "int" else a


def one(c):
    from bet.Comm import comm, MPI, size, rank
    x = payload(c)
    op = c["op"]
    if op == "size":
        return [comm.size, comm.rank, comm.Get_size(), comm.Get_rank(), size, rank]
    if op == "barrier":
        return [comm.barrier(), comm.Barrier()]
    if op == "allgather":
        return comm.allgather(x)
    if op == "gather":
        return [comm.gather(x), comm.gather(x, root=0)]
    if op == "bcast":
        return [comm.bcast(x), comm.bcast(x, root=0)]
    if op == "scatter":
        return [comm.scatter([x]), comm.scatter([x], root=0)]
    if op == "allreduce":
        return comm.allreduce(x, op=getattr(MPI, c["redop"]))
    a = np.array(c["array"], dtype=float)
    if op == "Bcast":
        comm.Bcast([a, MPI.DOUBLE], root=0)
        return a
    b = np.copy(a)
    comm.Allreduce([a, MPI.DOUBLE], [b, MPI.DOUBLE], op=getattr(MPI, c["redop"]))
    return [a, b]


def communicator(c, t):
    with copy_of("mpi"):
        want = one(c)
    with copy_of("fallback"):
        got = one(c)
    check(eq(got, want), "communication result of " + c["op"], got=got, want=want)
    t.nontrivial(c["op"] not in ("size", "barrier"))
    t.label(c["op"])


# ------------------------------------------------------------ programs on both copies
STEPS = ["emulate", "mc", "exact", "solve", "solve_emulated", "localize", "globalize", "radii", "localvol", "save", "clip", "normalize", "append",
         "marginals", "qois", "sort", "compare", "transfer", "density"]


@st.composite
def programs(draw):
    return dict(dim=draw(st.integers(1, 2)), odim=draw(st.integers(1, 2)), n=draw(st.integers(6, 25)), seed=draw(SEED),
                simple=draw(st.sampled_from(["rectangle", "regular", "uniform", "hist"])),
                sampling=draw(st.sampled_from(["random", "lhs", "regular"])),
                steps=draw(st.lists(st.sampled_from(STEPS), min_size=1, max_size=7)))


def program(c):
    """Everything observable after each step, as a list of (name, array)."""
    import bet.sample as samp
    import bet.util as util
    import bet.calculateP.simpleFunP as sf
    import bet.calculateP.calculateP as cp
    import bet.calculateP.calculateR as cr
    import bet.sampling.basicSampling as bs
    import bet.postProcess.postTools as pt
    import bet.postProcess.plotP as pp
    import bet.postProcess.compareP as comp
    import bet.sensitivity.chooseQoIs as cq
    np.random.seed(c["seed"] % 2 ** 31)
    out = []
    dim, odim = c["dim"], c["odim"]
    rs = np.random.RandomState(c["seed"])
    M = rs.randn(dim, odim)

    def model(x):
        return np.dot(x, M) + 0.3 * np.sin(3 * x[:, :1])
    inp = samp.sample_set(dim)
    inp.set_domain(np.repeat([[0.0, 1.0]], dim, axis=0))
    sampler = bs.sampler(model)
    if c["sampling"] == "random":
        sampler.random_sample_set("uniform", inp, c["n"])
    elif c["sampling"] == "lhs":
        sampler.lhs_sample_set(inp, c["n"], criterion="center")
    else:
        sampler.regular_sample_set(inp, [3] * dim)
    disc = sampler.compute_qoi_and_create_discretization()
    inp = disc.get_input_sample_set()
    ref = rs.random_sample(dim)
    Q = model(ref[None, :])[0]
    if c["simple"] == "rectangle":
        sf.regular_partition_uniform_distribution_rectangle_scaled(disc, Q, rect_scale=0.5, cells_per_dimension=2)
    elif c["simple"] == "regular":
        sf.regular_partition_uniform_distribution_rectangle_size(disc, Q, rect_size=0.6, cells_per_dimension=3)
    elif c["simple"] == "uniform":
        sf.uniform_partition_uniform_distribution_rectangle_scaled(disc, Q, rect_scale=0.5, M=6, num_d_emulate=50)
    else:
        sf.uniform_partition_uniform_distribution_data_samples(disc)

    def look(tag):
        s = disc.get_input_sample_set()
        for name in ("values", "volumes", "probabilities", "jacobians", "normalized_radii", "values_local", "volumes_local", "probabilities_local", "densities"):
            g = getattr(s, "_" + name, None)
            if g is not None:
                out.append((tag + "." + name, np.array(g)))
        e = disc.get_emulated_input_sample_set()
        if e is not None and e.get_probabilities() is not None:
            out.append((tag + ".emulated probabilities", np.array(e.get_probabilities())))
        p = disc.get_output_probability_set()
        out.append((tag + ".measure", np.array(p.get_probabilities())))
    inp.estimate_volume_mc()
    cp.prob(disc)
    look("start")
    for k, s in enumerate(c["steps"]):
        tag = "%d %s" % (k, s)
        try:
            i = disc.get_input_sample_set()
            if s == "emulate":
                e = bs.random_sample_set("uniform", samp_like(i), 40)
                disc.set_emulated_input_sample_set(e)
            elif s == "mc":
                i.estimate_volume_mc()
            elif s == "exact":
                i.estimate_volume(100)
            elif s == "solve":
                if i.get_volumes() is None:
                    i.estimate_volume_mc()
                cp.prob(disc)
            elif s == "solve_emulated":
                if disc.get_emulated_input_sample_set() is None:
                    disc.set_emulated_input_sample_set(bs.random_sample_set("uniform", samp_like(i), 30))
                cp.prob_on_emulated_samples(disc)
            elif s == "localize":
                disc.global_to_local()
            elif s == "globalize":
                disc.local_to_global()
            elif s == "radii":
                i.estimate_radii_and_volume(200)
            elif s == "localvol":
                i.estimate_local_volume(50, 200)
            elif s == "save":
                with tempfile.TemporaryDirectory(dir=".") as tmp:
                    name = os.path.join(tmp, "d")
                    disc.save(name)
                    disc = util.load_object(name)
            elif s == "clip":
                disc = disc.clip(max(5, i.check_num() - 1))
            elif s == "normalize":
                i.normalize_domain()
                i.undo_normalize_domain()
            elif s == "append":
                x = rs.random_sample((2, dim))
                d2 = samp.discretization(gen.plain_set(x.tolist(), dim, domain=[[0.0, 1.0]] * dim), gen.plain_set(model(x).tolist(), odim))
                disc = disc.merge(d2)
            elif s == "marginals":
                b, m = pp.calculate_1D_marginal_probs(i, nbins=4)
                out.extend(("%s %d" % (tag, q), np.array(m[q])) for q in m)
            elif s == "qois":
                J = rs.randn(3, 3, dim)
                if dim > 1:
                    cs = samp.sample_set(dim)
                    cs.set_values(rs.random_sample((3, dim)))
                    cs.set_jacobians(J)
                    best = cq.chooseOptQoIs(cs, measure="skewness")
                    out.append((tag, np.array(best, dtype=float)))
            elif s == "sort":
                o, idx = pt.sort_by_rho(i)
                out.append((tag, np.array(idx)))
            elif s == "compare":
                other = i.copy()
                i.set_prob_type("voronoi")
                other.set_prob_type("voronoi")
                other.set_probabilities(np.roll(i.get_probabilities(), 1))
                m = comp.compare(i, other)
                m.set_compare_set(compare_set=20)
                out.append((tag, np.array([m.distance("tv"), m.distance("hell"), m.distance_marginal(0, num_points=20)])))
            elif s == "transfer":
                e = bs.random_sample_set("uniform", samp_like(i), 15)
                out.append((tag, np.array([cp.prob_from_sample_set(i, e) is None])))
                out.append((tag + " mass", np.array(e.get_probabilities())))
            elif s == "density":
                i.set_prob_type("voronoi")
                i.set_densities()
        except Exception as ex:      # the same refusal on both
            out.append((tag + " refused", np.array([type(ex).__name__])))
        look(tag)
    return out


def samp_like(s):
    import bet.sample as samp
    r = samp.sample_set(s.get_dim())
    r.set_domain(s.get_domain())
    return r


def both(c, t):
    with copy_of("mpi"):
        want = program(c)
    with copy_of("fallback"):
        got = program(c)
    check([k for k, _ in got] == [k for k, _ in want], "same steps", got=[k for k, _ in got], want=[k for k, _ in want])
    for (k, g), (_, w) in zip(got, want):
        check(g.dtype == w.dtype and g.shape == w.shape, k + ": form of the result without mpi4py", got=(g.dtype, g.shape), want=(w.dtype, w.shape))
        ok = np.array_equal(g, w, equal_nan=True) if g.dtype.kind == "f" else np.array_equal(g, w)
        check(bool(ok), k + ": result without mpi4py", got=g, want=w)
    refused = [k for k, _ in got if k.endswith("refused")]
    t.nontrivial(len(refused) < len(c["steps"]))
    t.label(*(["refused " + k.split()[1] for k in refused] + ["ran " + s for s in c["steps"]]))


# ------------------------------------------------------------ the checks of other properties without mpi4py
GROUPS = dict(
    solve=["c01.split", "c01.history", "c02.emulate", "c03.sample_set", "c03.emulated", "c03.from_disc", "c10.history"],
    sets=["c04.history", "c07.affine", "c08.history", "c11.ops", "c05.rectangles", "c06.exact", "c06.emulated", "c06.radii"],
    measures=["c12.regular", "c12.uniform", "c12.normal", "c12.from_data", "c13.ratio", "c14.kde", "c15.parametric"],
    others=["c16.latin", "c16.regular", "c17.evaluate", "c19.rbf", "c20.choose", "c21.sampling", "c22.generate", "c23.select", "c24.marginals", "c25.history"])


def find(name):
    mod, sub = name.split(".")
    return [s for s in importlib.import_module("vp.props." + mod).PROP.subs if s.name == sub][0]


def group(names):
    strategy = st.one_of(*[st.tuples(st.just(n), find(n).strategy) for n in names]).map(lambda x: dict(check=x[0], case=x[1]))

    def fn(c, t):
        import bet.Comm
        check(type(bet.Comm.comm).__module__ == "bet.Comm", "the fallback is in use", got=type(bet.Comm.comm))
        tt = Tally()
        find(c["check"]).fn(c["case"], tt)
        t.nontrivial(tt.nontriv)
        t.label(c["check"])
    return strategy, fn


PROP = Prop("C28", "fallback communicator", [
    Sub("communicator", comms(), communicator, quick=1500, thorough=20000, rule="non-trivial: an operation carrying data"),
    Sub("both", programs(), both, quick=300, thorough=4000, rule="non-trivial: at least one step ran"),
] + [Sub("without_" + k, *group(v), quick=400, thorough=6000, rule="as in the check named in the case", needs="nompi") for k, v in sorted(GROUPS.items())],
    assumptions=["one process", "receive buffers of the uppercase operations are filled by the caller beforehand, as everywhere in the package"])
