"""C26: with the samples split over several ranks every calculation gives the serial answer on every rank.

Ranks are simulated (vp/fakempi.py) under a generated schedule.  Two kinds of checks: the checks of the other properties, whose oracles
know nothing about ranks, run on all ranks at once; and programs written for this property (files, merging,
gathering, agreement of the ranks where random numbers are involved)."""
import contextlib, importlib, io, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o


@st.composite
def worlds(draw):
    return dict(size=draw(st.sampled_from([2, 3, 2, 3, 4, 5])), schedule=draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)))


def run(w, fn):
    """fn(rank) on every rank, in a directory of its own; the results and the number of communication calls."""
    from vp import fakempi
    home, tmp = os.getcwd(), tempfile.mkdtemp(prefix="c26_", dir=".")
    os.chdir(tmp)
    try:
        world = fakempi.World(w["size"], w["schedule"])
        with contextlib.redirect_stdout(io.StringIO()):
            return world.run(fn), world.calls
    finally:
        os.chdir(home)
        shutil.rmtree(os.path.join(home, tmp), ignore_errors=True)


def agree(results, what):
    """The same dictionary of results on every rank."""
    for r, x in enumerate(results[1:]):
        check(set(x) == set(results[0]), what + ": same results on every rank")
        for k in x:
            if x[k] is None or results[0][k] is None:
                check(x[k] is results[0][k], "%s: %s on ranks 0 and %d" % (what, k, r + 1), got=x[k], want=results[0][k])
            else:
                close(x[k], results[0][k], "%s: %s on ranks 0 and %d" % (what, k, r + 1), rtol=0, atol=0, nan_equal=True)


# ------------------------------------------------------------ the checks of other properties, on several ranks
GROUPS = dict(
    solve=["c01.split", "c01.history", "c02.emulate", "c03.sample_set", "c03.emulated", "c03.from_disc", "c10.history"],
    sets=["c04.history", "c07.affine", "c08.history", "c11.ops"],
    volumes=["c05.rectangles", "c05.balls", "c06.exact", "c06.emulated", "c06.random", "c06.radii"],
    measures=["c12.regular", "c12.uniform", "c12.normal", "c12.from_data"],
    densities=["c13.ratio", "c14.kde", "c14.gaussians", "c14.random_variable", "c15.parametric", "c15.voronoi"],
    sampling=["c16.random_variables", "c16.latin", "c16.regular", "c16.updated", "c17.evaluate", "c17.routes"],
    sensitivity=["c19.rbf", "c20.choose", "c20.large", "c20.unique"],
    errors=["c21.connectivity", "c21.sampling", "c21.model", "c22.generate", "c22.region"],
    post=["c23.sort", "c23.select", "c24.marginals", "c25.history"])


def find(name):
    mod, sub = name.split(".")
    return [s for s in importlib.import_module("vp.props." + mod).PROP.subs if s.name == sub][0]


def group(names):
    def strategy():
        small = lambda c: len(c.get("x", ())) <= 40         # every rank repeats the work of the oracle
        return st.one_of(*[st.tuples(st.just(n), find(n).strategy.filter(small)) for n in names]).flatmap(
            lambda x: worlds().map(lambda w: dict(check=x[0], case=x[1], world=w)))

    def fn(c, t):
        sub = find(c["check"])

        def one(rank):
            tt = Tally()
            sub.fn(c["case"], tt)
            return tt.nontriv
        res, calls = run(c["world"], one)
        t.nontrivial(res[0])
        t.label(c["check"], "ranks=%d" % c["world"]["size"])
    return strategy, fn


# ------------------------------------------------------------ gathering
@st.composite
def gathers(draw):
    w = draw(worlds())
    return dict(world=w, sizes=draw(st.lists(st.integers(0, 4), min_size=w["size"], max_size=w["size"])), equal=draw(st.booleans()),
                tail=draw(st.sampled_from([[], [1], [2], [3], [2, 2], [1, 3]])), kind=draw(st.sampled_from(["float", "int", "bool", "object", "float32", "int32", "int16"])),
                shape=draw(st.booleans()), seed=draw(SEED))


def gather(c, t):
    import bet.util as util
    rs = np.random.RandomState(c["seed"])
    n = [c["sizes"][0]] * c["world"]["size"] if c["equal"] else c["sizes"]
    parts = []
    for k in n:
        a = rs.randint(-2 ** 40, 2 ** 40, [k] + c["tail"]) if c["kind"] == "int" else rs.randn(*([k] + c["tail"]))
        if c["kind"] == "bool":
            a = a > 0
        elif c["kind"] == "object":
            a = a.astype(object)
        elif c["kind"] not in ("int", "float"):
            a = (a * 1000).astype(c["kind"])
        parts.append(a)
    want = np.concatenate(parts)
    # a shape may be given when all processes hold equally many
    kw = dict(shape=want.shape) if c["shape"] and len(set(n)) == 1 else {}
    if c["shape"] and len(set(n)) == 1 and c["seed"] % 2:
        kw = dict(shape=list(want.shape))
    res, _ = run(c["world"], lambda r: util.get_global_values(parts[r].copy(), **kw))
    for r, g in enumerate(res):
        check(g.dtype.kind == want.dtype.kind, "type of the gathered entries", got=g.dtype, want=want.dtype)
        same(g, want, "gathered array on rank %d" % r)
    t.nontrivial(sum(1 for k in n if k) > 1)
    t.label(c["kind"], "shape given" if kw else "no shape", "uneven" if len(set(n)) > 1 else "even")


# ------------------------------------------------------------ local arrays
@st.composite
def locals_(draw):
    w = draw(worlds())
    dim = draw(st.integers(1, 3))
    return dict(world=w, dim=dim, sizes=draw(st.lists(st.integers(0, 4), min_size=w["size"], max_size=w["size"])), seed=draw(SEED),
                attrs=draw(st.lists(st.sampled_from(["volumes", "probabilities", "jacobians", "error_estimates", "region", "error_id"]), unique=True)),
                back=draw(st.booleans()), then=draw(st.sampled_from(["none", "clip", "normalize", "copy", "mc", "query", "append"])))


def local_arrays(c, t):
    """Local arrays of any lengths are gathered in rank order, attribute by attribute, and split again evenly."""
    import bet.sample as samp
    n, dim = sum(c["sizes"]), c["dim"]
    if n == 0:
        return
    rs = np.random.RandomState(c["seed"])
    arr = dict(values=rs.random_sample((n, dim)), volumes=rs.random_sample(n), probabilities=rs.random_sample(n),
               jacobians=rs.randn(n, 2, dim), error_estimates=rs.randn(n, dim), region=rs.randint(0, 5, n), error_id=rs.random_sample(n))
    names = ["values"] + c["attrs"]
    ends = np.cumsum([0] + c["sizes"])

    def prog(r):
        s = samp.sample_set(dim)
        s.set_domain(np.array([[0.0, 2.0]] * dim))
        for a in names:
            getattr(s, "set_" + a + "_local")(arr[a][ends[r]:ends[r + 1]].copy())
        check(s.check_num() == n, "number of samples from the local arrays", got=s.check_num(), want=n)
        check(s.check_num_local() == c["sizes"][r], "number of local samples")
        s.local_to_global()
        for a in names:
            same(getattr(s, "get_" + a)(), arr[a], "gathered " + a)
        if c["back"]:
            s.global_to_local()
            for a in names:
                same(whole(getattr(s, "get_" + a + "_local")()), arr[a], "distributed " + a)
            num = whole(np.array([s.check_num_local()]))
            check(max(num) - min(num) <= 1, "samples are distributed evenly", got=num)
            same(whole(s._local_index), np.arange(n), "indices of the local samples")
        if c["then"] == "clip":
            k = 1 + c["seed"] % n
            z = s.clip(k)
            for a in names:
                same(getattr(z, "get_" + a)(), arr[a][:k], "clipped " + a)
            for a in names:
                g = getattr(z, "get_" + a + "_local")()
                if whole(g) is not None:
                    same(whole(g), arr[a][:k], "clipped local " + a)
        elif c["then"] == "normalize":
            s.normalize_domain()
            close(s.get_values(), arr["values"] / 2, "normalized values")
            close(whole(s.get_values_local()), arr["values"] / 2, "normalized local values")
            s.undo_normalize_domain()
            close(whole(s.get_values_local()), arr["values"], "local values after undoing")
        elif c["then"] == "copy":
            z = s.copy()
            check(bool(z == s), "a copy is equal")
            for a in names:
                same(whole(getattr(z, "get_" + a + "_local")()), arr[a], "local %s of the copy" % a)
        elif c["then"] == "mc":
            s.estimate_volume_mc()
            close(s.get_volumes(), np.full(n, 1.0 / n), "equal volumes")
            close(whole(s.get_volumes_local()), np.full(n, 1.0 / n), "equal local volumes")
        elif c["then"] == "query":
            idx, clear = o.nearest(arr["values"][::-1] + 0.01, arr["values"])
            _, got = s.query(arr["values"][::-1] + 0.01)
            if clear:
                same(np.ravel(got), idx, "nearest samples among those of all ranks")
        elif c["then"] == "append":
            add = arr["values"][:2] + 3.0
            s.append_values(add.copy())
            same(s.get_values(), np.concatenate([arr["values"], add]), "values after appending on all ranks")
        return dict(values=s.get_values())
    res, _ = run(c["world"], prog)
    agree(res, "local arrays")
    t.nontrivial(sum(1 for k in c["sizes"] if k) > 1)
    t.label(c["then"], "a rank without samples" if 0 in c["sizes"] else "all ranks hold samples")


# ------------------------------------------------------------ files
@st.composite
def file_cases(draw):
    din, dout = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    n = draw(sizes(1, 9))
    return dict(world=draw(worlds()), world2=draw(worlds()), same=draw(st.booleans()), serial=draw(st.sampled_from(["no", "no", "save", "load"])),
                din=din, dout=dout, inputs=draw(points(n, din)), outputs=draw(points(n, dout, distinct=False)),
                volumes=draw(weights(n, positive=True)), measure=draw(gen.measure_cells(dout, kinds=("voronoi", "rectangle"))),
                emulated=draw(points(draw(sizes(1, 9)), din, distinct=False)), glob=draw(st.booleans()), localize=draw(st.booleans()),
                solve_first=draw(st.booleans()), name=draw(st.sampled_from(["d", "sub/d", "abs", "run[1]", "sub/a.b"])), near=draw(st.booleans()), what=draw(st.sampled_from(["disc", "disc", "set"])),
                bc=draw(st.booleans()))


def files(c, t):
    """Saved on some number of ranks and loaded on the same or (globalized) another number, an object works as if built anew."""
    import bet.sample as samp, bet.util as util, bet.calculateP.calculateP as calcP
    own, clear = gen.measure_owner(c["measure"], np.array(c["outputs"]))
    em, clear2 = o.nearest(c["emulated"], c["inputs"])
    if not (clear and clear2):
        t.label("ambiguous")
        return
    vol, mass = normalized(c["volumes"]), gen.measure_mass(c["measure"])
    want = o.split_mass(own, vol, mass)
    want_em = o.split_mass(own[em], np.ones(len(em)), mass)
    tmp = tempfile.mkdtemp(prefix="c26f_", dir=".")
    try:
        os.makedirs(os.path.join(tmp, "sub"))
        in_files(c, t, os.path.abspath(os.path.join(tmp, c["name"])), vol, want, want_em)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def in_files(c, t, name, vol, want, want_em):
    import bet.sample as samp, bet.util as util, bet.calculateP.calculateP as calcP
    w1 = dict(size=1, schedule=[0]) if c["serial"] == "save" and c["glob"] else c["world"]
    w2 = dict(size=1, schedule=[0]) if c["serial"] == "load" and c["glob"] else (c["world2"] if c["glob"] and not c["same"] else w1)

    def build():
        inp = gen.plain_set(c["inputs"], c["din"])
        inp.set_volumes(vol.copy())
        d = samp.discretization(inp, gen.plain_set(c["outputs"], c["dout"]), output_probability_set=gen.build_measure(c["measure"]),
                                emulated_input_sample_set=gen.plain_set(c["emulated"], c["din"]))
        return d

    def save(r):
        d = build()
        if c["solve_first"]:
            calcP.prob(d, globalize=c["bc"])
            calcP.prob_on_emulated_samples(d, globalize=c["bc"])
        elif c["bc"]:
            d.global_to_local()
        x = d if c["what"] == "disc" else d.get_input_sample_set()
        if not c["glob"] and c["what"] == "set" and not c["bc"]:
            x.global_to_local()
        if c["near"]:
            # other objects are kept beside it, under names that begin or end alike
            for other in ("x_" + os.path.basename(name), os.path.basename(name) + "_x"):
                gen.plain_set([[9.0], [8.0]], 1).save(os.path.join(os.path.dirname(name), other), globalize=False)
        x.save(name, globalize=c["glob"])
        if not c["same"]:
            return None
        return use(r)

    def use(r):
        x = util.load_object(name, localize=c["localize"])
        i = x.get_input_sample_set() if c["what"] == "disc" else x
        close(i.get_values(), c["inputs"], "values loaded")
        close(i.get_volumes(), vol, "volumes loaded")
        if whole(i.get_values_local()) is not None:
            close(whole(i.get_values_local()), c["inputs"], "local values loaded")
        if c["solve_first"] and c["glob"]:
            close(i.get_probabilities(), want, "probabilities loaded")
        if c["what"] == "set":
            i.local_to_global()
            close(i.get_values(), c["inputs"], "values after gathering")
            close(i.get_volumes(), vol, "volumes after gathering")
            out = dict(values=i.get_values(), volumes=i.get_volumes())
        else:
            calcP.prob(x)
            close(i.get_probabilities(), want, "solution from the loaded discretization")
            calcP.prob_on_emulated_samples(x)
            close(x.get_emulated_input_sample_set().get_probabilities(), want_em, "emulated solution from the loaded discretization")
            out = dict(p=i.get_probabilities())
        return out
    if c["same"]:
        res, _ = run(w1, save)
        w2 = w1
    else:
        run(w1, save)
        res, _ = run(w2, use)
        if not c["glob"] and w1["size"] > 1:
            for k in range(w1["size"]):
                f = os.path.join(os.path.dirname(name), "proc%d_%s.p" % (k, os.path.basename(name)))
                check(os.path.exists(f), "a file per process", missing=f)
            # another number of processes cannot read files per process
            raises(samp.dim_not_matching, lambda: run(dict(size=w1["size"] + 1, schedule=[0]), lambda r: util.load_object(name)),
                   "files of another number of processes")
    agree(res, "files")
    t.nontrivial(len(c["inputs"]) > 1 and max(w1["size"], w2["size"]) > 1)
    t.label("globalized" if c["glob"] else "per process", "%d->%d" % (min(w1["size"], 3), min(w2["size"], 3)), c["what"])


# ------------------------------------------------------------ merging
@st.composite
def merges(draw):
    return dict(world=draw(worlds()), din=draw(st.integers(1, 2)), dout=draw(st.integers(1, 2)), n=draw(st.integers(1, 6)), m=draw(st.integers(1, 6)),
                seed=draw(SEED), localized=draw(st.booleans()))


def merge(c, t):
    """Merged discretizations hold every pair of both exactly once, whatever the order, and are the same on every rank."""
    import bet.sample as samp
    rs = np.random.RandomState(c["seed"])
    X, Y = [rs.random_sample((k, c["din"])) for k in (c["n"], c["m"])], [rs.random_sample((k, c["dout"])) for k in (c["n"], c["m"])]

    def prog(r):
        a, b = [samp.discretization(gen.plain_set(X[k], c["din"]), gen.plain_set(Y[k], c["dout"])) for k in (0, 1)]
        if c["localized"]:
            a.global_to_local()
            b.global_to_local()
        m = a.merge(b)
        return dict(x=m.get_input_sample_set().get_values(), y=m.get_output_sample_set().get_values(),
                    lx=whole(m.get_input_sample_set().get_values_local()), ly=whole(m.get_output_sample_set().get_values_local()))
    res, _ = run(c["world"], prog)
    agree(res, "merge")
    want = sorted(map(tuple, np.hstack([np.vstack(X), np.vstack(Y)]).tolist()))
    for a, b in (("x", "y"), ("lx", "ly")):
        got = sorted(map(tuple, np.hstack([res[0][a], res[0][b]]).tolist()))
        check(got == want, "pairs of the merged discretization", got=got, want=want)
    t.nontrivial(c["n"] + c["m"] > 2)


# ------------------------------------------------------------ agreement where random numbers are involved
RANDOM = ["volume", "radii", "radii_volume", "local_volume", "random", "lhs", "lp_ball", "rejection", "updated", "uniform", "normal", "uniform_normal",
          "compare", "rect_volume", "ball_volume", "pipeline", "rbf"]


@st.composite
def random_cases(draw):
    dim = draw(st.integers(1, 3))
    return dict(world=draw(worlds()), what=draw(st.sampled_from(RANDOM)), dim=dim, n=draw(sizes(1, 9)), seed=draw(SEED), k=draw(sizes(1, 12)),
                domain=draw(domains(dim, iso=True)))


def random_agree(c, t):
    import bet.sample as samp, bet.sampling.basicSampling as bs, bet.sensitivity.gradients as grad, bet.calculateP.calculateR as cr
    import bet.calculateP.simpleFunP as sfun, bet.postProcess.compareP as cp, bet.calculateP.calculateP as calcP
    rs = np.random.RandomState(c["seed"])
    dim, dom, n = c["dim"], np.array(c["domain"]), c["n"]
    x = in_domain(rs.random_sample((n, dim)), dom)
    A = rs.randn(2, dim)
    obs = rs.randn(8, 1) * 0.3

    def prog(r):
        w = c["what"]
        out = {}
        if w in ("volume", "radii", "radii_volume", "local_volume"):
            s = gen.plain_set(x, dim, 2.0, dom)
            if w == "volume":
                s.estimate_volume(n_mc_points=997)
            elif w == "radii":
                s.estimate_radii(n_mc_points=997, normalize=bool(c["seed"] % 2))
            elif w == "radii_volume":
                s.estimate_radii_and_volume(n_mc_points=997, normalize=bool(c["seed"] % 2))
            else:
                s.estimate_local_volume(num_emulate_local=50, max_num_emulate=1000)
            for a in ("_volumes", "_radii", "_normalized_radii"):
                out[a] = getattr(s, a)
            if out["_volumes"] is not None:
                close(np.sum(out["_volumes"]), 1.0, "volumes sum to one")
                close(whole(s.get_volumes_local()), out["_volumes"], "local volumes")
        elif w in ("random", "lhs"):
            s = bs.random_sample_set("uniform", dom, c["k"]) if w == "random" else bs.lhs_sample_set(dom, c["k"], None)
            out["values"] = s.get_values()
            check(out["values"].shape == (c["k"], dim), "number of samples", got=out["values"].shape)
            same(whole(s.get_values_local()), out["values"], "local samples")
            check(len(np.unique(out["values"][:, 0])) == c["k"], "all samples are different")
        elif w in ("lp_ball", "rbf"):
            s = grad.sample_lp_ball(gen.plain_set(x, dim, 2.0, dom), c["k"], 0.05 * np.min(dom[:, 1] - dom[:, 0]), 2)
            out["values"] = s.get_values()
            check(out["values"].shape == (n * (c["k"] + 1), dim), "centres and clusters")
            if w == "rbf" and c["k"] > dim + 2:
                d = bs.sampler(lambda z: z @ A.T).compute_qoi_and_create_discretization(s)
                try:
                    g = grad.calculate_gradients_rbf(d, n)
                except np.linalg.LinAlgError:       # a domain so small that the kernel is flat on it
                    return dict(singular=np.ones(1))
                out["J"] = g.get_input_sample_set().get_jacobians()
        elif w in ("rejection", "updated"):
            m = 12 + n
            z = np.random.RandomState(c["seed"]).randn(m, dim)
            d = samp.discretization(gen.plain_set(z, dim), gen.plain_set(z[:, :1], 1))
            d.set_output_observed_set(gen.plain_set(obs, 1))
            if w == "rejection":
                s = cr.invert_rejection_sampling(d)
                out["p"] = s.get_probabilities()
                out["domain"] = s.get_domain()
            else:
                (cr.invert_to_kde if c["seed"] % 2 else cr.invert_to_gmm)(d)
                s = bs.sample_from_updated(d, c["k"])
                check(len(s.get_values()) == c["k"], "number of samples", got=len(s.get_values()), want=c["k"])
            out["values"] = s.get_values()
            same(whole(s.get_values_local()), out["values"], "local samples")
        elif w in ("uniform", "normal", "uniform_normal"):
            q = gen.plain_set(x, dim)
            q.set_reference_value(x[0].copy())
            f = dict(uniform=lambda: sfun.uniform_partition_uniform_distribution_rectangle_size(q, rect_size=0.5 * float(np.max(dom[:, 1] - dom[:, 0])), M=c["k"], num_d_emulate=301),
                     normal=lambda: sfun.normal_partition_normal_distribution(q, std=0.5 * float(np.max(dom[:, 1] - dom[:, 0])), M=c["k"], num_d_emulate=301),
                     uniform_normal=lambda: sfun.uniform_partition_normal_distribution(q, std=0.5 * float(np.max(dom[:, 1] - dom[:, 0])), M=c["k"], num_d_emulate=301))[w]
            m = f()
            out["values"], out["p"] = m.get_values(), m.get_probabilities()
            close(out["p"].sum(), 1.0, "probabilities sum to one")
        elif w in ("rect_volume", "ball_volume"):
            if w == "rect_volume":
                s = samp.rectangle_sample_set(dim)
                s.setup(maxes=[dom[:, 0] + 0.5 * (dom[:, 1] - dom[:, 0])], mins=[dom[:, 0]])
            else:
                s = samp.ball_sample_set(dim)
                s.setup(centers=[dom.mean(axis=1)], radii=[0.25 * np.min(dom[:, 1] - dom[:, 0])])
            s.set_domain(dom.copy())
            s.estimate_volume(n_mc_points=2000)
            out["v"] = s.get_volumes()
            close(out["v"].sum(), 1.0, "volumes sum to one")
        elif w == "compare":
            a, b = gen.plain_set(x, dim, 2.0, dom), gen.plain_set(x[::-1] * 0.9 + 0.1 * dom.mean(axis=1), dim, 2.0, dom)
            for s in (a, b):
                s.set_prob_type("voronoi")
                s.set_probabilities(normalized(np.arange(1, n + 1)))
                s.estimate_volume_mc()
            cmp_ = cp.compare(a, b)
            cmp_.set_compare_set(c["k"] * 10)
            out["tv"] = cmp_.distance("tv")
            out["h"] = cmp_.distance("hell")
        else:
            sm = bs.sampler(lambda z: z @ A.T)
            s = sm.random_sample_set("uniform", dom, c["k"] + 3)
            d = sm.compute_qoi_and_create_discretization()
            q = d.get_output_sample_set().get_values()
            close(q, d.get_input_sample_set().get_values() @ A.T, "outputs of their inputs")
            sfun.regular_partition_uniform_distribution_rectangle_scaled(d, Q_ref=q.mean(axis=0), rect_scale=0.5, cells_per_dimension=2)
            em = bs.random_sample_set("uniform", dom, 40)
            d.set_emulated_input_sample_set(em)
            calcP.prob_on_emulated_samples(d)
            calcP.prob_with_emulated_volumes(d)
            own, clear = o.nearest(em.get_values(), d.get_input_sample_set().get_values())
            _, ptr = d.get_output_probability_set().query(q)
            vol = o.fractions(own, len(q))
            if clear:
                close(d.get_input_sample_set().get_volumes(), vol, "volumes from the emulated samples")
                close(d.get_input_sample_set().get_probabilities(),
                      o.split_mass(np.ravel(ptr), vol, d.get_output_probability_set().get_probabilities()), "solution")
                close(em.get_probabilities(), o.split_mass(np.ravel(ptr)[own], np.ones(len(own)), d.get_output_probability_set().get_probabilities()),
                      "emulated solution")
            out["p"], out["pe"] = d.get_input_sample_set().get_probabilities(), em.get_probabilities()
        return out
    res, calls = run(c["world"], prog)
    agree(res, c["what"])
    t.nontrivial(n > 1)
    t.label(c["what"])


def subs():
    out = []
    big = dict(solve=(300, 12000), sets=(300, 12000), volumes=(200, 4000), measures=(200, 8000), densities=(120, 3000), sampling=(200, 8000),
               sensitivity=(200, 8000), errors=(200, 6000), post=(200, 6000))
    for name in sorted(GROUPS):
        strategy, fn = group(GROUPS[name])
        out.append(Sub("ranks_" + name, st.deferred(strategy), fn, quick=big[name][0], thorough=big[name][1], needs="fakempi",
                       rule="non-trivial: the case is non-trivial for the check run on the ranks (%s)" % ", ".join(GROUPS[name])))
    return out


PROP = Prop("C26", "parallel runs", subs() + [
    Sub("gather", gathers(), gather, quick=300, thorough=10000, needs="fakempi", rule="non-trivial: at least two ranks contribute entries"),
    Sub("local_arrays", locals_(), local_arrays, quick=400, thorough=15000, needs="fakempi", rule="non-trivial: at least two ranks hold samples"),
    Sub("files", file_cases(), files, quick=300, thorough=8000, needs="fakempi", rule="non-trivial: several samples and several ranks"),
    Sub("merge", merges(), merge, quick=150, thorough=4000, needs="fakempi", rule="non-trivial: more than two samples"),
    Sub("agree", random_cases(), random_agree, quick=300, thorough=6000, needs="fakempi", rule="non-trivial: several samples"),
], assumptions=[
    "ranks are threads of one process behind a stand-in for mpi4py (vp/fakempi.py): they switch only in communication calls, in the order "
    "of the generated schedule; collective calls must match and buffer lengths agree",
    "2 to 5 ranks", "merging keeps the samples of each process together, so merged samples are compared as a set of pairs"])
