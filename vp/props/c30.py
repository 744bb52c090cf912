"""C30: plots show the data they are given.

Saving a figure is replaced by reading what has been drawn on it (coordinates, colours, heights, labels) at that moment; nothing is written."""
import contextlib, copy, itertools, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen


class Shot(object):
    """What a figure shows when it is saved."""

    def __init__(self, fig, name):
        import matplotlib.collections as mc
        from matplotlib.contour import ContourSet
        from mpl_toolkits.mplot3d import Axes3D
        from mpl_toolkits.mplot3d.art3d import Path3DCollection, Poly3DCollection
        import matplotlib.patches as mp
        self.name = str(name)
        axes = [a for a in fig.axes if a.get_label() != "<colorbar>"]
        self.n_axes = len(axes)
        ax = axes[0]
        self.ax = ax
        self.xlabel, self.ylabel = ax.get_xlabel(), ax.get_ylabel()
        self.zlabel = ax.get_zlabel() if isinstance(ax, Axes3D) else None
        self.limits = [tuple(ax.get_xlim()), tuple(ax.get_ylim())]
        self.scatters, self.segments, self.contours, self.surfaces = [], [], [], []
        self.faces = [np.array(c.get_facecolor())[0] for c in ax.collections if type(c) is mc.PathCollection and len(c.get_facecolor())]
        for c in ax.collections:
            if isinstance(c, Path3DCollection):
                self.scatters.append((np.array([np.asarray(o, float) for o in c._offsets3d]).T, None if c.get_array() is None else np.array(c.get_array(), float)))
            elif isinstance(c, Poly3DCollection):
                self.surfaces.append(c)
            elif isinstance(c, ContourSet):
                self.contours.append((np.array(c.levels), [np.array(p.vertices) for p in c.get_paths()]))
            elif isinstance(c, mc.LineCollection):
                self.segments.extend(np.array(s) for s in c.get_segments())
            elif isinstance(c, mc.PathCollection):
                self.scatters.append((np.array(c.get_offsets(), float), None if c.get_array() is None else np.array(c.get_array(), float)))
        self.lines = [(np.array(l.get_xdata(), float).reshape(-1), np.array(l.get_ydata(), float).reshape(-1), l.get_label()) for l in ax.lines]
        self.images = [(np.array(i.get_array(), float), list(i.get_extent()), i.origin, i.get_clim()) for i in ax.images]
        self.polygons = [(np.array(p.get_xy()), p.get_facecolor()) for p in ax.patches if isinstance(p, mp.Polygon)]


@contextlib.contextmanager
def camera():
    """Records a Shot per saved figure."""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    import matplotlib.figure as mf
    plt.close("all")
    shots, keep = [], mf.Figure.savefig
    home, tmp = os.getcwd(), tempfile.mkdtemp(prefix="c30_", dir=".")

    def savefig(self, fname, *a, **k):
        shots.append(Shot(self, fname))
    mf.Figure.savefig = savefig
    os.chdir(tmp)
    try:
        yield shots
    finally:
        mf.Figure.savefig = keep
        os.chdir(home)
        shutil.rmtree(os.path.join(home, tmp), ignore_errors=True)
        plt.close("all")


def snapshot(obj):
    return copy.deepcopy(obj)


def state(s):
    return {k: np.array(v) for k, v in s.__dict__.items() if isinstance(v, np.ndarray)}


def unchanged(s, before, what):
    now = state(s)
    for k, v in before.items():
        check(k in now and now[k].shape == v.shape and np.array_equal(now[k], v, equal_nan=v.dtype.kind == "f"), what + " is left unchanged", array=k)


# ------------------------------------------------------------ scatter plots
@st.composite
def scatters(draw):
    n = draw(sizes(1, 9))
    which = draw(st.sampled_from(["set2", "set3", "in2", "out2", "in3", "out3"]))
    return dict(which=which, n=n, seed=draw(SEED), color=draw(st.sampled_from(["none", "array", "array", "volumes", "probabilities", "radii", "normalized radii", "error_id"])),
                nos=draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=6))),
                nostype=draw(st.sampled_from(["list", "array"])),
                ref=draw(st.sampled_from(["none", "given", "own", "both"])), save=draw(st.integers(0, 9)) < 9, labels=draw(st.booleans()), name=draw(st.sampled_from([None, "myplot", "a.svg"])), ext=draw(st.sampled_from([None, ".eps"])))


def random_set(rs, n, dim, ref=False):
    s = gen.plain_set(rs.random_sample((n, dim)).tolist(), dim, domain=[[0.0, 1.0]] * dim)
    s.set_volumes(rs.random_sample(n))
    s.set_probabilities(rs.random_sample(n))
    s.set_error_id(rs.random_sample(n))
    s._radii, s._normalized_radii = rs.random_sample(n), rs.random_sample(n)
    if ref:
        s.set_reference_value(rs.random_sample(dim))
    return s


NAMED = {"volumes": "_volumes", "probabilities": "_probabilities", "radii": "_radii", "normalized radii": "_normalized_radii", "error_id": "_error_id"}


def seen_scatter(shot, xyz, color, ref, what):
    """The first cloud holds exactly the samples (in order) with their colours, the second the reference."""
    check(len(shot.scatters) == (1 if ref is None else 2), what + ": one cloud of samples and the reference", got=len(shot.scatters))
    off, arr = shot.scatters[0]
    same(off, xyz, what + ": coordinates of the samples")
    if color is not None:
        check(arr is not None, what + ": coloured by value")
        same(arr, color, what + ": colours of the samples")
    if ref is not None:
        same(shot.scatters[1][0], np.asarray(ref)[None, :], what + ": reference sample")


def scatter(c, t):
    import bet.sample as samp
    import bet.postProcess.plotDomains as pd
    rs = np.random.RandomState(c["seed"])
    dim = int(c["which"][-1])
    own = c["ref"] in ("own", "both")
    s = random_set(rs, c["n"], dim, own)
    other = random_set(rs, c["n"], 5 - dim, own)
    given = rs.random_sample(dim) if c["ref"] in ("given", "both") else None
    color = None
    carr = None
    if c["color"] == "array":
        carr = rs.random_sample(c["n"])
        color = carr.copy()
    elif c["color"] != "none":
        if c["which"].startswith("set"):
            return
        carr = np.array(getattr(s, NAMED[c["color"]]))
        color = "".join(list(c["color"]))       # a string of its own
    nos = c["nos"]
    idx = np.arange(c["n"]) if nos is None else np.array(nos)
    kw = dict(sample_nos=np.array(nos) if nos is not None and c["nostype"] == "array" else nos, color=color, ref_sample=given)
    if c["labels"]:
        kw.update(xlabel="X1", ylabel="X2")
        if dim == 3:
            kw.update(zlabel="X3")
    before = state(s)
    if c["name"]:
        kw["filename"] = c["name"]
    if c["ext"]:
        kw["file_extension"] = c["ext"]
    if not c["save"]:
        kw["save"] = False
    with camera() as shots:
        if c["which"].startswith("set"):
            (pd.scatter_2D if dim == 2 else pd.scatter_3D)(s, **kw)
        else:
            side = c["which"][:-1]
            d = samp.discretization(s, other) if side == "in" else samp.discretization(other, s)
            getattr(pd, "scatter_%dD_%sput" % (dim, side))(d, **kw)
        if dim == 2:
            raises(pd.dim_not_matching, lambda: pd.scatter_3D(s), "three-dimensional plot of two-dimensional samples")
            raises(pd.dim_not_matching, lambda: pd.scatter_2D(other), "two-dimensional plot of three-dimensional samples")
        raises(pd.bad_object, lambda: pd.scatter_2D([1.0]), "not a sample set")
    unchanged(s, before, "the plotted set")
    check(len(shots) == (1 if c["save"] else 0), "one figure saved if asked for", got=len(shots))
    if not c["save"]:
        t.label("not saved")
        return
    ref = given if given is not None else (s.get_reference_value() if own else None)
    seen_scatter(shots[0], np.array(before["_values"])[idx], None if carr is None else carr[idx], ref, "scatter plot")
    default = "scatter%dd%s" % (dim, "" if c["which"].startswith("set") else "_%sput" % c["which"][:-1])
    name = c["name"] or default
    check(shots[0].name == (name if "." in name else name + (c["ext"] or ".png")), "file name", got=shots[0].name)
    if c["labels"]:
        check((shots[0].xlabel, shots[0].ylabel) == ("X1", "X2"), "axis labels", got=(shots[0].xlabel, shots[0].ylabel))
        check(dim == 2 or shots[0].zlabel == "X3", "third axis label", got=shots[0].zlabel)
    t.nontrivial(c["n"] > 1 and c["color"] != "none")
    t.label(c["which"], c["color"])


# ------------------------------------------------------------ families of projections
@st.composite
def projections(draw, fns):
    fn = draw(st.sampled_from(fns))
    dim = draw(st.sampled_from([4, 5, 4, 3, 2]) if fn == "rhoD" else st.integers(2, 5))
    return dict(dim=dim, odim=draw(st.integers(2, 4)), n=draw(sizes(2, 8)), seed=draw(SEED), fn=fn,
                showdim=draw(st.sampled_from([3, 3, 2, None])), pick=draw(st.sampled_from(["default", "all", 0, 1, 2])), obj=draw(st.sampled_from(["disc", "set"])),
                flag=draw(st.sampled_from(["input", "input", "output"])), rho=draw(st.booleans()), ref=draw(st.sampled_from(["none", "given", "own"])),
                color=draw(st.sampled_from(["none", "array", "array"] + sorted(NAMED))), nums=draw(st.one_of(st.none(), st.permutations(list(range(1, dim + 1)))))
                )


def rho(q):
    return np.exp(-np.sum((np.asarray(q) - 0.3) ** 2, axis=1))


def project(c, t):
    import bet.sample as samp
    import bet.postProcess.plotDomains as pd
    rs = np.random.RandomState(c["seed"])
    inp, out = random_set(rs, c["n"], c["dim"], c["ref"] == "own"), random_set(rs, c["n"], c["odim"], c["ref"] == "own")
    d = samp.discretization(inp, out)
    if c["fn"] == "rhoD":
        s = inp if c["flag"] == "input" else out
        obj = d if c["obj"] == "disc" else s
        dim = s.get_dim()
        given = rs.random_sample(dim) if c["ref"] == "given" else None
        ref = given if given is not None else (s.get_reference_value() if c["ref"] == "own" else None)
        colors = rho(out.get_values()) if c["rho"] and (c["obj"] == "disc" or c["flag"] == "output") else None
        kw = {}
        nums = list(range(1, dim + 1))
        if c["nums"] is not None and dim == c["dim"]:
            nums = list(c["nums"])
            if dim > (c["showdim"] or 0) and not (dim <= 3 and c["showdim"] != 2):
                nums = nums[:max(2, len(nums) - 1)] if c["showdim"] == 2 else nums[:max(3, len(nums) - 1)]
            if dim > 3 or (dim == 3 and c["showdim"] == 2):
                kw["dim_nums"] = nums
            else:
                nums = list(range(1, dim + 1))
        before = state(s)
        with camera() as shots:
            pd.scatter_rhoD(obj, ref_sample=given, io_flag=c["flag"], rho_D=rho if c["rho"] else None, showdim=c["showdim"], **kw)
        if dim == 2:
            groups = [(1, 2)]
        elif c["showdim"] == 2:
            groups = list(itertools.combinations(nums, 2))
        elif dim == 3:
            groups = [(1, 2, 3)]
        elif c["showdim"] == 3:
            groups = list(itertools.combinations(nums, 3))
        else:
            groups = []
        check(len(shots) == len(groups), "one figure per combination of coordinates", got=len(shots), want=len(groups))
        sym = "\\lambda" if c["flag"] == "input" else "q"
        for shot, g in zip(shots, groups):
            cols = [k - 1 for k in g]
            seen_scatter(shot, s.get_values()[:, cols], colors, None if ref is None else np.asarray(ref)[cols], "projection to %s" % (g,))
            labs = [shot.xlabel, shot.ylabel] + ([shot.zlabel] if len(g) == 3 else [])
            check(labs == ["$%s_{%d}$" % (sym, k) for k in g], "axis labels name the coordinates", got=labs, want=g)
        unchanged(s, before, "the plotted set")
        t.nontrivial(len(groups) > 0 and (colors is not None or len(groups) > 1))
    else:
        s = out if c["fn"] == "multi_output" else inp
        dim = s.get_dim()
        given = rs.random_sample(dim) if c["ref"] == "given" else None
        carr, color = None, None
        if c["color"] == "array":
            carr = rs.random_sample(c["n"])
            color = carr.copy()
        elif c["color"] != "none" and c["fn"] != "multi":
            carr, color = np.array(getattr(s, NAMED[c["color"]])), "".join(list(c["color"]))
        pick = None if c["pick"] == "default" else c["pick"] if c["pick"] == "all" else min(c["pick"], dim - 1)
        before = state(s)
        with camera() as shots:
            f = getattr(pd, "scatter_2D_" + c["fn"])
            f(s if c["fn"] == "multi" else d, color=color, ref_sample=given, showdim=pick)
        pairs = list(itertools.combinations(range(dim), 2)) if pick == "all" else [(pick or 0, i) for i in range(dim)]
        by_name = {}
        for sh in shots:
            by_name.setdefault(os.path.basename(sh.name), []).append(sh)
        for x, y in pairs:
            hit = [sh for k, v in by_name.items() for sh in v if os.path.splitext(k)[0].endswith("_d%d_d%d" % (x + 1, y + 1))]
            if x == y and not hit:
                continue       # a coordinate against itself tells nothing
            check(len(hit) == 1, "one figure for coordinates %d and %d" % (x + 1, y + 1), got=sorted(by_name))
            sym = "q" if c["fn"] == "multi_output" else "\\lambda"
            check((hit[0].xlabel, hit[0].ylabel) == ("$%s_{%d}$" % (sym, x + 1), "$%s_{%d}$" % (sym, y + 1)), "axis labels name the coordinates",
                  got=(hit[0].xlabel, hit[0].ylabel))
            seen_scatter(hit[0], s.get_values()[:, [x, y]], carr, None if given is None else given[[x, y]], "projection to %d, %d" % (x, y))
        unchanged(s, before, "the plotted set")
        t.nontrivial(len(pairs) > 1 and carr is not None)
    t.label(c["fn"])


# ------------------------------------------------------------ data domains
@st.composite
def data_domains(draw):
    return dict(n=draw(sizes(4, 10)), odim=draw(st.integers(2, 4)), dim=draw(st.integers(2, 3)), seed=draw(SEED), refs=draw(st.integers(0, 4)),
                pick=draw(st.sampled_from([None, "all", 0, 1, 2])), own=draw(st.booleans()), nums=draw(st.booleans()), ext=draw(st.sampled_from([None, ".eps"])),
                colors=draw(st.one_of(st.none(), st.permutations(["red", "green", "blue", "black"]))), save=draw(st.booleans()))


def data_domain(c, t):
    import bet.sample as samp
    import bet.postProcess.plotDomains as pd
    import matplotlib.tri as tri
    rs = np.random.RandomState(c["seed"])
    x, q = rs.random_sample((c["n"], c["dim"])), rs.random_sample((c["n"], c["odim"]))
    inp, out = gen.plain_set(x.tolist(), c["dim"]), gen.plain_set(q.tolist(), c["odim"])
    refs = rs.random_sample((c["refs"], c["odim"])) if c["refs"] else None
    own = None
    if c["own"]:
        own = rs.random_sample(c["odim"])
        out.set_reference_value(own.copy())
    d = samp.discretization(inp, out)
    T = tri.Triangulation(x[:, 0], x[:, 1]).triangles
    edges = {}
    for tr in T:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            e = tuple(sorted((tr[a], tr[b])))
            edges[e] = edges.get(e, 0) + 1
    rim = sorted({i for e, k in edges.items() if k == 1 for i in e})
    nums = list(range(c["odim"]))
    kw = {}
    if c["nums"] and c["odim"] > 2:
        nums = nums[1:]
        kw["Q_nums"] = list(nums)
    style = {}
    if c["ext"]:
        style["file_extension"] = c["ext"]
    if c["colors"]:
        style["ref_colors"] = list(c["colors"])
    kw.update(style)
    first = min(c["pick"], c["odim"] - 1) if isinstance(c["pick"], int) else 0
    pairs = list(itertools.combinations(nums, 2)) if c["pick"] == "all" else [(first, i) for i in nums if i != first]
    if refs is not None and c["refs"] == c["odim"]:
        return          # a square array of references is read by rows; skip nothing else
    with camera() as shots:
        pd.show_data_domain_multi(d, Q_ref=None if refs is None else refs.copy(), showdim=first if isinstance(c["pick"], int) else c["pick"], **kw)
        if c["odim"] == 2 and (refs is None or c["refs"] != 2):
            k = len(shots)
            pd.show_data_domain_2D(d, Q_ref=None if refs is None else refs.copy(), **(style if c["save"] else dict(style, save=False)))
            alone = shots[k:]
            del shots[k:]
            if not c["save"]:
                check(not any("domain_Q" in a.name for a in alone), "nothing is saved unless asked for", got=[a.name for a in alone])
            check(not c["save"] or len(alone) == 2, "an unmarked and a marked figure", got=len(alone))
            if c["save"]:
                domain_seen(alone[1], q, rim, refs if refs is not None else (own[None, :] if own is not None else None), 0, 1, c["colors"])
    want = refs if refs is not None else (own[None, :] if own is not None else None)
    for a, b in pairs:
        plain = [s for s in shots if os.path.basename(s.name).startswith("domain_q%d_q%d" % (a + 1, b + 1))]
        marked = [s for s in shots if os.path.basename(s.name).startswith("q%d_q%d_" % (a + 1, b + 1))]
        check(len(plain) == 1 and len(marked) == 1, "figures for quantities %d and %d" % (a + 1, b + 1), got=[s.name for s in shots])
        domain_seen(plain[0], q, rim, None, a, b)
        domain_seen(marked[0], q, rim, want, a, b, c["colors"])
        for sh in (plain[0], marked[0]):
            check(sh.name.endswith(c["ext"] or ".png"), "file extension", got=sh.name)
        check((marked[0].xlabel, marked[0].ylabel) == ("$q_{%d}$" % (a + 1), "$q_{%d}$" % (b + 1)), "axis labels", got=(marked[0].xlabel, marked[0].ylabel))
    check(len(shots) == 2 * len(pairs), "no other figures", got=len(shots), want=2 * len(pairs))
    same(out.get_values(), q, "the outputs are left unchanged")
    t.nontrivial(len(pairs) > 1 and want is not None)


def domain_seen(shot, q, rim, refs, a, b, colors=None):
    pts = np.vstack([v for _, ps in shot.contours for v in ps if len(v)] or [np.zeros((0, 2))])
    allowed = q[:, [a, b]]
    for v in pts:
        check(bool(np.any(np.all(np.abs(allowed - v) < 1e-9, axis=1))), "the domain is outlined by data samples", got=v)
    for i in rim:
        check(bool(np.any(np.all(np.abs(pts - q[i, [a, b]]) < 1e-9, axis=1))), "the outline goes through the samples at the rim", missing=q[i, [a, b]])
    got = np.vstack([o for o, _ in shot.scatters]) if shot.scatters else np.zeros((0, 2))
    same(got, np.zeros((0, 2)) if refs is None else refs[:, [a, b]], "reference data")
    if refs is not None and colors is not None:
        import matplotlib.colors as mcol
        same(np.array(shot.faces)[:, :3], [mcol.to_rgb(k) for k in colors[:len(refs)]], "colours of the references")


# ------------------------------------------------------------ marginals from histograms
@st.composite
def marginals(draw):
    dim = draw(st.integers(2, 3))
    return dict(dim=dim, nb=[draw(st.integers(2, 5)) for _ in range(dim)], domain=draw(domains(dim)), seed=draw(SEED), ref=draw(st.sampled_from(["none", "given", "own"])),
                labels=draw(st.booleans()), fn=draw(st.sampled_from(["1D", "2D", "surface", "contours"])), disc=draw(st.booleans()), subset=draw(st.booleans()), twice=draw(st.booleans()),
                refs=draw(st.integers(0, 3)), zoom=draw(st.booleans()), num=draw(st.sampled_from([2, 4, 8, 13])))


def bilinear(F, xc, yc, x, y):
    i = int(np.clip(np.searchsorted(xc, x) - 1, 0, len(xc) - 2))
    j = int(np.clip(np.searchsorted(yc, y) - 1, 0, len(yc) - 2))
    u, v = (x - xc[i]) / (xc[i + 1] - xc[i]), (y - yc[j]) / (yc[j + 1] - yc[j])
    return F[i, j] * (1 - u) * (1 - v) + F[i + 1, j] * u * (1 - v) + F[i, j + 1] * (1 - u) * v + F[i + 1, j + 1] * u * v, u, v


def marginal(c, t):
    import bet.sample as samp
    import bet.postProcess.plotP as pp
    rs = np.random.RandomState(c["seed"])
    dom = np.array(c["domain"])
    s = gen.plain_set(in_domain(rs.random_sample((4, c["dim"])), dom).tolist(), c["dim"], domain=c["domain"])
    own = in_domain(rs.random_sample((1, c["dim"])), dom)[0]
    given = in_domain(rs.random_sample((1, c["dim"])), dom)[0] if c["ref"] == "given" else None
    if c["ref"] == "own":
        s.set_reference_value(own.copy())
    ref = given if given is not None else (own if c["ref"] == "own" else None)
    bins = [np.linspace(dom[i, 0], dom[i, 1], c["nb"][i] + 1) for i in range(c["dim"])]
    obj = samp.discretization(s, gen.plain_set(np.zeros((4, 1)).tolist(), 1)) if c["disc"] else s
    labels = ["lam%d" % i for i in range(c["dim"])] if c["labels"] else None
    kw = dict(lam_ref=given, lambda_label=labels, filename="marg")
    refs = in_domain(rs.random_sample((c["refs"], c["dim"])), dom) if c["refs"] else None
    zoom = np.sort(in_domain(rs.random_sample((2, c["dim"])), dom), axis=0).T.copy() if c["zoom"] else None
    if zoom is not None and np.any(zoom[:, 1] - zoom[:, 0] <= 1e-3 * (dom[:, 1] - dom[:, 0])):
        zoom = None
    if c["fn"] == "1D":
        keys = list(range(c["dim"]))
    else:
        keys = list(itertools.combinations(range(c["dim"]), 2))
    if c["subset"] and len(keys) > 1:
        keys = keys[1:]
    M = {}
    for k in keys:
        a = rs.random_sample(c["nb"][k]) if c["fn"] == "1D" else rs.random_sample((c["nb"][k[0]], c["nb"][k[1]]))
        M[k] = a / a.sum()
    keep = copy.deepcopy(M)
    before = state(s)
    surf = []
    with camera() as shots:
        from mpl_toolkits.mplot3d import Axes3D
        orig = Axes3D.plot_surface

        def plot_surface(self, X, Y, Z, *a, **k):
            surf.append((np.array(X), np.array(Y), np.array(Z)))
            return orig(self, X, Y, Z, *a, **k)
        Axes3D.plot_surface = plot_surface
        try:
            for _ in range(2 if c["twice"] else 1):
                del shots[:], surf[:]
                if c["fn"] == "1D":
                    pp.plot_1D_marginal_probs(M, bins, obj, **kw)
                elif c["fn"] == "contours":
                    pp.plot_2D_marginal_contours(M, bins, obj, contour_num=c["num"], lam_refs=refs, plot_domain=zoom, **kw)
                else:
                    pp.plot_2D_marginal_probs(M, bins, obj, plot_surface=c["fn"] == "surface", **kw)
        finally:
            Axes3D.plot_surface = orig
        raises(pp.bad_object, lambda: pp.plot_1D_marginal_probs(M, bins, [1.0]), "not a sample set")
    per = 2 if c["fn"] == "surface" else 1
    check(len(shots) == per * len(keys), "one figure per marginal", got=len(shots), want=per * len(keys))
    for n_, k in enumerate(keys):
        shot = shots[n_]
        ks = (k,) if c["fn"] == "1D" else k
        check(os.path.splitext(shot.name)[0].endswith("_".join(str(i) for i in ks)), "file name ends with the dimensions", got=shot.name, want=ks)
        lab = labels if labels else [r"$\lambda_{%d}$" % (i + 1) for i in range(c["dim"])]
        check(shot.xlabel == lab[ks[0]], "label of the horizontal axis", got=shot.xlabel, want=lab[ks[0]])
        if len(ks) == 2:
            check(shot.ylabel == lab[ks[1]], "label of the vertical axis", got=shot.ylabel, want=lab[ks[1]])
        w = [bins[i][1] - bins[i][0] for i in ks]
        if c["fn"] == "1D":
            x, y, _ = shot.lines[0]
            close(y, keep[k] / w[0], "density of the marginal", rtol=1e-12)
            check(len(x) == len(y), "a point per bin")
            tol = 1e-9 * w[0]
            check(bool(np.all(x >= bins[k][:-1] - tol) and np.all(x <= bins[k][1:] + tol)), "each value is drawn within its bin", got=x, bins=bins[k])
            pts = shot.lines[1:]
            check(len(pts) == (0 if ref is None else 1), "reference marker", got=len(pts))
            if ref is not None:
                close(pts[0][0], [ref[k]], "position of the reference", rtol=1e-12)
        elif c["fn"] in ("2D", "surface"):
            check(len(shot.images) == 1, "one image")
            im, ext, origin, clim = shot.images[0]
            close(im, keep[k].T / (w[0] * w[1]), "density of the marginal, rows along the second dimension", rtol=1e-12)
            check(origin == "lower", "first row at the bottom", got=origin)
            close(shot.limits[0] + shot.limits[1], [dom[k[0], 0], dom[k[0], 1], dom[k[1], 0], dom[k[1], 1]], "the domain is shown", rtol=1e-9)
            close(ext, [dom[k[0], 0], dom[k[0], 1], dom[k[1], 0], dom[k[1], 1]], "extent of the image", rtol=1e-12)
            marker(shot, ref, k)
        else:
            check(len(shot.contours) == 1, "one contour plot")
            levels, paths = shot.contours[0]
            F = keep[k] / (w[0] * w[1])
            xc, yc = [0.5 * (bins[i][1:] + bins[i][:-1]) for i in k]
            seen = 0
            for lev, P in zip(levels, paths):
                for v in P:
                    f, u, vv = bilinear(F, xc, yc, v[0], v[1])
                    on_edge = min(abs(u), abs(1 - u), abs(vv), abs(1 - vv)) < 1e-6
                    inside = -1e-6 <= u <= 1 + 1e-6 and -1e-6 <= vv <= 1 + 1e-6
                    check(inside, "contours stay between the bin centres", got=v)
                    if on_edge:
                        close(f, lev, "density along the contour", rtol=1e-6, atol=1e-9)
                        seen += 1
            check(seen > 0, "contours are drawn")
            import matplotlib.pyplot as plt
            bare = plt.figure()
            same(levels, bare.add_subplot(111).contour(F.T, c["num"]).levels, "levels of the contours, for the number asked for")
            plt.close(bare)
            lines = list(shot.lines)
            if refs is not None:
                check(len(lines) > 0, "several references are marked")
                close(np.array(lines[0][:2]), refs[:, list(k)].T, "positions of the references", rtol=1e-12)
                shot.lines = lines[1:]
            marker(shot, ref, k)
            box = dom if zoom is None else zoom
            close(shot.limits[0] + shot.limits[1], [box[k[0], 0], box[k[0], 1], box[k[1], 0], box[k[1], 1]], "the part shown", rtol=1e-9)
        if c["fn"] == "surface":
            X, Y, Z = surf[n_]
            same(Z, keep[k], "heights of the surface")
            xc, yc = [0.5 * (bins[i][1:] + bins[i][:-1]) for i in k]
            close(X, np.repeat(xc[:, None], len(yc), 1), "first coordinates of the surface", rtol=1e-9, atol=1e-9)
            close(Y, np.repeat(yc[None, :], len(xc), 0), "second coordinates of the surface", rtol=1e-9, atol=1e-9)
    for k in keys:
        same(M[k], keep[k], "the marginals are left unchanged")
    unchanged(s, before, "the plotted set")
    t.nontrivial(len(keys) > 1)
    t.label(c["fn"], "ref " + c["ref"])


def marker(shot, ref, k):
    check(len(shot.lines) == (0 if ref is None else 1), "reference marker", got=len(shot.lines))
    if ref is not None:
        close([shot.lines[0][0][0], shot.lines[0][1][0]], [ref[k[0]], ref[k[1]]], "position of the reference", rtol=1e-12)


# ------------------------------------------------------------ marginal densities of laws
@st.composite
def laws(draw):
    dim = draw(st.integers(1, 3))
    return dict(dim=dim, k=draw(st.integers(1, 3)), seed=draw(SEED), i=draw(st.integers(0, dim - 1)), interval=draw(st.booleans()), num=draw(st.sampled_from([7, 40])),
                initials=draw(st.booleans()), labels=draw(st.booleans()), single=draw(st.booleans()), disc=draw(st.booleans()), inputs=draw(st.booleans()),
                types=draw(st.lists(st.sampled_from(["both", "init", "updated"]), min_size=3, max_size=3)), at=draw(st.sampled_from([0.0, 0.0, 20.0, -20.0])), own=draw(st.booleans()))


def law(c, t):
    import bet.sample as samp
    import bet.postProcess.plotP as pp
    import scipy.stats as ss
    rs = np.random.RandomState(c["seed"])
    k = 1 if c["single"] else c["k"]
    sets, raw, want = [], [], []
    for j in range(k):
        s = gen.plain_set((c["at"] + rs.randn(5, c["dim"])).tolist(), c["dim"])
        if c["own"]:
            s.set_labels(["set %d par %d" % (j, i) for i in range(c["dim"])])
        locs, scales, locs2, scales2 = c["at"] + rs.randn(c["dim"]), 0.3 + rs.random_sample(c["dim"]), c["at"] + rs.randn(c["dim"]), 0.3 + rs.random_sample(c["dim"])
        if c["types"][j] in ("both", "init"):
            s.set_prob_type_init("rv")
            s.set_prob_parameters_init([["norm", dict(loc=locs[i], scale=scales[i])] for i in range(c["dim"])])
            if c["initials"]:
                want.append(("Set %d Initial" % j if not c["own"] else "set %d par %d Initial" % (j, c["i"]), locs[c["i"]], scales[c["i"]]))
        if c["types"][j] in ("both", "updated"):
            s.set_prob_type("rv")
            s.set_prob_parameters([["norm", dict(loc=locs2[i], scale=scales2[i])] for i in range(c["dim"])])
            want.append(("Set %d Updated" % j if not c["own"] else "set %d par %d" % (j, c["i"]), locs2[c["i"]], scales2[c["i"]]))
        raw.append(s)
        if c["disc"]:
            o = gen.plain_set(rs.randn(5, c["dim"]).tolist(), c["dim"])
            sets.append(samp.discretization(s, o) if c["inputs"] else samp.discretization(o, s))
        else:
            sets.append(s)
    kw = dict(interactive=False, savefile="dens", num_points=c["num"], initials=c["initials"], inputs=c["inputs"])
    if c["interval"]:
        kw["interval"] = [-1.5, 2.0]
    if c["labels"]:
        kw.update(sets_label=["u%d" % j for j in range(k)], sets_label_initial=["i%d" % j for j in range(k)], label="par")
        want = [(("i" if n.endswith("Initial") else "u") + n.split()[1], a, b) for n, a, b in want]
    with camera() as shots:
        import matplotlib
        rc = dict(matplotlib.rcParams)
        try:
            pp.plot_1d_marginal_densities(sets[0] if c["single"] else sets, c["i"], **kw)
        finally:
            for key in ("font.size", "axes.linewidth"):
                matplotlib.rcParams[key] = rc[key]
    shot = shots[0]
    check(len(shot.lines) == len(want), "one curve per law", got=[l[2] for l in shot.lines], want=[w[0] for w in want])
    for (x, y, name), (wn, a, b) in zip(sorted(shot.lines, key=lambda l: l[2]), sorted(want)):
        check(name == wn, "label of the curve", got=name, want=wn)
        close(y, ss.norm.pdf(x, a, b), "marginal density along the curve", rtol=1e-9)
        check(len(x) == c["num"], "number of points", got=len(x), want=c["num"])
        if c["interval"]:
            close([x[0], x[-1]], [-1.5, 2.0], "interval")
        else:
            v = np.concatenate([s.get_values()[:, c["i"]] for s in raw])
            check(x[0] <= v.min() and x[-1] >= v.max(), "the range covers the samples of all sets", got=(x[0], x[-1]), want=(v.min(), v.max()))
    if c["labels"]:
        check(shot.xlabel == "par", "axis label", got=shot.xlabel)
    else:
        check(shot.xlabel == ("set 0 par %d" if c["own"] else "Parameter %d") % c["i"], "axis label by default", got=shot.xlabel)
    t.nontrivial(len(want) > 1)


# ------------------------------------------------------------ Voronoi plots
@st.composite
def cells(draw):
    dim = draw(st.integers(1, 2))
    n = draw(sizes(1, 8) if dim == 1 else sizes(5, 12))
    return dict(dim=dim, n=n, domain=draw(domains(dim)), seed=draw(SEED), mass=draw(weights(n)), density=draw(st.booleans()), ref=draw(st.sampled_from(["none", "given", "own"])),
                disc=draw(st.booleans()), labels=draw(st.booleans()), local=draw(st.booleans()), twice=draw(st.booleans()),
                inner=draw(st.integers(0, 2)) == 0)


def voronoi(c, t):
    import bet.sample as samp
    import bet.postProcess.plotVoronoi as pv
    import matplotlib
    rs = np.random.RandomState(c["seed"])
    dom = np.array(c["domain"])
    w = dom[:, 1] - dom[:, 0]
    if w.max() > 1e6 * w.min():       # beyond the precision of the Voronoi code
        t.label("aspect")
        return
    u = rs.random_sample((c["n"], c["dim"]))
    if c["inner"]:                    # samples in a small part of the domain
        u = 0.25 + u * 0.25
    x = in_domain(u, dom)
    P = normalized(c["mass"])
    V = 0.1 + rs.random_sample(c["n"])
    s = gen.plain_set(x.tolist(), c["dim"], domain=c["domain"])
    s.set_volumes(V.copy())
    if c["local"]:
        s.global_to_local()
        s.set_probabilities_local(P.copy())
    else:
        s.set_probabilities(P.copy())
    own = in_domain(rs.random_sample((1, c["dim"])), dom)[0]
    given = in_domain(rs.random_sample((1, c["dim"])), dom)[0] if c["ref"] == "given" else None
    if c["ref"] == "own":
        s.set_reference_value(own.copy())
    ref = given if given is not None else (own if c["ref"] == "own" else None)
    obj = samp.discretization(s, gen.plain_set(np.zeros((c["n"], 1)).tolist(), 1)) if c["disc"] else s
    kw = dict(density=c["density"], lam_ref=given, filename="vor")
    if c["labels"]:
        kw["lambda_label"] = ["first", "second"][:c["dim"]]
    f = pv.plot_1D_voronoi if c["dim"] == 1 else pv.plot_2D_voronoi
    g = pv.plot_2D_voronoi if c["dim"] == 1 else pv.plot_1D_voronoi
    with camera() as shots:
        for _ in range(2 if c["twice"] else 1):
            del shots[:]
            f(obj, **kw)
        raises(pv.dim_not_matching, lambda: g(obj), "plot of the wrong dimension")
        raises(pv.bad_object, lambda: f([1.0]), "not a sample set")
        e = gen.plain_set(x.tolist(), c["dim"], domain=c["domain"])
        raises(pv.missing_attribute, lambda: f(e), "no probabilities")
    check(len(shots) == 1, "one figure", got=len(shots))
    shot = shots[0]
    if c["labels"]:
        check(shot.xlabel == "first", "axis label", got=shot.xlabel)
        if c["dim"] == 2:
            check(shot.ylabel == "second", "axis label", got=shot.ylabel)
    if c["dim"] == 1:
        o = np.argsort(x[:, 0])
        mid = 0.5 * (x[o[1:], 0] + x[o[:-1], 0])
        lo, hi = np.concatenate([[dom[0, 0]], mid]), np.concatenate([mid, [dom[0, 1]]])
        h = P[o] / (hi - lo) if c["density"] else P[o]
        want = np.array(sorted(zip(lo, hi, h)))
        got = np.array(sorted((min(g_[:, 0]), max(g_[:, 0]), g_[0, 1]) for g_ in shot.segments))
        close(got, want, "cells and their heights", rtol=1e-9)
        check(len(shot.lines) == (0 if ref is None else 1), "reference marker", got=len(shot.lines))
        if ref is not None:
            close(shot.lines[0][0], [ref[0]], "position of the reference")
    else:
        from scipy.spatial import Voronoi
        vor = Voronoi(x)
        check(len(shot.polygons) == c["n"], "one polygon per sample", got=len(shot.polygons))
        D = P / V if c["density"] else P
        cmap = matplotlib.colormaps["BuGn"]
        span = np.ptp(x, axis=0).max()
        for i in range(c["n"]):
            reg = vor.regions[vor.point_region[i]]
            if -1 in reg:
                continue
            corners = vor.vertices[reg]
            hit = [p for p in shot.polygons if len(p[0]) == len(reg) + 1 and all(np.min(np.abs(p[0] - v).max(axis=1)) < 1e-9 * (span + np.abs(v).max()) for v in corners)]
            check(len(hit) == 1, "a polygon for each bounded cell", got=len(hit))
            close(hit[0][1][:3], cmap(D[i] / D.max())[:3], "colour of cell %d" % i, atol=1e-6)
        if w.max() <= 1e3 * w.min():
            from matplotlib.path import Path
            q = in_domain(rs.random_sample((60, 2)), dom)
            dist = np.sqrt(((q[:, None] - x[None]) ** 2).sum(axis=2))
            near = np.sort(dist, axis=1)
            clear = near[:, 1] - near[:, 0] > 1e-5 * w.max()
            home = dist.argmin(axis=1)
            centre = dom[:, 0]
            shapes = [Path(p[0] - centre) for p in shot.polygons]
            held = np.array([p.contains_points(q - centre) for p in shapes])
            samples = np.array([p.contains_points(x - centre) for p in shapes])
            check(np.all(held[:, clear].sum(axis=0) == 1), "every point of the domain lies in one drawn cell", got=held[:, clear].sum(axis=0))
            for k in np.flatnonzero(clear):
                cell = int(np.flatnonzero(held[:, k])[0])
                near_x = np.sort(np.sqrt(((x - x[home[k]]) ** 2).sum(axis=1)))[1]
                if near_x > 1e-5 * w.max():
                    check(samples[cell, home[k]], "a point lies in the drawn cell of its nearest sample", point=q[k], sample=x[home[k]])
                close(shot.polygons[cell][1][:3], cmap(D[home[k]] / D.max())[:3], "colour at a point of cell %d" % home[k], atol=1e-6)
        close(shot.limits[0] + shot.limits[1], [dom[0, 0], dom[0, 1], dom[1, 0], dom[1, 1]], "the domain is shown")
        marker(shot, ref, (0, 1))
    same(s.get_values(), x, "the plotted values are left unchanged")
    close(s.get_volumes(), V, "the plotted volumes are left unchanged", rtol=0, atol=0)
    close(s.get_probabilities(), P, "the plotted probabilities are left unchanged", rtol=0, atol=0)
    t.nontrivial(c["n"] > 2)
    t.label("dim=%d" % c["dim"], "density" if c["density"] else "measure")


PROP = Prop("C30", "plots", [
    Sub("scatter", scatters(), scatter, quick=320, thorough=5000, rule="non-trivial: several samples coloured by value"),
    Sub("project", projections(["rhoD"]), project, quick=120, thorough=2000, rule="non-trivial: several projections, or coloured by value"),
    Sub("families", projections(["multi", "multi_input", "multi_output"]), project, quick=100, thorough=1500, rule="non-trivial: several projections, or coloured by value"),
    Sub("data_domain", data_domains(), data_domain, quick=150, thorough=2000, rule="non-trivial: several pairs of quantities and a reference"),
    Sub("marginal", marginals(), marginal, quick=200, thorough=2500, rule="non-trivial: at least two marginals"),
    Sub("law", laws(), law, quick=200, thorough=2500, rule="non-trivial: at least two curves"),
    Sub("voronoi", cells(), voronoi, quick=300, thorough=4000, rule="non-trivial: at least three cells"),
], assumptions=["figures are inspected when saved, not rendered", "unbounded Voronoi cells are closed off at some distance: their shape is not checked",
               "marginals on equal bins covering the domain"], more=2)
