"""C13: density-based inversion weights are observed over predicted density, cluster by cluster."""
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen, oracles as o

BW = [None, None, "scott", "silverman", 0.4, 1.5]


@st.composite
def problems(draw, max_clusters=5, maps=(False, False, True), empties=True, odd=False):
    din, dout = draw(st.integers(1, 3)), draw(st.sampled_from([1, 2, 1, 2, 3]))
    labelled = draw(st.sampled_from(["both", "both", "none", "pred", "obs"]))
    use_maps = draw(st.sampled_from(list(maps)))
    if use_maps:
        labelled = "both"
    k = draw(st.integers(1, max_clusters)) if labelled == "both" else 1
    npred = [draw(st.integers(dout + 3, 9)) for _ in range(k)]
    nobs = [draw(st.integers(dout + 3, 9)) for _ in range(k)]
    if odd and draw(st.integers(0, 2)) == 0:        # a single sample, the fewest that have a density, or many
        which = draw(st.sampled_from([npred, nobs]))
        which[draw(st.integers(0, k - 1))] = draw(st.sampled_from([1, 2 if dout == 1 else dout + 2, dout + 2, 70, 300]))
    if empties and k > 1:
        e = draw(st.sampled_from(["no", "no", "obs", "pred", "both"]))
        i = draw(st.integers(0, k - 1))
        if e in ("pred", "both"):
            npred[i] = 0
        if e in ("obs", "both"):
            nobs[i] = 0
    seed = draw(SEED)
    return dict(din=din, dout=dout, labelled=labelled, maps=use_maps, npred=npred, nobs=nobs, seed=seed,
                bw=draw(st.sampled_from(BW)), weights=draw(st.booleans()), shuffle=draw(st.booleans()),
                local=draw(st.booleans()), wseed=draw(SEED), scale=draw(st.sampled_from([0.01, 1.0, 1.0, 50.0])))


class Data(object):
    def __init__(self, c):
        rs = np.random.RandomState(c["seed"])
        k = len(c["npred"])
        n, m = sum(c["npred"]), sum(c["nobs"])
        self.lam = rs.normal(size=(n, c["din"]))
        plab = np.repeat(np.arange(k), c["npred"])
        olab = np.repeat(np.arange(k), c["nobs"])
        cen = rs.normal(size=(k, c["dout"])) * 2
        self.q = (cen[plab] + rs.normal(size=(n, c["dout"]))) * c["scale"]
        self.y = (cen[olab] + 0.7 * rs.normal(size=(m, c["dout"])) + 0.3) * c["scale"]
        if c["shuffle"]:
            p, r = rs.permutation(n), rs.permutation(m)
            plab, self.q = plab[p], self.q[p]
            olab, self.y = olab[r], self.y[r]
        self.plab, self.olab, self.k = plab, olab, k
        self.w = rs.randint(1, 9, size=n).astype(float) if c["weights"] else None
        self.pmaps = self.omaps = None
        if c["maps"]:
            # per-cluster features, different from the stored values
            a = [rs.normal(size=(c["dout"], c["dout"])) + 2 * np.eye(c["dout"]) for _ in range(k)]
            self.pmaps = [self.q[plab == i] @ a[i] for i in range(k)]
            self.omaps = [self.y[olab == i] @ a[i] for i in range(k)]

    def disc(self, c):
        import bet.sample as samp
        inp = gen.plain_set(self.lam, c["din"])
        out = gen.plain_set(self.q, c["dout"])
        obs = gen.plain_set(self.y, c["dout"])
        # labels given for one of the two sets only are not used: all samples are one cluster
        if c["labelled"] in ("both", "pred"):
            out.set_region(self.plab.copy() if c["labelled"] == "both" else np.arange(len(self.q)) % 3)
        if c["labelled"] in ("both", "obs"):
            obs.set_region(self.olab.copy() if c["labelled"] == "both" else np.arange(len(self.y)) % 3)
        if self.w is not None:
            out.set_weights_init(self.w.copy())
        if self.pmaps is not None:
            out.set_cluster_maps([x.copy() for x in self.pmaps])
            obs.set_cluster_maps([x.copy() for x in self.omaps])
        d = samp.discretization(inp, out, output_observed_set=obs)
        if c["local"]:
            d.global_to_local()
        return d

    def clusters(self):
        """Number of clusters the code can know of: labels of the predictions (or one per map)."""
        if self.pmaps is not None:
            return self.k
        return int(self.plab.max()) + 1

    def ratios(self, c):
        """For each cluster the indices of its predicted samples and their ratios (None without both densities)."""
        out = []
        for i in range(self.clusters()):
            a, b = np.where(self.plab == i)[0], np.where(self.olab == i)[0]
            if len(a) < 2 or len(b) < 2:
                out.append((a, None))
                continue
            pv = self.q[a] if self.pmaps is None else self.pmaps[i]
            ov = self.y[b] if self.omaps is None else self.omaps[i]
            w = None if self.w is None else self.w[a]
            out.append((a, o.kde(ov, None, c["bw"])(pv) / o.kde(pv, w, c["bw"])(pv)))
        return out


def weights_of(c, D, t, disc, result):
    rs, r, ptr = result
    want = D.ratios(c)
    check(len(r) == len(want) and len(rs) == len(want) and len(ptr) == len(want), "one entry per cluster",
          got=[len(r), len(rs), len(ptr)], want=len(want))
    full = np.zeros(len(D.q))
    for i, (a, w) in enumerate(want):
        same(np.sort(ptr[i]), a, "samples of cluster %d" % i)
        if w is None:
            check(r[i] is None, "a cluster without predictions or observations has no ratio")
            t.label("empty cluster")
            continue
        at = dict(zip(a.tolist(), w))
        close(r[i], [at[int(s)] for s in ptr[i]], "ratios of cluster %d" % i, rtol=1e-6)
        close(rs[i], w.mean(), "mean ratio of cluster %d" % i, rtol=1e-6)
        full[a] = w
    close(disc.get_input_sample_set().get_weights(), full, "weights of the input samples", rtol=1e-6)


def ratio(c, t):
    import bet.calculateP.calculateR as R
    D = Data(c)
    d = D.disc(c)
    weights_of(c, D, t, d, R.invert(d, c["bw"]))
    same(d.get_input_sample_set().get_values(), D.lam, "input values are unchanged")
    same(d.get_output_sample_set().get_values(), D.q, "predicted values are unchanged")
    same(d.get_output_observed_set().get_values(), D.y, "observed values are unchanged")
    t.nontrivial(len(D.q) > 4)
    t.label("clusters=%d" % D.k, "maps" if c["maps"] else "values", "weighted" if c["weights"] else "unweighted")


def kdes(c, t):
    """The kernel estimates themselves, at points away from the samples."""
    import bet.calculateP.calculateR as R
    D = Data(c)
    d = D.disc(c)
    pk, ok, k = R.generate_output_kdes(d, c["bw"])
    check(k == D.clusters() and len(pk) == k and len(ok) == k, "one pair of densities per cluster", got=k)
    rs = np.random.RandomState(c["wseed"])
    for i in range(k):
        for name, lab, vals, maps, kd, w in (("predicted", D.plab, D.q, D.pmaps, pk, D.w),
                                             ("observed", D.olab, D.y, D.omaps, ok, None)):
            a = np.where(lab == i)[0]
            if len(a) < 2:
                check(kd[i] is None, "no density for a cluster of no or one sample")
                continue
            v = vals[a] if maps is None else maps[i]
            x = v.mean(axis=0) + rs.normal(size=(5, v.shape[1])) * v.std(axis=0)
            close(kd[i](x.T), o.kde(v, None if w is None else w[a], c["bw"])(x), "%s density of cluster %d" % (name, i),
                  rtol=1e-6, atol=1e-12)
            t.nontrivial()


@st.composite
def histories(draw):
    c = draw(problems(maps=(False,), empties=False).filter(lambda c: c["labelled"] in ("both", "none")))
    c["others"] = [dict(seed=draw(SEED), bw=draw(st.sampled_from(BW)),
                        what=draw(st.sampled_from(["observed", "predicted", "both", "nothing"])))
                   for _ in range(draw(st.integers(1, 3)))]
    return c


def history(c, t):
    """Each inversion uses the current observations and predictions."""
    import bet.calculateP.calculateR as R
    D = Data(c)
    d = D.disc(c)
    R.invert(d, c["bw"])
    for s in c["others"]:
        e = dict(c, seed=s["seed"])
        N = Data(e)
        fresh = N.disc(e)
        if s["what"] in ("observed", "both"):
            D.y, D.olab = N.y, N.olab
            d.set_output_observed_set(fresh.get_output_observed_set())
        if s["what"] in ("predicted", "both"):
            D.q, D.plab, D.w, D.lam = N.q, N.plab, N.w, N.lam
            d.set_input_sample_set(fresh.get_input_sample_set())
            d.set_output_sample_set(fresh.get_output_sample_set())
        e = dict(c, bw=s["bw"])
        weights_of(e, D, t, d, R.invert(d, s["bw"]))
        t.nontrivial(s["what"] != "nothing")


PROP = Prop("C13", "inversion weights", [
    Sub("ratio", problems(odd=True), ratio, quick=900, thorough=40000,
        rule="non-trivial: more than four predicted samples"),
    Sub("kdes", problems(odd=True), kdes, quick=500, thorough=20000,
        rule="non-trivial: a density with samples was evaluated away from its samples"),
    Sub("history", histories(), history, quick=300, thorough=12000,
        rule="non-trivial: predictions or observations were replaced between inversions"),
], assumptions=["clusters hold at most one sample or enough samples for a nonsingular covariance",
                "ratios are compared at relative tolerance 1e-6"])
