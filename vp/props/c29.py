"""C29: learned quantities of interest become a discretization that holds exactly the learner's data.

The learner (package luq, not installed here) is replaced by a stand-in that records what it is given and answers with generated labels
and maps; everything else is the package's own code."""
import os, sys, tempfile, types
import numpy as np
from hypothesis import strategies as st
from vp.core import *
from vp import gen


class LUQ(object):
    made = []

    def __init__(self, predicted_time_series, observed_time_series, times):
        self.predicted_time_series, self.observed_time_series, self.times = predicted_time_series, observed_time_series, times
        self.calls = []
        LUQ.made.append(self)

    def clean_data(self, **kw):
        self.calls.append(["clean_data", kw])

    def dynamics(self, **kw):
        self.calls.append(["dynamics", kw])

    def learn_qois_and_transform(self, **kw):
        self.calls.append(["learn_qois_and_transform", kw])


def stand_in():
    m, mm = types.ModuleType("luq"), types.ModuleType("luq.luq")
    mm.LUQ = LUQ
    m.luq = mm
    sys.modules["luq"], sys.modules["luq.luq"] = m, mm


def model(x, times):
    """A time series for each row."""
    return np.sin(np.asarray(x)).sum(axis=1)[:, None] * 3 + np.asarray(times)[None, :] ** 2 + 0.5 * np.asarray(x)[:, :1]


@st.composite
def cases(draw):
    k = draw(st.integers(1, 4))
    nT = draw(st.integers(1, 5))
    return dict(dim=draw(st.integers(1, 3)), n=draw(sizes(1, 12)), m=draw(sizes(1, 9)), k=k, q=draw(st.integers(1, 3)), nT=nT,
                obs=draw(st.sampled_from(["set", "set", "none"])), how=draw(st.sampled_from(["setup", "steps", "manual", "mixed"])), given=[draw(st.booleans()) for _ in range(3)],
                kws=draw(st.lists(st.tuples(st.sampled_from(["clean_data", "dynamics", "learn_qois_and_transform"]),
                                            st.dictionaries(st.sampled_from(["tol", "num_qoi", "kwargs"]), st.integers(0, 5), max_size=2)), max_size=4).map(lambda l: [list(x) for x in l])),
                seed=draw(SEED))


def setup(c):
    import bet.sampling.useLUQ as ul
    stand_in()
    LUQ.made = []
    rs = np.random.RandomState(c["seed"])
    x, xo = rs.random_sample((c["n"], c["dim"])), rs.random_sample((c["m"], c["dim"]))
    ps, os_ = gen.plain_set(x.tolist(), c["dim"]), gen.plain_set(xo.tolist(), c["dim"])
    times = np.sort(rs.random_sample(c["nT"]))
    obs = os_ if c["obs"] == "set" else None
    asked = []

    def lb_model(inputs, tt):
        asked.append((np.array(inputs), np.array(tt)))
        return model(inputs, tt)
    u = ul.useLUQ(predict_set=ps, lb_model=lb_model, times=times, obs_set=obs)
    series, series_o = model(x, times), model(xo, times)
    if c["how"] == "setup" and obs is not None:
        u.setup()
    elif c["how"] == "manual":
        u.initialize(predicted_time_series=series, obs_time_series=series_o, times=times)
    elif c["how"] == "mixed":
        # what is given is used, the rest is what is there
        u.get_predictions()
        u.set_observed_time_series(series_o)
        kw = {}
        if c["given"][0]:
            series = kw["predicted_time_series"] = series + 1.0
        if c["given"][1]:
            series_o = kw["obs_time_series"] = series_o - 1.0
        if c["given"][2]:
            times = kw["times"] = times + 0.5
        u.initialize(**kw)
    else:
        u.get_predictions()
        close(u.predicted_time_series, series, "predicted time series are the model at the predicted inputs")
        if obs is not None:
            u.get_obs()
        else:
            u.set_observed_time_series(series_o)
        close(u.obs_time_series, series_o, "observed time series")
        u.initialize()
    check(len(LUQ.made) == 1 and u.learn is LUQ.made[0], "one learner")
    close(u.learn.predicted_time_series, series, "the learner gets the predicted time series")
    close(u.learn.observed_time_series, series_o, "the learner gets the observed time series")
    same(u.learn.times, times, "the learner gets the times")
    for name, kw in c["kws"]:
        getattr(u, name)(**kw)
    check(u.learn.calls == [[n, k] for n, k in c["kws"]], "the learner is asked what was asked for", got=u.learn.calls, want=c["kws"])
    learned = dict(pl=rs.randint(0, c["k"], c["n"]), ol=rs.randint(0, c["k"], c["m"]))
    learned["pm"] = [rs.randn(int((learned["pl"] == i).sum()), c["q"]) for i in range(c["k"])]
    learned["om"] = [rs.randn(int((learned["ol"] == i).sum()), c["q"]) for i in range(c["k"])]
    u.learn.num_pcs = [c["q"]] * c["k"]
    u.learn.predict_labels, u.learn.obs_labels = learned["pl"].copy(), learned["ol"].copy()
    u.learn.predict_maps, u.learn.obs_maps = [a.copy() for a in learned["pm"]], [a.copy() for a in learned["om"]]
    return u, x, xo, learned, ps, os_


def holds(c, s, labels, maps, what):
    check(s is not None, what + " exists")
    check(s.get_dim() == c["q"], what + ": dimension", got=s.get_dim())
    same(s.get_region(), labels, what + ": cluster labels")
    check(len(s.get_cluster_maps()) == len(maps), what + ": one map per cluster")
    for i, m in enumerate(maps):
        same(s.get_cluster_maps()[i], m, what + ": map of cluster %d" % i)


def disc(c, t):
    u, x, xo, L, ps, os_ = setup(c)
    d1, d2 = u.make_disc()
    same(d1.get_input_sample_set().get_values(), x, "inputs of the predictions")
    holds(c, d1.get_output_sample_set(), L["pl"], L["pm"], "predictions")
    holds(c, d1.get_output_observed_set(), L["ol"], L["om"], "observations of the prediction discretization")
    check(d1.check_nums() == c["n"], "one output per input", got=d1.check_nums())
    if c["obs"] == "none":
        check(d2 is None, "no observation discretization without observed inputs")
    else:
        same(d2.get_input_sample_set().get_values(), xo, "inputs of the observations")
        holds(c, d2.get_output_sample_set(), L["ol"], L["om"], "outputs of the observation discretization")
        check(d2.check_nums() == c["m"], "one observed output per observed input", got=d2.check_nums())
    same(ps.get_values(), x, "the predicted inputs are unchanged")
    same(os_.get_values(), xo, "the observed inputs are unchanged")
    same(u.learn.predict_labels, L["pl"], "the learner's labels are unchanged")
    t.nontrivial(len(set(L["pl"].tolist())) > 1)
    t.label(c["how"], "obs " + c["obs"], "clusters=%d" % c["k"])


# ------------------------------------------------------------ solving with it
@st.composite
def solvable(draw):
    c = draw(cases())
    c.update(n=draw(st.integers(12, 30)), m=draw(st.integers(8, 20)), k=draw(st.integers(1, 2)), q=draw(st.integers(1, 2)), obs="set")
    return c


def solve(c, t):
    """Inverting what make_disc returns gives the observed-to-predicted density ratio of the learner's maps."""
    import bet.calculateP.calculateR as cr
    import scipy.stats as ss
    u, x, xo, L, ps, os_ = setup(c)
    need = 2 + c["q"]
    if min([len(m) for m in L["pm"]] + [len(m) for m in L["om"]]) <= need:
        return
    d1, _ = u.make_disc()
    means, r, ptr = cr.invert(d1)
    for i in range(c["k"]):
        same(ptr[i], np.flatnonzero(L["pl"] == i), "samples of cluster %d" % i)
        want = ss.gaussian_kde(L["om"][i].T)(L["pm"][i].T) / ss.gaussian_kde(L["pm"][i].T)(L["pm"][i].T)
        close(r[i], want, "density ratio of cluster %d" % i, rtol=1e-8)
        close(means[i], np.mean(want), "its mean", rtol=1e-8)
    t.nontrivial(True)


# ------------------------------------------------------------ saving
def top_model(x, times):
    return model(x, times)


def saved(c, t):
    import bet.sampling.useLUQ as ul
    import bet.util as util
    u, x, xo, L, ps, os_ = setup(c)
    u.lb_model = top_model
    with tempfile.TemporaryDirectory(dir=".") as tmp:
        name = os.path.join(tmp, "luq")
        u.save(name)
        v = util.load_object(name)
    same(v.predict_set.get_values(), x, "predicted inputs after loading")
    check((v.obs_set is None) == (c["obs"] == "none"), "observed inputs after loading")
    same(v.learn.predicted_time_series, u.learn.predicted_time_series, "time series after loading")
    d1, d2 = v.make_disc()
    holds(c, d1.get_output_sample_set(), L["pl"], L["pm"], "predictions after loading")
    holds(c, d1.get_output_observed_set(), L["ol"], L["om"], "observations after loading")
    t.nontrivial(len(set(L["pl"].tolist())) > 1)


PROP = Prop("C29", "learned quantities of interest", [
    Sub("disc", cases(), disc, quick=1500, thorough=20000, rule="non-trivial: at least two clusters in use"),
    Sub("solve", solvable(), solve, quick=300, thorough=4000, rule="non-trivial: every cluster large enough for a kernel estimate"),
    Sub("saved", cases(), saved, quick=300, thorough=3000, rule="non-trivial: at least two clusters in use"),
], assumptions=["the learner itself (luq) is a stand-in", "one process"])
