"""X01: two calls on two threads, every interleaving with a bounded number of preemptions at library source lines."""
import time
import warnings

import numpy as np
import pandas as pd

from mc import featlib as fl
from mc import sched
from mc import simlib as sl
from quantfinlib.clustering import HC, gap_statistic, optimize_n_clusters, silhouette_tstat
from quantfinlib.distance import distance_matrix as dm
from quantfinlib.distance import information as inf
from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, QuasiRandom
from quantfinlib.train_test_split.kfoldpe import TimeAwareKFold
from quantfinlib.train_test_split.walk_forward import WalkForward
from quantfinlib.feature import indicators as fi

ID = "X01"
TECHNIQUE = "stateless model checking of the real code: controlled two-thread scheduler, all schedules within a preemption bound"
CHUNK = 1
CASE_LIMIT = 600
SOFT = {"quick": 45, "thorough": 420}
TOTAL = {"quick": 480, "thorough": 6 * 3600}
START = [time.time()]
ASSUMPTIONS = ["a preemption can happen before any source line executed in the library; numpy, pandas and scipy calls are atomic steps",
               "fitting the same object from two threads, and asking a walk-forward splitter for its number of splits during a pass, have "
               "no meaning of their own and are not explored",
               "an implementation that takes locks makes threads wait, which this scheduler resolves by timeouts; exploring such a pair "
               "stops after a time limit (counted as 'truncated')"]


def BOUNDS(tier):
    return ("%d pairs of calls (distinct models, one shared model, splitters, clusterings, metrics, features, covariances, loaders); every "
            "schedule with at most one preemption from either thread; every schedule with two preemptions for pairs of up to %d lines"
            % (len(PAIRS), LIM2[tier]))


LIM2 = {"quick": 40, "thorough": 160}
COR = np.array([[1.0, 0.5], [0.5, 1.0]])
IDX = pd.date_range("2023-01-02", periods=24, freq="B")


def _data(k, V=1):
    i = np.arange(24)
    cols = [50 * np.exp(np.cumsum(0.02 * np.sin((1.3 + k) * i + j) + 0.01 * np.cos(0.4 * i * i + j + k))) for j in range(V)]
    return pd.DataFrame(np.column_stack(cols), index=IDX, columns=[f"s{j}" for j in range(V)])


def model(kind, k, V=1):
    two = (lambda a, b: a if V == 1 else np.array([a, b]))
    vol = two(0.2 + 0.1 * k, 0.4)
    return sl.make(kind, {"drift": two(0.1 + 0.3 * k, 0.2), "mrr": two(1.0 + k, 2.0), "vol": vol, "cor": COR if V == 2 else None})


def sample(m, k, **kw):
    a = dict(x0=1.0 + k, dt=1 / 252 * (1 + k), num_steps=5 + k, num_paths=1 + k, random_state=7 + k)
    a.update(kw)
    return lambda: m.path_sample(**a)


def dated(m, k):
    return lambda: m.path_sample(x0=2.0 + k, num_steps=4, num_paths=2, label_start="2020-01-31", label_freq="ME" if k else "D",
                                 columns=["a"], random_state=k, include_x0=bool(k))


def fit(m, k, V=1):
    def go():
        m.fit(_data(k, V))
        names = ("mean", "mrr", "vol", "cor") if hasattr(m, "mrr") else ("drift", "vol", "cor")
        return {n: getattr(m, n) for n in names}, m.path_sample(x0=1.0, dt=0.01, num_steps=3, random_state=3)
    return go


def score(m, name, k, V=1):
    return lambda: getattr(m, name)(_data(k, V), dt=0.01)


def quasi(m, k):
    return sample(m, k, num_steps=8)


def signal(x):
    return np.concatenate([[0.0], np.diff(x)])


def walk(cv, k):
    X = np.zeros((10 + 2 * k, 2))
    if k:
        return lambda: list(cv.split(X, None, np.repeat(np.arange(6), 2)))
    return lambda: list(cv.split(X))


def table(k):
    i = np.arange(40)
    return pd.DataFrame({c: np.sin((j + 1.7) * i + k) + 0.4 * (j + k) * np.cos(0.9 * i) for j, c in enumerate("abcd")})


def dist(k):
    c = table(k).corr().to_numpy()
    d = np.sqrt((1 - c) / 2)
    np.fill_diagonal(d, 0)
    return d


def feat(f, k, prm=None):
    d = {n: np.asarray(v)[5 * k:5 * k + 14] for n, v in fl.cols_from_close(fl.long_series(30)["walk" if k else "saw"]).items()}
    args = [pd.Series(x, index=IDX[:len(x)]) if k else x for x in fl.get_cols(d, f.ins)]
    p = f.params[min(k, len(f.params) - 1)] if prm is None else prm
    return lambda: f.call(args, p)


def cov_jobs():
    from quantfinlib.math import cov as qc
    out = {}
    if hasattr(qc, "_cov_denoise"):
        out["denoise"] = lambda k: (lambda a: (lambda: qc._cov_denoise(a, 30 + 10 * k)))(np.cov(table(k).to_numpy().T))
    if hasattr(qc, "_cor_block_diagonal"):
        out["block"] = lambda k: lambda: qc._cor_block_diagonal([2, 3 + k], [0.5, 0.3])
    return out


def _pairs():
    P = {}
    # calls on distinct objects
    jobs = {}
    for kind in ("bm", "gbm", "ou"):
        for V in (1, 2):
            jobs[f"sample {kind} {V}"] = lambda k, kind=kind, V=V: sample(model(kind, k, V), k)
            jobs[f"fit {kind} {V}"] = lambda k, kind=kind, V=V: fit(model(kind, k, V), k, V)
        jobs[f"nll {kind}"] = lambda k, kind=kind: score(model(kind, k), "nll", k)
        jobs[f"bic {kind}"] = lambda k, kind=kind: score(model(kind, k), "bic", k)
    jobs["dated bm"] = lambda k: dated(model("bm", k), k)
    jobs["quasi"] = lambda k: quasi(QuasiRandom(signal, 0.2 + k, model("gbm", k)), k)
    jobs["quasi default"] = lambda k: quasi(QuasiRandom(signal, 0.2 + k), k)
    for n in jobs:
        P[f"{n} | {n}"] = lambda n=n: [jobs[n](0), jobs[n](1)]
    cross = [("sample bm 1", "sample gbm 1"), ("sample bm 2", "fit bm 2"), ("sample gbm 2", "sample ou 2"), ("fit ou 1", "fit ou 2"),
             ("fit bm 1", "nll bm"), ("fit gbm 1", "sample gbm 2"), ("nll ou", "fit ou 1"), ("quasi", "sample gbm 1"),
             ("quasi default", "sample bm 1"), ("quasi default", "fit bm 1"), ("dated bm", "sample bm 2"), ("bic gbm", "fit gbm 2"),
             ("sample ou 1", "fit ou 1"), ("nll gbm", "bic gbm"), ("bic bm", "dated bm")]
    for a, b in cross:
        P[f"{a} | {b}"] = lambda a=a, b=b: [jobs[a](0), jobs[b](1)]
    # calls on one shared object
    for kind in ("bm", "gbm", "ou"):
        def shared_samples(kind=kind):
            m = model(kind, 0, 2)
            return [sample(m, 0, num_paths=2), sample(m, 1)]

        def shared_dated(kind=kind):
            m = model(kind, 0)
            return [dated(m, 0), sample(m, 1)]

        def shared_scores(kind=kind):
            m = model(kind, 0)
            return [score(m, "nll", 0), score(m, "aic", 1)]

        def shared_bic(kind=kind):
            m = model(kind, 0, 2)
            return [score(m, "bic", 0, 2), score(m, "aic", 1, 2)]

        def score_and_sample(kind=kind):
            m = model(kind, 1)
            return [score(m, "bic", 0), sample(m, 1)]
        P[f"shared {kind}: sample | sample"] = shared_samples
        P[f"shared {kind}: dated | sample"] = shared_dated
        P[f"shared {kind}: nll | aic"] = shared_scores
        P[f"shared {kind}: bic | aic"] = shared_bic
        P[f"shared {kind}: bic | sample"] = score_and_sample

    def shared_quasi():
        m = QuasiRandom(signal, 0.3, model("bm", 0))
        return [quasi(m, 0), quasi(m, 1)]

    def shared_base():
        b = model("gbm", 0)
        return [quasi(QuasiRandom(signal, 0.3, b), 0), sample(b, 1)]
    P["shared quasi: sample | sample"] = shared_quasi
    P["shared base: quasi | sample"] = shared_base
    # splitters
    for name, mk in (("kfold", lambda: TimeAwareKFold(3, 1, 0)), ("kfold forward", lambda: TimeAwareKFold(2, 1, 1, look_forward=True)),
                     ("expanding", lambda: WalkForward(1, 0, 3, 2)), ("rolling", lambda: WalkForward(1, 0, 3, 2, "rolling"))):
        def one(mk=mk):
            cv = mk()
            return [walk(cv, 0), walk(cv, 1)]

        def two(mk=mk):
            return [walk(mk(), 1), walk(mk(), 0)]
        P[f"shared {name}: pass | pass"] = one
        P[f"{name}: pass | pass"] = two
    P["kfold | expanding"] = lambda: [walk(TimeAwareKFold(3, 1, 0), 1), walk(WalkForward(1, 0, 3, 2), 1)]
    # clustering
    for lm in ("ward", "centroid"):
        def hc(lm=lm):
            return HC(dist=dist(0), linkage_method=lm)

        def a(hc=hc):
            h = hc()
            return [lambda: h.get_clusters(2), lambda: h.get_clusters(3)]

        def b(hc=hc):
            h = hc()
            return [lambda: h.linkage.copy(), lambda: h.get_clusters(2)]

        def c(hc=hc):
            h = hc()
            return [lambda: h.get_optimal_nclusters(max_clust=3, metric="silhouette"), lambda: h.get_clusters(3)]
        P[f"shared {lm} clustering: clusters | clusters"] = a
        P[f"shared {lm} clustering: linkage | clusters"] = b
        P[f"shared {lm} clustering: optimal | clusters"] = c
    P["clustering | clustering"] = lambda: [lambda: HC(X=table(0)).get_clusters(2), lambda: HC(X=table(1), linkage_method="single").get_clusters(3)]
    P["var_info clustering | pearson clustering"] = lambda: [
        lambda: HC(X=table(0).iloc[:, :3], codependence_method="var_info").linkage, lambda: HC(X=table(1).iloc[:, :3]).linkage]
    lab = np.array([0, 0, 1, 1])
    P["gap | gap"] = lambda: [lambda: gap_statistic(dist(0), lab, nb=3, random_state=5), lambda: gap_statistic(dist(1), lab[[0, 2, 1, 3]], nb=2)]
    P["gap | gap unseeded"] = lambda: [lambda: gap_statistic(dist(0), lab, nb=2), lambda: gap_statistic(dist(1), lab, nb=2)]
    P["gap | silhouette"] = lambda: [lambda: gap_statistic(dist(0), lab, nb=2), lambda: silhouette_tstat(dist(0), lab)]
    P["gap | sample"] = lambda: [lambda: gap_statistic(dist(0), lab, nb=2, random_state=7), sample(model("bm", 0), 0)]
    P["silhouette | silhouette"] = lambda: [lambda: silhouette_tstat(dist(0), lab), lambda: silhouette_tstat(dist(1), pd.Series([0, 1, 0, 1]))]

    def opt(k, metric):
        h = HC(dist=dist(k))
        link = h.linkage
        return lambda: optimize_n_clusters(linkage=link, dist=dist(k), max_clust=3, metric=metric, nb=2)
    P["optimal | optimal"] = lambda: [opt(0, "silhouette"), opt(1, "silhouette")]
    # distances
    x = [table(k).to_numpy() for k in (0, 1)]
    for n in ("mutual_info", "var_info", "kl_divergence_xy"):
        f = getattr(inf, n)
        P[f"{n} | {n}"] = lambda f=f: [lambda: f(x[0][:, 0], x[0][:, 1]), lambda: f(pd.Series(x[1][:, 1]), pd.Series(x[1][:, 2]), bins=4)]
    P["mutual_info | var_info"] = lambda: [lambda: inf.mutual_info(x[0][:, 0], x[0][:, 1], norm=False), lambda: inf.var_info(x[0][:, 0], x[0][:, 1])]
    P["entropies | mutual_info"] = lambda: [lambda: inf.compute_entropies(x[0][:, 0], x[0][:, 1], 4), lambda: inf.mutual_info(x[1][:, 0], x[1][:, 1])]
    P["info matrix | info matrix"] = lambda: [lambda: dm.get_info_distance_matrix(table(0).iloc[:, :2]), lambda: dm.get_info_distance_matrix(x[1][:, :3], method="var_info")]
    P["corr matrix | corr matrix"] = lambda: [lambda: dm.get_corr_distance_matrix(table(0)), lambda: dm.get_corr_distance_matrix(x[1], corr_method="spearman", corr_to_dist_method="squared_angular")]
    P["corr_to_dist | corr_to_dist"] = lambda: [lambda: dm.corr_to_dist(table(0).corr(), "angular"), lambda: dm.corr_to_dist(table(1).corr().to_numpy(), "abs_angular")]
    # features
    names = [f.name for f in fl.FEATURES]
    for i, n in enumerate(names):
        P[f"feature {n} | {n}"] = lambda n=n: [feat(fl.BY[n], 0), feat(fl.BY[n], 1)]
        m = names[(i + 1) % len(names)]
        P[f"feature {n} | {m}"] = lambda n=n, m=m: [feat(fl.BY[n], 1), feat(fl.BY[m], 1)]
    c = fl.long_series(30)["walk"]

    def shared_bands(cls):
        def go():
            b = cls(pd.Series(c), window=3)
            return [lambda: (b.upper(), b.bandwidth()), lambda: (b.lower(), b.percent_b())]
        return go
    for cls in ("BollingerBands", "EwmBollingerBands", "DonchianBands"):
        P[f"shared {cls}"] = shared_bands(getattr(fi, cls))
    P["cusum | cusum"] = lambda: [lambda: fl.chu_stinchcombe_white_cusum_test(c[:10]), lambda: fl.chu_stinchcombe_white_cusum_test(c[5:14])]
    # covariance
    for n, j in cov_jobs().items():
        P[f"{n} | {n}"] = lambda j=j: [j(0), j(1)]
    # data sets
    from quantfinlib import datasets as ds
    loaders = [getattr(ds, n) for n in ("load_vix", "load_treasury_rates", "load_equity_indices")]
    P["load | load same"] = lambda: [loaders[0], loaders[0]]
    P["load | load other"] = lambda: [loaders[0], loaders[1]]
    P["load | load equity"] = lambda: [loaders[2], loaders[1]]
    return P


PAIRS = _pairs()


def canon(v):
    if isinstance(v, (list, tuple)):
        return ("seq", type(v).__name__) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, canon(v[k])) for k in sorted(v))
    if isinstance(v, (pd.Series, pd.DataFrame)):
        return (type(v).__name__, canon(v.to_numpy()), tuple(map(str, v.index)), str(getattr(v, "columns", None)), str(getattr(v, "name", None)))
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), v.tobytes() if v.dtype != object else repr(v.tolist()))
    if isinstance(v, (float, np.floating)):
        return ("float", float(v).hex())
    if hasattr(v, "__dict__") and not callable(v):
        return (type(v).__name__,) + tuple((k, canon(x)) for k, x in sorted(vars(v).items()))
    return repr(v)


def brief(v):
    return str(v).replace("\n", " ")[:160]


def ambient():
    import logging
    lg = logging.getLogger("quantfinlib")
    return (canon(np.random.get_state()), tuple(sorted(np.geterr().items())), len(warnings.filters), lg.level, tuple(map(id, lg.handlers)),
            pd.get_option("mode.chained_assignment"), pd.get_option("display.max_rows"))


def cases(tier):
    START[0] = time.time()
    for n in PAIRS:
        yield {"pair": n, "tier": tier}


def run(case, ctx):
    name, tier = case["pair"], case["tier"]
    mk = PAIRS[name]
    t0 = time.time()
    soft = SOFT[tier] if t0 - START[0] < TOTAL[tier] else 3   # on a slow machine every pair is still explored in part
    want = [canon(mk()[0]()), canon(mk()[1]())]
    again = [canon(mk()[0]()), canon(mk()[1]())]
    if want != again:
        ctx.fail("not-deterministic", f"{name}: run alone twice, the results differ")
        return
    amb = ambient()

    def execute(switches, first):
        fns = mk()
        out, total, pts = sched.run(fns, switches, first)
        ctx.step(total)
        ctx.trace()
        ctx.state(name, first, tuple(switches))
        for i, (st, v) in enumerate(out):
            if st != "ok":
                ctx.fail("error", f"{name}: thread {i}, first {first}, switches {switches}: {type(v).__name__}: {v}")
            elif canon(v) != want[i]:
                ctx.fail("result", f"{name}: thread {i}, first {first}, switches before line steps {list(switches)} of {total}: {brief(v)}")
        if ambient() != amb:
            ctx.fail("ambient", f"{name}: first {first}, switches {switches}: process-wide state changed")
        return total, pts

    total, pts = execute((), 0)
    ctx.sample({"pair": name, "lines": pts})
    step = 1
    if total > 4000:       # keep the size of the exploration bounded, spreading the points
        step = total // 2000
        ctx.outcome("thinned pairs")
    for first in (0, 1):
        p, top = 1, pts[first]
        while p <= top:
            n, q = execute((p,), first)
            if len(ctx.fails) > 5:
                return
            if time.time() - t0 > soft:
                ctx.outcome("truncated pairs")
                return
            p += step
    ctx.outcome("pairs complete at 1 preemption")
    if max(pts) > LIM2[tier]:
        return
    for first in (0, 1):
        a, b = pts[first], pts[1 - first]
        for p in range(1, a + 1):
            for q in range(p + 1, p + b + 1):
                execute((p, q), first)
                if len(ctx.fails) > 5:
                    return
                if time.time() - t0 > soft:
                    ctx.outcome("truncated pairs")
                    return
    ctx.outcome("pairs complete at 2 preemptions")
