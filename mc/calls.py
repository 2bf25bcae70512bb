"""Catalogue of library calls on library objects, and an injector that interrupts a call before any chosen library line.

A group is a set of calls on one object (or on none):
    make()   -> dict of fresh objects and inputs
    pure     name -> f(o): calls that must not change anything observable
    change   name -> (f(o), look(o)): calls meant to change the object (fit), and everything observable afterwards
    bad      name -> f(o): calls expected to be rejected
"""
import os
import sys

import numpy as np
import pandas as pd

from mc import featlib as fl
from mc import simlib as sl
from mc.core import REPO

LIB = os.path.join(os.path.realpath(REPO), "quantfinlib") + os.sep
_IN = {}


def inside(path):
    r = _IN.get(path)
    if r is None:
        r = _IN[path] = os.path.realpath(path).startswith(LIB)
    return r


class Interrupted(BaseException):
    pass


def trace_run(fn, at=None, exc=None):
    """Run fn; before the at-th line executed in the library raise exc.  -> ('ok', value) | ('err', exception), lines, fired"""
    n, fired = 0, False

    def local(frame, event, arg):
        nonlocal n, fired
        if event == "line":
            n += 1
            if n == at and not fired:
                fired = True
                raise exc
        return local

    def tr(frame, event, arg):
        return local if event == "call" and inside(frame.f_code.co_filename) else None

    old = sys.gettrace()
    sys.settrace(tr)
    try:
        r = ("ok", fn())
    except BaseException as e:  # noqa
        from mc.core import CaseTimeout
        if isinstance(e, CaseTimeout):
            raise
        r = ("err", e)
    finally:
        sys.settrace(old)
    return r, n, fired


def canon(v):
    if isinstance(v, (list, tuple)):
        return ("seq", type(v).__name__) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, canon(v[k])) for k in sorted(v))
    if isinstance(v, (pd.Series, pd.DataFrame)):
        return (type(v).__name__, canon(v.to_numpy()), tuple(map(str, v.index)), str(v.index.name),
                str(list(v.columns)) if v.ndim == 2 else str(v.name))
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), v.tobytes() if v.dtype != object else repr(v.tolist()))
    if isinstance(v, (float, np.floating)):
        return ("float", float(v).hex())
    return repr(v)


COR = np.array([[1.0, 0.5], [0.5, 1.0]])


def prices(k, V=1, n=14, freq="B"):
    i = np.arange(n)
    cols = [50 * np.exp(np.cumsum(0.02 * np.sin((1.3 + k) * i + j) + 0.01 * np.cos(0.4 * i * i + j + k))) for j in range(V)]
    return pd.DataFrame(np.column_stack(cols), index=pd.date_range("2023-01-31", periods=n, freq=freq, name="when"),
                        columns=[f"s{j}" for j in range(V)])


def signal(x):
    return np.concatenate([[0.0], np.diff(x)])


class Group:
    """assign: like change, but by assigning to public attributes first (for histories of pairs of objects)"""

    def __init__(self, name, make, pure=None, change=None, bad=None, assign=None):
        self.name, self.make, self.assign = name, make, assign or {}
        self.pure, self.change, self.bad = pure or {}, change or {}, bad or {}


def params_of(m):
    names = ("mean", "mrr", "vol", "cor") if hasattr(m, "mrr") else ("drift", "vol", "cor")
    return {n: getattr(m, n) for n in names}


def observe(m, V):
    """everything observable about a model"""
    x = prices(3, V, freq="D")
    return [params_of(m), m.path_sample(num_steps=3, num_paths=2, random_state=5), m.path_sample(x0=1.5, dt=0.1, num_steps=2, random_state=6),
            m.path_sample(x0=1.5, num_steps=2, random_state=7, label_start="2020-01-31", label_freq="ME"), m.nll(x), m.bic(x.to_numpy(), 0.2), m.aic(x)]


def model_group(kind, V, state):
    two = (lambda a, b: a if V == 1 else np.array([a, b]))

    def make():
        m = sl.make(kind, {"drift": two(0.1, 0.2), "mrr": two(1.0, 2.0), "vol": two(0.2, 0.4), "cor": COR.copy() if V == 2 else None})
        if state == "fitted":
            m.fit(prices(0, V, 16))
        elif state == "fitted array":
            m.fit(prices(1, V, 16).to_numpy(), dt=0.5)
        return {"m": m, "A": prices(1, V), "B": prices(2, V, 18, "ME").to_numpy(), "x0": np.array([2.0] * V)}

    pure = {"observe": lambda o: observe(o["m"], V),
            "sample": lambda o: o["m"].path_sample(x0=o["x0"], num_steps=3, num_paths=2, random_state=1),
            "labelled": lambda o: o["m"].path_sample(x0=o["x0"], num_steps=3, num_paths=2, label_start="2020-01-31", label_freq="QE", columns=["a", "b"][:V],
                                                     include_x0=False, random_state=2),
            "nll": lambda o: o["m"].nll(o["A"]), "bic": lambda o: o["m"].bic(o["A"], dt=0.3), "aic": lambda o: o["m"].aic(o["B"])}
    if state != "new":
        pure["last"] = lambda o: o["m"].path_sample(x0="last", num_steps=2, random_state=3)

    def fit(which, dt=None):
        return lambda o: o["m"].fit(o[which], dt=dt) is o["m"], lambda o: observe(o["m"], V)

    def s(**kw):
        return lambda o: o["m"].path_sample(**{"x0": o["x0"], "num_steps": 3, "random_state": 1, **kw})

    flat = prices(1, V)
    flat.iloc[:, -1] = 5.0
    bad = {"x0 name": s(x0="latest"), "x0 object": s(x0={"a": 1}), "x0 too wide": s(x0=[1.0] * (V + 4)), "dt zero": s(dt=0), "dt negative": s(dt=-1.0),
           "dt text": s(dt="a"), "steps negative": s(num_steps=-2), "steps text": s(num_steps="3"), "steps float": s(num_steps=2.5),
           "paths negative": s(num_paths=-1), "paths float": s(num_paths=1.5), "label start": s(label_start="no date", label_freq="D"),
           "label freq": s(label_start="2020-01-01", label_freq="bogus"), "columns": s(label_start="2020-01-01", label_freq="D", columns=["a"] * (V + 1)),
           "seed": s(random_state="abc"), "seed negative": s(random_state=-5), "argument": s(bogus=1),
           "nll text": lambda o: o["m"].nll("abc"), "nll none": lambda o: o["m"].nll(None), "nll hourly": lambda o: o["m"].nll(prices(1, V, freq="h")),
           "nll width": lambda o: o["m"].nll(prices(1, V + 3)), "bic list": lambda o: o["m"].bic([1.0, 2.0, 1.5]), "aic dt": lambda o: o["m"].aic(o["A"], dt="x"),
           "fit text": lambda o: o["m"].fit("abc"), "fit none": lambda o: o["m"].fit(None), "fit nothing": lambda o: o["m"].fit(),
           "fit hourly": lambda o: o["m"].fit(prices(1, V, freq="h")), "fit 3-d": lambda o: o["m"].fit(np.ones((3, 2, 2))),
           "fit empty": lambda o: o["m"].fit(np.ones((0, V))), "fit objects": lambda o: o["m"].fit(np.array([["a"] * V, ["b"] * V])),
           "fit text frame": lambda o: o["m"].fit(pd.DataFrame({c: ["u", "v", "w"] for c in "xyz"[:V]})),
           "fit text series": lambda o: o["m"].fit(pd.Series(["u", "v"], name="other")), "fit dated text": lambda o: o["m"].fit(
               pd.DataFrame({c: ["u", "v", "w"] for c in "xyz"[:V]}, index=pd.date_range("1999-12-31", periods=3, freq="YE", name="year"))),
           "fit dt": lambda o: o["m"].fit(o["A"], dt="x"), "fit dt array": lambda o: o["m"].fit(o["B"], dt="x"), "fit scalar": lambda o: o["m"].fit(5.0)}
    if V == 2:
        bad["fit flat"] = lambda o: o["m"].fit(flat.copy())
        bad["fit flat array"] = lambda o: o["m"].fit(flat.to_numpy() * 0 + 1.0, dt=0.1)
        bad["fit same"] = lambda o: o["m"].fit(np.repeat(prices(1).to_numpy(), 2, axis=1))
        bad["fit short"] = lambda o: o["m"].fit(np.array([[1.0, 2.0], [2.0, 1.0]]))
    assign = {"new vol": (lambda o: setattr(o["m"], "vol", o["m"].vol * 1.5), lambda o: o["m"].path_sample(x0=1.5, num_steps=2, random_state=7))}
    return Group(f"{kind} V={V} {state}", make, pure, {"fit A": fit("A"), "fit B": fit("B", 0.25)}, bad, assign)


class Boom(Exception):
    pass


def quasi_group():
    from quantfinlib.sim import QuasiRandom

    def make():
        left = [10 ** 9]

        def ind(x):
            left[0] -= 1
            if left[0] < 0:
                raise Boom()
            return signal(x)
        base = sl.make("gbm", {"drift": np.array([0.1, 0.2]), "vol": np.array([0.2, 0.3]), "cor": COR})
        return {"base": base, "left": left, "m": QuasiRandom(ind, 0.3, base)}

    def failing(n):
        def go(o):
            o["left"][0] = n
            try:
                return o["m"].path_sample(x0=1.0, num_steps=6, num_paths=2, random_state=1)
            finally:
                o["left"][0] = 10 ** 9
        return go
    pure = {"sample": lambda o: o["m"].path_sample(x0=[1.0, 2.0], num_steps=6, num_paths=2, random_state=1),
            "labelled": lambda o: o["m"].path_sample(x0=1.0, num_steps=6, label_start="2020-01-01", label_freq="D", random_state=1),
            "base": lambda o: observe(o["base"], 2)}
    bad = {f"indicator fails {n}": failing(n) for n in range(4)}
    bad["fit"] = lambda o: o["m"].fit(prices(0))
    bad["steps"] = lambda o: o["m"].path_sample(num_steps=-2)
    return Group("quasi-random", make, pure, {}, bad)


def split_groups():
    from quantfinlib.train_test_split.kfoldpe import TimeAwareKFold
    from quantfinlib.train_test_split.walk_forward import WalkForward
    G = []
    g1, g2 = np.array([0, 1, 1, 2, 4, 5, 7, 8]), np.array([0, 2, 3, 3, 5, 6, 9, 10, 11, 14])
    dates = pd.DatetimeIndex(pd.Timestamp("2021-03-01") + pd.to_timedelta(g2, unit="D"))
    for name, mk in (("kfold", lambda f: TimeAwareKFold(3, 1, 1, freq=f)), ("kfold forward", lambda f: TimeAwareKFold(3, 1, 0, look_forward=True, freq=f)),
                     ("expanding", lambda f: WalkForward(1, 0, 4, 2, freq=f)), ("rolling", lambda f: WalkForward(1, 0, 4, 2, "rolling", freq=f))):
        for freq in (None, "D"):
            for warm in (False, True):
                def make(mk=mk, freq=freq, warm=warm):
                    cv = mk(freq)
                    o = {"cv": cv, "X1": np.zeros((8, 2)), "X2": pd.DataFrame(np.zeros((10, 1))), "g1": g1.copy(), "g2": g2.copy(), "d": dates.copy(),
                         "s": pd.Series(dates, index=range(10, 0, -1))}
                    if warm:
                        for _ in cv.split(o["X2"], groups=o["d"] if freq else o["g2"]):
                            pass
                    return o
                a, b = ("d", "s") if freq else ("g1", "g2")

                def go(key):
                    return lambda o: [(np.array(tr), np.array(te)) for tr, te in o["cv"].split(o["X1"] if key == "g1" else o["X2"], groups=o[key])]

                def abandon(key, n):
                    def f(o):
                        it = o["cv"].split(o["X1"] if key == "g1" else o["X2"], groups=o[key])
                        return [next(it) for _ in range(n)]
                    return f
                # the number of splits refers to the last completed pass, so it is asked before the passes
                pure = {"count": lambda o: (o["cv"].get_n_splits(), o["cv"].get_n_splits(o["X1"]), o["cv"].get_n_splits(o["X2"], groups=o[b])), f"abandon {b}": abandon(b, 1)}
                # a count after a completed pass is a change of the walk-forward counter
                change = {f"pass {k}": (go(k), lambda o: o["cv"].get_n_splits()) for k in (a, b)}
                unsorted_ = np.array([3, 1, 2, 0, 5, 4, 7, 6])
                bad = {"unsorted": lambda o: list(o["cv"].split(o["X1"], groups=unsorted_)), "short groups": lambda o: list(o["cv"].split(o["X1"], groups=g1[:5])),
                       "no data": lambda o: list(o["cv"].split(None)), "text groups": lambda o: list(o["cv"].split(o["X1"], groups=np.array(list("abcdefgh")))),
                       "one group": lambda o: list(o["cv"].split(o["X1"], groups=np.zeros(8, int))), "two samples": lambda o: list(o["cv"].split(np.zeros((2, 1)), groups=np.array([0, 1]))),
                       "late empty": lambda o: list(o["cv"].split(o["X1"], groups=np.array([0, 1, 2, 3, 4, 50, 51, 52]))),
                       "list X": lambda o: list(o["cv"].split([1, 2, 3]))}

                def flip(o, key=b):
                    cv = o["cv"]
                    if hasattr(cv, "look_forward"):
                        cv.look_forward = not cv.look_forward
                    else:
                        cv.split_type = "expanding" if cv.split_type == "rolling" else "rolling"
                        cv.test_window = cv.test_window + cv.test_window
                    return go(key)(o)

                assign = {"flip": (flip, lambda o: o["cv"].get_n_splits(o["X2"]))}
                G.append(Group(f"{name} freq={freq} warm={warm}", make, pure, change, bad, assign))
    return G


def table(k, m=4, n=24):
    i = np.arange(n)
    return pd.DataFrame({c: np.sin((j + 1.7) * i + k) + 0.4 * (j + k) * np.cos(0.9 * i) for j, c in enumerate("abcdef"[:m])})


def dist(k):
    c = table(k).corr().to_numpy()
    d = np.sqrt(np.maximum(0, (1 - c) / 2))
    np.fill_diagonal(d, 0)
    return d


def cluster_groups():
    from quantfinlib.clustering import HC, gap_statistic, optimize_n_clusters, silhouette_tstat
    G = []
    for lm in ("ward", "centroid", "single"):
        for src in ("X", "corr", "dist"):
            def make(lm=lm, src=src):
                v = {"X": table(0), "corr": table(0).corr(), "dist": dist(0)}[src]
                return {"v": v, "h": HC(**{src: v}, linkage_method=lm)}
            pure = {"clusters 2": lambda o: o["h"].get_clusters(2), "clusters 3": lambda o: o["h"].get_clusters(3), "linkage": lambda o: o["h"].linkage.copy(),
                    "dist": lambda o: o["h"].dist.copy(), "silhouette": lambda o: o["h"].get_optimal_nclusters(max_clust=3, metric="silhouette")}
            bad = {"metric": lambda o: o["h"].get_optimal_nclusters(metric="bogus"), "zero": lambda o: o["h"].get_clusters(0), "many": lambda o: o["h"].get_clusters(99),
                   "text": lambda o: o["h"].get_clusters("a"), "max": lambda o: o["h"].get_optimal_nclusters(max_clust=1, metric="silhouette"),
                   "max 99": lambda o: o["h"].get_optimal_nclusters(max_clust=99, metric="silhouette")}
            G.append(Group(f"clustering {lm} from {src}", make, pure, {}, bad))
    lab = np.array([0, 0, 1, 1])

    def make():
        return {"d": dist(0), "df": pd.DataFrame(dist(1), columns=list("wxyz"), index=list("wxyz")), "lab": lab.copy(), "ls": pd.Series(lab), "link": HC(dist=dist(0)).linkage}
    pure = {"gap": lambda o: gap_statistic(o["d"], o["lab"], nb=2, random_state=5), "gap frame": lambda o: gap_statistic(o["df"], o["ls"], nb=2, random_state=5),
            "silhouette": lambda o: silhouette_tstat(o["d"], o["lab"]), "silhouette frame": lambda o: silhouette_tstat(o["df"], o["ls"]),
            "optimize": lambda o: optimize_n_clusters(linkage=o["link"], dist=o["d"], max_clust=3, metric="silhouette"),
            "optimize gap": lambda o: _quiet(lambda: optimize_n_clusters(linkage=o["link"], dist=o["d"], max_clust=3, metric="gap", nb=2) in (2, 3))}
    bad = {"labels": lambda o: gap_statistic(o["d"], o["lab"][:2], nb=2), "list": lambda o: silhouette_tstat(o["d"].tolist(), o["lab"]),
           "nb": lambda o: gap_statistic(o["d"], o["lab"], nb="x"), "metric": lambda o: optimize_n_clusters(o["link"], o["d"], metric="x"),
           "one label": lambda o: silhouette_tstat(o["d"], o["lab"] * 0)}
    G.append(Group("cluster metrics", make, pure, {}, bad))
    return G


def _quiet(f):
    try:
        return f()
    except IndexError:   # no recommendation within the range
        return True


def distance_groups():
    from quantfinlib.distance import distance_matrix as dm
    from quantfinlib.distance import information as inf
    from quantfinlib.distance import correlation as co
    from quantfinlib.distance import matrix_divergence as md
    G = []

    def make():
        t = table(0)
        return {"t": t, "a": t.to_numpy().copy(), "x": t["a"].copy(), "y": t["b"].to_numpy().copy(), "c": t.corr(),
                "s": np.array([[2.0, 0.3], [0.3, 1.0]]), "r": np.array([[1.0, -0.2], [-0.2, 3.0]])}
    pure = {}
    for n in ("mutual_info", "var_info", "kl_divergence_xy"):
        f = getattr(inf, n)
        pure[n] = lambda o, f=f: f(o["a"][:, 0], o["y"], bins=4)
        pure[n + " default"] = lambda o, f=f: f(o["x"], pd.Series(o["y"]))
    pure["entropies"] = lambda o: inf.compute_entropies(o["a"][:, 0], o["y"], bins=3)
    for n in ("mutual_info", "var_info"):
        pure["matrix " + n] = lambda o, n=n: dm.get_info_distance_matrix(o["t"].iloc[:, :2], method=n)
    pure["corr matrix"] = lambda o: dm.get_corr_distance_matrix(o["t"], corr_method="spearman")
    pure["corr matrix array"] = lambda o: dm.get_corr_distance_matrix(o["a"], corr_to_dist_method="abs_angular")
    pure["corr_to_dist"] = lambda o: dm.corr_to_dist(o["c"], "squared_angular")
    pure["corr_to_dist array"] = lambda o: dm.corr_to_dist(o["c"].to_numpy(), "angular")
    bad = {"method": lambda o: dm.get_info_distance_matrix(o["t"], method="x"), "corr method": lambda o: dm.get_corr_distance_matrix(o["t"], corr_method="x"),
           "dist method": lambda o: dm.corr_to_dist(o["c"], "x"), "list": lambda o: inf.mutual_info([1, 2], o["y"]), "bins": lambda o: inf.var_info(o["x"], o["y"], bins="x"),
           "asymmetric": lambda o: dm.corr_to_dist(np.array([[1, 0.5], [0.1, 1]]), "angular"), "lengths": lambda o: inf.mutual_info(o["x"].to_numpy(), o["y"][:5], bins=3),
           "bins 0": lambda o: inf.compute_entropies(o["x"], o["y"], bins=0)}
    for n in ("log_det_divergence", "von_neuman_divergence"):
        f = getattr(md, n)
        pure[n] = lambda o, f=f: f(o["s"], o["r"])
        bad[n + " indefinite"] = lambda o, f=f: f(o["s"], np.array([[1.0, 2.0], [2.0, 1.0]]))
    for n in ("angular", "abs_angular", "squared_angular"):
        pure["scalar " + n] = lambda o, f=getattr(co, f"corr_to_{n}_dist"): f(0.3)
        pure["pair " + n] = lambda o, f=getattr(co, f"pair_{n}_distance"): f(o["x"].to_numpy(), o["y"])
    G.append(Group("distances", make, pure, {}, bad))
    return G


def feature_groups():
    G = []
    raw = fl.cols_from_close(fl.long_series(30)["walk"])
    for f in fl.FEATURES:
        for ser in (False, True):
            def make(f=f, ser=ser):
                cols = [np.asarray(x, float)[:12].copy() for x in fl.get_cols(raw, f.ins)]
                return {"in": [pd.Series(x, index=pd.date_range("2023-01-02", periods=12)) if ser else x for x in cols]}
            pure = {f"{i}": (lambda o, p=p, f=f: f.call(o["in"], p)) for i, p in enumerate(f.params)}
            bad = {"list": lambda o, f=f: f.call([list(x) for x in o["in"]], f.params[0]), "argument": lambda o, f=f: f.call(o["in"], {"bogus": 1}),
                   "text": lambda o, f=f: f.call(["abc" for _ in o["in"]], f.params[0]), "2-d": lambda o, f=f: f.call([np.ones((4, 2)) for _ in o["in"]], f.params[0])}
            if len(f.ins) > 1:
                bad["mixed"] = lambda o, f=f: f.call([np.asarray(x) if i else pd.Series(np.asarray(x)) for i, x in enumerate(o["in"])], f.params[0])
            for p in f.params[:1]:
                for k in p:
                    if k in ("window", "span", "period"):
                        bad[f"{k} negative"] = lambda o, f=f, p=p, k=k: f.call(o["in"], {**p, k: -1})
                        bad[f"{k} text"] = lambda o, f=f, p=p, k=k: f.call(o["in"], {**p, k: "x"})
            G.append(Group(f"feature {f.name} {'series' if ser else 'array'}", make, pure, {}, bad))
    from quantfinlib.feature import indicators as fi
    for cls in ("BollingerBands", "EwmBollingerBands", "DonchianBands"):
        def make(cls=cls):
            x = pd.Series(np.asarray(raw["c"][:12]).copy())
            return {"x": x, "b": getattr(fi, cls)(x, window=3)}
        G.append(Group(f"bands object {cls}", make, {k: (lambda o, k=k: getattr(o["b"], k)()) for k in ("upper", "lower", "middle", "bandwidth", "percent_b")},
                       assign={"wider": (lambda o: setattr(o["b"], "multiplier", o["b"].multiplier + 1), lambda o: o["b"].upper())}))

    def make():
        return {"c": np.asarray(raw["c"][:8]).copy()}
    G.append(Group("structural break", make, {"test": lambda o: fl.chu_stinchcombe_white_cusum_test(o["c"])},
                   {}, {"text": lambda o: fl.chu_stinchcombe_white_cusum_test("abc"), "none": lambda o: fl.chu_stinchcombe_white_cusum_test(None)}))
    return G


def cov_groups():
    from quantfinlib.math import cov as qc

    def make():
        C = np.cov(table(0).to_numpy().T)
        sd = np.sqrt(np.diag(C))
        R = C / np.outer(sd, sd)
        ev, U = np.linalg.eigh(R)
        return {"C": C, "R": R, "e": ev.copy(), "sd": sd, "ev": ev[::-1].copy(), "U": U[:, ::-1].copy(), "U2": U[:, ::-1].copy()}
    arg = {"_cov_to_cor": "C", "_cor_to_cov": ("R", "sd"), "_cor_to_eig": "R", "_eig_to_cor": ("ev", "U"), "_eig_complete": ("ev", "U2"),
           "_marchenko_pastur_pdf": (1.0, 24, 4, "e"), "_marchenko_pastur_fit": (24, 4, "e"), "_cov_denoise": ("C", 24),
           "_cor_denoise": ("R", 24), "_cor_block_diagonal": ([2, 3], [0.5, 0.3])}
    pure, bad = {}, {}
    for n, a in arg.items():
        f = getattr(qc, n, None)   # not public: only exercised while it is there
        if f is None:
            continue
        a = a if isinstance(a, tuple) else (a,)
        pure[n] = lambda o, f=f, a=a: f(*[o[x] if isinstance(x, str) else x for x in a])
        bad[n + " list"] = lambda o, f=f, a=a: f(*[o[x].tolist() if isinstance(x, str) else x for x in a])
        bad[n + " none"] = lambda o, f=f, a=a: f(*[None for x in a])
    return [Group("covariance", make, pure, {}, bad)]


def loader_groups():
    from quantfinlib import datasets as ds
    from quantfinlib.datasets import _dataloader as dl

    def missing(name, loader):
        def go(o):
            import pathlib
            old = getattr(dl, name)
            setattr(dl, name, pathlib.Path("/nonexistent/none.csv.gz"))
            try:
                return loader()
            finally:
                setattr(dl, name, old)
        return go
    pure, bad = {}, {}
    for n, const in (("load_vix", "VIX_INDEX_LOCAL_PATH"), ("load_treasury_rates", "TREASURY_RATES_LOCAL_PATH"), ("load_equity_indices", "MULTI_INDEX_LOCAL_PATH")):
        f = getattr(ds, n)
        pure[n] = lambda o, f=f: (lambda d: (d.shape, d.columns.tolist(), float(np.nansum(d.to_numpy()))))(f())
        if hasattr(dl, const):
            bad[n + " missing"] = missing(const, f)
    return [Group("data sets", dict, pure, {}, bad)]


def special_groups():
    """complete calls on degenerate but valid data, which take the rarer branches"""
    from quantfinlib.clustering import HC, gap_statistic, silhouette_tstat
    from quantfinlib.distance import distance_matrix as dm
    from quantfinlib.distance import information as inf
    from quantfinlib.distance import correlation as co
    from quantfinlib.distance import matrix_divergence as md
    G = []
    n = 12
    i = np.arange(n, dtype=float)
    series = {"flat": np.full(n, 7.0), "rising": 10 + i, "falling": 50 - 3 * i, "two levels": 5 + (i % 2), "jump": np.where(i < 6, 1.0, 1e6), "sparse": np.where(i % 4, 4.0, 8.0),
              "gap": np.where(i == 5, np.nan, 3 + np.sin(i))}
    pure = {}
    for (a, x) in series.items():
        for (b, y) in series.items():
            for fn in ("mutual_info", "var_info", "kl_divergence_xy"):
                for bins in (None, 1, 3):
                    pure[f"{fn} {a} {b} {bins}"] = lambda o, f=getattr(inf, fn), x=x, y=y, bins=bins: f(x, y, bins=bins)
        for k in ("angular", "abs_angular", "squared_angular"):
            pure[f"pair {k} {a}"] = lambda o, f=getattr(co, f"pair_{k}_distance"), x=x: (f(x, x), f(x, -x), f(x, i))
    tab = pd.DataFrame(series)
    for k in ("pearson", "spearman"):
        pure[f"matrix {k}"] = lambda o, k=k: dm.get_corr_distance_matrix(tab, corr_method=k)
    for m in ("log_det_divergence", "von_neuman_divergence"):
        pure[m] = lambda o, f=getattr(md, m): (f(np.eye(2), np.eye(2)), f(np.eye(1) * 3, np.eye(1)), f(np.diag([1e-3, 1e3]), np.eye(2)), f(np.eye(2), np.diag([1e-4, 1e4])),
                                                              f(np.array([[2.0, 1.9], [1.9, 2.0]]), np.array([[1.0, -0.99], [-0.99, 1.0]])))
    d = np.abs(np.subtract.outer(i[:5], i[:5]))
    for a, lab in (("one", [0] * 5), ("singles", range(5)), ("single", [0, 0, 0, 0, 1]), ("text", list("aabbc"))):
        pure[f"gap {a}"] = lambda o, lab=lab: gap_statistic(d, np.array(list(lab)), nb=2)
        pure[f"gap zero {a}"] = lambda o, lab=lab: gap_statistic(d * 0, np.array(list(lab)), nb=2)
        pure[f"silhouette {a}"] = lambda o, lab=lab: silhouette_tstat(d, np.array(list(lab)))
    for lm in ("ward", "single", "centroid"):
        pure[f"ties {lm}"] = lambda o, lm=lm: [HC(dist=d, linkage_method=lm).get_clusters(k) for k in (1, 3, 5)]
        pure[f"optimum {lm}"] = lambda o, lm=lm: [_quiet(lambda: HC(dist=d, linkage_method=lm).get_optimal_nclusters(max_clust=4, metric=m)) for m in ("gap", "silhouette")]
    G.append(Group("special distances", dict, {k: (lambda o, f=f: accept(f, o)) for k, f in pure.items()}))
    pure = {}
    for a, x in series.items():
        cols = {"c": x, "o": x, "h": x + (a == "sparse"), "l": x, "v": x, "b": x, "s": x * 0 + 1}
        for f in fl.FEATURES:
            for j, p in enumerate(f.params):
                pure[f"{f.name} {j} {a}"] = lambda o, f=f, p=p, cols=cols: f.call([np.array(v, float) for v in fl.get_cols(cols, f.ins)], p)
    G.append(Group("special features", dict, {k: (lambda o, f=f: accept(f, o)) for k, f in pure.items()}))
    pure = {}
    for kind in ("bm", "gbm", "ou"):
        for a, x in series.items():
            pure[f"fit {kind} {a}"] = lambda o, kind=kind, x=x: sl.make(kind, {"drift": 0.1, "mrr": 1.0, "vol": 0.2}).fit(x[:, None].copy(), dt=0.1).path_sample(num_steps=2, random_state=1)
            pure[f"nll {kind} {a}"] = lambda o, kind=kind, x=x: sl.make(kind, {"drift": 0.1, "mrr": 1.0, "vol": 0.2}).nll(x[:, None].copy(), dt=0.1)
        pure[f"zero vol {kind}"] = lambda o, kind=kind: sl.make(kind, {"drift": 0.0, "mrr": 0.0, "vol": 0.0}).path_sample(num_steps=2, random_state=1)
        pure[f"unseeded {kind}"] = lambda o, kind=kind: sl.make(kind, {"drift": 0.1, "mrr": 1.0, "vol": 0.2}).path_sample(num_steps=2).shape
    G.append(Group("special models", dict, {k: (lambda o, f=f: accept(f, o)) for k, f in pure.items()}))
    return {g.name: g for g in G}


def accept(f, o):
    """rejecting degenerate data is fine"""
    try:
        return f(o)
    except Exception as e:  # noqa
        return type(e).__name__


def groups():
    G = []
    for kind in ("bm", "gbm", "ou"):
        for V in (1, 2):
            for state in ("new", "fitted", "fitted array"):
                G.append(model_group(kind, V, state))
    G.append(quasi_group())
    G += split_groups() + cluster_groups() + distance_groups() + cov_groups() + feature_groups() + loader_groups()
    return {g.name: g for g in G}


EXCS = [lambda: KeyboardInterrupt(), lambda: MemoryError(), lambda: RuntimeError("injected"), lambda: Interrupted()]
