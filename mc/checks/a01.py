"""A01: every combination of omitted, named and positional arguments of every public callable against its documented signature."""
from itertools import product

import joblib
import numpy as np
import pandas as pd

import quantfinlib.clustering as qc
import quantfinlib.distance as qd
from quantfinlib.distance import distance_matrix as qdm
import quantfinlib.sim as qs
from quantfinlib.feature import indicators as fi
from quantfinlib.feature import micro_structure as fm
from quantfinlib.math import cov as mcov
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward

ID = "A01"
TECHNIQUE = "exhaustive enumeration of call forms of the real code (all subsets of omitted arguments x all positional prefixes) against the documented signature"
CHUNK = 1
CASE_LIMIT = 300
ASSUMPTIONS = ["the documented signature (names, order, defaults) is the table in this check, taken from the documentation of each callable",
               "unseeded sampling is compared for models without noise; with noise the seed is always given"]
REQ = object()
N = 64


def series(k, vol=0.02):
    i = np.arange(N)
    return pd.Series(30 * np.exp(np.cumsum(vol * np.sin(1.1 * i + k) + 0.5 * vol * np.cos(0.3 * i * i + k))),
                     index=pd.date_range("2022-03-01", periods=N, freq="B"), name="p")


C = series(0)
O = (C.shift(1).fillna(C.iloc[0] * 0.99) * (1 + 0.003 * np.sin(np.arange(N)))).rename("o")
HI = (np.maximum(C, O) * (1.002 + 0.002 * np.cos(2.0 * np.arange(N)))).rename("h")
LO = (np.minimum(C, O) * (0.998 - 0.002 * np.sin(3.0 * np.arange(N)))).rename("l")
VO = (1000 + 300 * np.sin(0.7 * np.arange(N)) + 40 * np.cos(np.arange(N) ** 2)).astype(float)
VO = pd.Series(VO, index=C.index, name="v")
M6 = pd.DataFrame({c: np.sin((0.3 + 0.17 * j) * np.arange(40) + j) + 0.5 * np.cos(0.05 * np.arange(40) ** 2 + (j // 3)) for j, c in enumerate("fbadce")})
M24 = pd.DataFrame({f"k{j}": np.sin((0.3 + 0.17 * (j % 8)) * np.arange(60) + (j // 8)) + 0.3 * np.cos(0.05 * np.arange(60) ** 2 + j) for j in range(26)})
COR3 = np.array([[1.0, 0.5, -0.2], [0.5, 1.0, 0.1], [-0.2, 0.1, 1.0]])
COV3 = COR3 * np.outer([1e-7, 2.0, 0.5], [1e-7, 2.0, 0.5])
COV5 = np.cov(M6.iloc[:, :5].to_numpy(), rowvar=False)
COR5 = np.corrcoef(M6.iloc[:, :5].to_numpy(), rowvar=False)
COR5 = (COR5 + COR5.T) / 2
np.fill_diagonal(COR5, 1.0)
DIST5 = np.sqrt(0.5 * (1 - COR5))


def bands(b):
    return [b.lower(), b.middle(), b.upper(), b.bandwidth(), b.percent_b()]


def splits(s):
    X = pd.DataFrame({"a": np.arange(40.0)}, index=pd.date_range("2021-01-01", periods=40, freq="D"))
    g = np.repeat(np.arange(20), 2)
    out = [[[np.asarray(a).tolist(), np.asarray(b).tolist()] for a, b in s.split(X)], s.get_n_splits(X)]
    try:
        out.append([[np.asarray(a).tolist(), np.asarray(b).tolist()] for a, b in s.split(X.to_numpy(), None, g)])
    except ValueError as e:
        out.append(type(e).__name__)
    return out


def model(m):
    p = [np.asarray(getattr(m, n, None), float) if getattr(m, n, None) is not None else "none" for n in ("drift", "mean", "mrr", "vol", "cor")]
    return p + [m.path_sample(x0=[3.0] * max(np.size(q) for q in p if not isinstance(q, str)), num_steps=3, random_state=4)] if "none" in p[4:] \
        else p + [m.path_sample(x0=[3.0] * len(p[4]), num_steps=3, random_state=4)]


def tree(h):
    return [np.asarray(h.dist), h.linkage, h.get_clusters(3), h.get_clusters(n_clusters=2)]


def same(v):
    return v


SIG = {}


def add(name, f, *params, post=same, fresh=None):
    SIG[name] = (f, params, post, fresh)


def a(name, value):
    return (name, REQ, value)


def o(name, default, other):
    return (name, default, other)


# ---- indicators
for nm in ("rolling_mean", "rolling_std", "rolling_max", "rolling_min", "rolling_mom"):
    add(nm, getattr(fi, nm), a("ts", C), o("window", 20, 7))
for nm in ("ewm_mean", "ewm_std"):
    add(nm, getattr(fi, nm), a("ts", C), o("span", 20, 7))
add("ewm_mom", fi.ewm_mom, a("ts", C), o("span", 20, 7), o("min_periods", 0, 5))
add("average_true_range", fi.average_true_range, a("high", HI), a("low", LO), a("close", C), o("window", 14, 5))
add("macd", fi.macd, a("ts", C), o("fast", 12, 5), o("slow", 26, 11))
add("macd_signal", fi.macd_signal, a("ts", C), o("fast", 12, 5), o("slow", 26, 11), o("signal", 9, 4))
add("rsi", fi.rsi, a("ts", C), o("period", 14, 6))
add("ewm_rsi", fi.ewm_rsi, a("ts", C), o("period", 14, 6))
add("BollingerBands", fi.BollingerBands, a("ts", C), o("window", 20, 6), o("multiplier", 2, 3), post=bands)
add("EwmBollingerBands", fi.EwmBollingerBands, a("ts", C), o("window", 20, 6), o("multiplier", 2, 3), post=bands)
add("KeltnerBands", fi.KeltnerBands, a("high", HI), a("low", LO), a("close", C), o("window_atr", 10, 4), o("window", 20, 6), o("multiplier", 2, 3), post=bands)
add("DonchianBands", fi.DonchianBands, a("ts", C), o("window", 20, 6), post=bands)
add("GenericBands", fi.GenericBands, a("ts", C), a("rolling_mean", C * 0.9), a("rolling_std", C * 0.1), a("multiplier", 2), o("basename", "", "mine"), post=bands)
# ---- market features
for nm, ps in (("get_becker_parkinson_volatility", "hl"), ("get_close_close_volatility", "c"), ("get_cowrin_schultz_spread", "hl"),
               ("get_garman_klass_volatility", "hloc"), ("get_high_low_volatility", "hl"), ("get_rogers_satchell_volatility", "hloc"), ("get_roll_measure", "c"),
               ("get_roll_impact", "cv"), ("get_yang_zhang_volatility", "hloc")):
    add(nm, getattr(fm, nm), *[a({"h": "p_high", "l": "p_low", "o": "p_open", "c": "p_close", "v": "volume"}[k], {"h": HI, "l": LO, "o": O, "c": C, "v": VO}[k])
                               for k in ps], a("window", 7))
add("get_edge_spread", fm.get_edge_spread, a("p_high", HI), a("p_low", LO), a("p_open", O), a("p_close", C), a("window", 9), o("sign", False, True))
for nm, w in (("get_amihud_lambda", 10), ("get_hasbrouck_lambda", 20), ("get_kyle_lambda", 10)):
    add(nm, getattr(fm, nm), a("p_close", C), a("volume", VO), o("window", w, 6))
add("estimate_buy_volume", fm.estimate_buy_volume, a("p_close", C), a("volume", VO), a("sigma_p", C * 0.01))
add("get_vpin", fm.get_vpin, a("volume", VO), a("buy_volume", VO * 0.3 + 10), a("window", 5))
# ---- distances
xa, ya = M6["a"], M6["b"] + 0.5 * M6["a"]
add("compute_entropies", qd.compute_entropies, a("x", xa), a("y", ya), a("bins", 4))
add("kl_divergence_xy", qd.kl_divergence_xy, a("x", xa), a("y", ya), o("bins", None, 3))
add("mutual_info", qd.mutual_info, a("x", xa), a("y", ya), o("bins", None, 3), o("norm", True, False))
add("var_info", qd.var_info, a("x", xa), a("y", ya), o("bins", None, 3), o("norm", True, False))
add("log_det_divergence", qd.log_det_divergence, a("p", COR3), a("q", COR3 + np.eye(3)))
add("von_neuman_divergence", qd.von_neuman_divergence, a("p", COR3), a("q", COR3 + np.eye(3)))
for nm in ("pair_abs_angular_distance", "pair_angular_distance", "pair_squared_angular_distance"):
    add(nm, getattr(qd, nm), a("x", xa.to_numpy()), a("y", ya.to_numpy()))
for nm in ("corr_to_abs_angular_dist", "corr_to_angular_dist", "corr_to_squared_angular_dist"):
    add(nm, getattr(qd, nm), a("corr", COR3))
add("get_corr_distance_matrix", qd.get_corr_distance_matrix, a("X", M6), o("corr_method", "pearson", "spearman"), o("corr_to_dist_method", "angular", "abs_angular"),
    o("corr_transformer", None, lambda c: c * 0.5 + 0.5 * np.eye(len(c))))
add("get_info_distance_matrix", qd.get_info_distance_matrix, a("X", M6), o("method", "var_info", "mutual_info"))
add("info matrix options", lambda bins=REQ, norm=REQ: qd.get_info_distance_matrix(M6, **{k: v for k, v in (("bins", bins), ("norm", norm)) if v is not REQ}),
    o("bins", None, 3), o("norm", True, False))
add("corr_to_dist", qdm.corr_to_dist, a("corr", COR3), o("corr_to_dist_method", "angular", "squared_angular"))
# ---- clustering
for nm, args in (("X", (o("X", None, M6), o("corr", None, None), o("dist", None, None))), ("corr", (o("X", None, None), o("corr", None, COR5), o("dist", None, None))),
                 ("dist", (o("X", None, None), o("corr", None, None), o("dist", None, DIST5)))):
    add(f"HC {nm}", qc.HC, *args, o("codependence_method", "pearson-correlation", "spearman-correlation"), o("corr_to_dist_method", "angular", "abs_angular"),
        o("linkage_method", "ward", "single"), o("optimal_ordering", True, False), post=tree)
H24 = qc.HC(M24)
D24 = np.asarray(H24.dist, float)
add("gap_statistic", qc.gap_statistic, a("dist", D24), a("labels", H24.get_clusters(4)), o("nb", 10, 3), o("random_state", None, 5))
add("silhouette_tstat", qc.silhouette_tstat, a("dist", D24), a("labels", H24.get_clusters(4)))
# distances whose optimum is the 20th cluster: with fewer allowed clusters the answer differs
pt = np.array([100.0 * g + 3.0 * s for g in range(20) for s in range(3)] + [1e4])
P20 = np.abs(np.subtract.outer(pt, pt)) / 1e4
H20 = qc.HC(dist=P20, linkage_method="average")
pt = np.array([100.0 * g + 3.0 * s for g in range(21) for s in range(3)])
P21 = np.abs(np.subtract.outer(pt, pt)) / 1e4
H21 = qc.HC(dist=P21, linkage_method="average")


def vague(n, k):
    """distances without clear groups: the choice depends on the number of bootstrap samples"""
    i = np.arange(n)
    D = np.abs(np.sin((0.37 + 0.11 * k) * np.add.outer(i, i) + 0.3 * np.multiply.outer(i, i)))
    D = (D + D.T) / 2
    np.fill_diagonal(D, 0)
    return qc.HC(dist=D, linkage_method="average"), D


for nm, H_, P_ in (("26 series", H24, D24), ("20 groups and one", H20, P20), ("21 groups", H21, P21), ("vague 20", *vague(20, 29)), ("vague 24", *vague(24, 27))):
    add(f"get_optimal_nclusters {nm}", H_.get_optimal_nclusters, o("max_clust", 20, 6), o("metric", "gap", "silhouette"), o("nb", 10, 3))
    add(f"optimize_n_clusters {nm}", qc.optimize_n_clusters, a("linkage", H_.linkage), a("dist", P_), o("max_clust", 20, 6), o("metric", "gap", "silhouette"), o("nb", 10, 3))
# ---- matrices
add("_cov_to_cor", mcov._cov_to_cor, a("cov", COV3), o("cov_reg", 1e-6, 0.7))
add("_cor_to_eig", mcov._cor_to_eig, a("cor", COR5), o("sort", True, False), o("k", None, 2))
add("_cov_denoise", mcov._cov_denoise, a("cov", COV5), a("num_timesteps", 40), o("k", None, 2))
add("_cor_denoise", mcov._cor_denoise, a("cor", COR5), a("num_timesteps", 40), o("k", None, 2))
add("_cor_to_cov", mcov._cor_to_cov, a("cor", COR3), a("std", np.array([1.0, 2.0, 0.5])))
# ---- splitters
add("TimeAwareKFold", TimeAwareKFold, a("n_folds", 4), a("n_embargo", 2), a("n_purge", 3), o("look_forward", False, True), o("freq", None, "2D"), post=splits)
for nm, tr, te in (("WalkForward", 8, 5),):
    add(f"{nm} windows", WalkForward, a("n_embargo", 2), o("n_purge", 0, 0), a("train_window", tr), a("test_window", te), o("split_type", "expanding", "rolling"),
        o("freq", None, "2D"), post=splits)
    add(nm, WalkForward, a("n_embargo", 2), o("n_purge", 0, 0), o("train_window", 0, tr), o("test_window", 0, te), o("split_type", "expanding", "rolling"),
        o("freq", None, "2D"), post=splits)
# ---- models
add("BrownianMotion", qs.BrownianMotion, o("drift", 0.0, [0.3, 0.2]), o("vol", 0.1, [0.4, 0.2]), o("cor", None, [[1.0, 0.5], [0.5, 1.0]]), post=model)
add("GeometricBrownianMotion", qs.GeometricBrownianMotion, o("drift", 0.0, [0.3, 0.2]), o("vol", 0.1, [0.4, 0.2]), o("cor", None, [[1.0, 0.5], [0.5, 1.0]]), post=model)
add("OrnsteinUhlenbeck", qs.OrnsteinUhlenbeck, o("mean", 0.0, [0.3, 0.2]), o("mrr", 1.0, [3.0, 2.0]), o("vol", 0.1, [0.4, 0.2]), o("cor", None, [[1.0, 0.5], [0.5, 1.0]]), post=model)
add("OrnsteinUhlenbeck one", qs.OrnsteinUhlenbeck, o("mean", 0.0, 0.3), o("mrr", 1.0, 3.0), o("vol", 0.1, 0.4), o("cor", None, None), post=model)
for nm, K_ in (("BrownianMotion one", qs.BrownianMotion), ("GeometricBrownianMotion one", qs.GeometricBrownianMotion)):
    add(nm, K_, o("drift", 0.0, 0.3), o("vol", 0.1, 0.4), o("cor", None, None), post=model)


def signal(x):
    return np.concatenate([[0.0], np.diff(x)])


def quasi(m):
    return [m.path_sample(x0=2.0, num_steps=6, num_paths=2, random_state=3)]


add("QuasiRandom", qs.QuasiRandom, a("tech_ind_func", signal), o("f_signal_vol", 0.1, 0.4), o("base_model", None, qs.BrownianMotion(0.1, 0.2)), post=quasi)
add("QuasiRandom base", qs.QuasiRandom, a("tech_ind_func", signal), o("f_signal_vol", 0.1, 0.4), o("base_model", qs.BrownianMotion(0.0, 0.1), qs.OrnsteinUhlenbeck(1.0, 2.0, 0.2)), post=quasi)

MAKE = {"bm": lambda v: qs.BrownianMotion(0.3, v), "gbm": lambda v: qs.GeometricBrownianMotion(0.3, v), "ou": lambda v: qs.OrnsteinUhlenbeck(0.7, 2.0, v),
        "quasi": lambda v: qs.QuasiRandom(signal, 0.3 * v, qs.BrownianMotion(0.3, v))}
X0 = {"bm": 0.0, "gbm": 100.0, "ou": 0.0, "quasi": 0.0}
PATH = (o("dt", None, 0.3), o("num_steps", 252, 5), o("num_paths", 1, 3), o("label_start", None, "2020-01-31"), o("label_freq", None, "ME"),
        o("columns", None, ["q"]), o("random_state", None, 6), o("include_x0", True, False))
for k, mk in MAKE.items():
    for vol in (0.0, 0.4):
        for fitted in (False, True):
            if fitted and (k == "quasi" or not vol):
                continue
            m = mk(vol)
            if fitted:
                m.fit(C.iloc[:30])
            x0 = o("x0", None, "last" if fitted else 7.0)
            # without noise an unseeded path is determined; with noise the seed is passed in every form
            add(f"{k}.path_sample {'fitted ' if fitted else ''}{'noisy' if vol else 'still'}", m.path_sample, x0, *PATH)
            if not fitted:
                add(f"{k}.path_sample start {'noisy' if vol else 'still'}", m.path_sample, o("x0", X0[k], 7.0), *PATH[:4], o("label_freq", None, None), o("columns", None, None), *PATH[6:])
    if k != "quasi":
        for fn in ("nll", "aic", "bic"):
            add(f"{k}.{fn}", getattr(mk(0.4), fn), a("x", C), o("dt", None, 0.3))
            add(f"{k}.{fn} array", getattr(mk(0.4), fn), a("x", C.to_numpy()), o("dt", 1.0 / 252, 0.3))
        add(f"{k}.fit", lambda *p, _mk=mk, **kw: _mk(0.4).fit(*p, **kw), a("x", C), o("dt", None, 0.3), post=model)
        add(f"{k}.fit array", lambda *p, _mk=mk, **kw: _mk(0.4).fit(*p, **kw), a("x", C.to_numpy()), o("dt", 1.0 / 252, 0.3), post=model)


def BOUNDS(tier):
    return (f"{len(SIG)} signatures ({sum(len(s[1]) for s in SIG.values())} parameters): all assignments of default or other value to the optional parameters, "
            "each called with defaults omitted, all named, all named in reverse order, and with every positional prefix")


def cases(tier):
    for n in SIG:
        if "path_sample" in n:
            for lab in range(8):
                yield {"f": n, "part": lab}
        else:
            yield {"f": n}


def equal(g, w):
    if isinstance(w, (list, tuple)):
        return isinstance(g, (list, tuple)) and len(g) == len(w) and all(equal(p, q) for p, q in zip(g, w))
    if isinstance(w, dict):
        return isinstance(g, dict) and g.keys() == w.keys() and all(equal(g[k], w[k]) for k in w)
    if isinstance(w, (pd.Series, pd.DataFrame)):
        return type(g) is type(w) and g.shape == w.shape and list(g.index) == list(w.index) and \
            (list(g.columns) == list(w.columns) if w.ndim == 2 else g.name == w.name) and np.allclose(g.to_numpy(), w.to_numpy(), rtol=1e-9, atol=1e-12, equal_nan=True)
    if isinstance(w, np.ndarray) and w.dtype.kind in "fiu":
        return isinstance(g, np.ndarray) and g.shape == w.shape and np.allclose(g, w, rtol=1e-9, atol=1e-12, equal_nan=True)
    if isinstance(w, (float, np.floating)):
        return isinstance(g, (float, np.floating, int)) and bool(np.isclose(g, w, rtol=1e-9, atol=1e-12, equal_nan=True))
    return type(g) is type(w) and g == w


def call(f, post, p, kw):
    try:
        with joblib.parallel_config(backend="sequential"):
            return post(f(*p, **kw))
    except Exception as e:  # noqa
        return ("raised", type(e).__name__)


def run(case, ctx):
    name = case["f"]
    f, params, post, _ = SIG[name]
    opt = [i for i, p in enumerate(params) if p[1] is not REQ]
    must = {i for i, p in enumerate(params) if p[0] == "random_state" and "noisy" in name}
    for n, pick in enumerate(product((0, 1), repeat=len(opt))):
        if "part" in case and n % 8 != case["part"]:
            continue
        chosen = {i for i, b in zip(opt, pick) if b}
        if any(i not in chosen for i in must):
            continue
        if "part" in case and any(params[i][1] is params[i][2] for i in chosen):
            continue
        val = {i: (p[2] if p[1] is REQ or i in chosen else p[1]) for i, p in enumerate(params)}
        given = {i for i in val if params[i][1] is REQ or i in chosen}
        full = {params[i][0]: val[i] for i in val}
        want = call(f, post, (), full)
        ctx.step()
        forms = [("defaults omitted", (), {params[i][0]: val[i] for i in given}), ("named in reverse", (), dict(reversed(list(full.items()))))]
        for k in range(1, len(params) + 1):
            forms.append((f"first {k} by position", tuple(val[i] for i in range(k)), {params[i][0]: val[i] for i in given if i >= k}))
        for tag, p, kw in forms:
            got = call(f, post, p, kw)
            ctx.step()
            ctx.trace()
            if not equal(got, want):
                ctx.fail(f"{name}", f"{tag}; not default: {[params[i][0] for i in sorted(given)]}: {str(got)[:300]} instead of {str(want)[:300]}")
                break
        ctx.state(name, pick)
        ctx.outcome("rejected" if isinstance(want, tuple) and len(want) == 2 and isinstance(want[0], str) else "answered")
    ctx.sample({"signature": name, "parameters": [p[0] for p in params]})
