"""F01: no feature uses future data; window features forget what is older than their window."""
from itertools import product

import numpy as np
import pandas as pd

from mc import featlib as fl

ID = "F01"
CHUNK = 1
CASE_LIMIT = 300
ASSUMPTIONS = [
    "equality up to rounding (1e-9 relative to the magnitudes in play; 1e-7 for forgetting older rows, because running sums "
    "keep rounding residue)",
    "inputs up to the time in question are valid or missing (NaN in one input or in all), what follows is arbitrary (missing, zero, negative, huge, reordered)",
]


def BOUNDS(tier):
    return ("every feature and window x every cut time of every structured series (24 or 40 rows) x 9 kinds of future, and every "
            "small-alphabet series of length 5-6 (close), 3 bars over 3 levels (OHLC), 4 rows (volume) x all futures of one or "
            "two rows from the alphabet plus missing; every run of missing rows ending at rows 0..9 (one row, two rows, from the start) in "
            "one input or all; arrays and date-indexed series")


def cases(tier):
    q = tier == "quick"
    names = list(fl.long_series(24))
    for f in [g.name for g in fl.FEATURES] + ["cusum"]:
        for s in (names if not q else names[:1] + names[3:4] + names[5:10]):
            yield {"t": "long", "f": f, "s": s, "n": 24 if q else 60, "pd": False}
        yield {"t": "long", "f": f, "s": "walk", "n": 20, "pd": True}
        for pre in range(3):
            yield {"t": "small", "f": f, "pre": pre, "n": 4 if q else 5}
        if f != "cusum":
            for j in range(0, 10, 1 if not q or f != "get_edge_spread" else 3):
                yield {"t": "holes", "f": f, "j": j, "n": 11 if q else 16}


FUT = ["cut", "nan", "zero", "neg", "huge", "tiny", "const", "reverse", "inf"]


def future(d, t, kind):
    out = {}
    for k, x in d.items():
        y = np.array(x, float)
        m = len(y) - t - 1
        if kind == "nan":
            y[t + 1:] = np.nan
        elif kind == "inf":
            y[t + 1:] = np.inf
        elif kind == "zero":
            y[t + 1:] = 0
        elif kind == "neg":
            y[t + 1:] = -y[t + 1:]
        elif kind == "huge":
            y[t + 1:] = 1e5 * y[t + 1:] * (1 + np.arange(m) % 3)
        elif kind == "tiny":
            y[t + 1:] = 1e-5 * y[t + 1:] * (1 + np.arange(m) % 2)
        elif kind == "const":
            y[t + 1:] = y[t]
        elif kind == "reverse":
            y[t + 1:] = y[:m] if m <= t + 1 else np.resize(y[:t + 1], m)
        out[k] = y
    return out


def evaluate(name, d, prm, as_pd):
    if name == "cusum":
        S, C = fl.chu_stinchcombe_white_cusum_test(np.asarray(d["c"], float))
        return {"S": np.asarray(S), "crit": np.asarray(C)}
    f = fl.BY[name]
    xs = fl.get_cols(d, f.ins)
    if as_pd:
        n = len(xs[0])
        idx = pd.date_range("2021-01-01", periods=n)
        xs = [pd.Series(x, index=idx) for x in xs]
    return {k: np.asarray(v, float) for k, v in f.call(xs, prm).items()}


def near(a, b, tol, scale):
    if np.isnan(a) and np.isnan(b):
        return True
    if np.isinf(a) and a == b:
        return True
    return abs(a - b) <= tol * max(scale, abs(a), abs(b))


def mags(name, d, full, out):
    """Magnitude against which rounding is judged."""
    v = full[np.isfinite(full)]
    m = float(np.max(np.abs(v))) if len(v) else 1.0
    return m


ROOT = {"rolling_std", "ewm_std", "get_roll_measure", "get_roll_impact", "get_becker_parkinson_volatility",
        "get_cowrin_schultz_spread", "get_edge_spread"}


def check(ctx, name, d, prm, as_pd, futures, tag):
    full = evaluate(name, d, prm, as_pd)
    n = len(d["c"])
    ctx.step()
    for t in range(n):
        for kind in futures:
            if kind == "cut":
                e = {k: x[:t + 1] for k, x in d.items()}
            elif isinstance(kind, str):
                if t == n - 1:
                    continue
                e = future(d, t, kind)
            try:
                r = evaluate(name, e, prm, as_pd)
            except Exception as ex:
                if kind == "cut" and t < 1:
                    continue
                ctx.fail("raises", f"{name} {prm} on {tag}: raised {type(ex).__name__} when what follows {t} is '{kind}': {ex}")
                return
            ctx.step()
            for k in full:
                sc = mags(name, d, full[k], k)
                a, b = full[k][:t + 1], r[k][:t + 1]
                bad = [i for i in range(t + 1) if not near(a[i], b[i], 1e-9, sc)] if len(b) == t + 1 else [-1]
                if bad:
                    i = bad[0]
                    ctx.fail(f"lookahead:{name}", f"{name}.{k} {prm} on {tag}: value at {i} is {a[i]}, but {b[i]} when what "
                             f"follows {t} is '{kind}'")
                    return
        ctx.trace()
    if name == "cusum" or tag.startswith("holes"):
        return
    f = fl.BY[name]
    if f.mem is None or not prm and name != "estimate_buy_volume":
        return
    M = f.mem(prm)
    for t in range(M - 1, n):
        lo = t - M + 1
        variants = [{k: x[lo:t + 1] for k, x in d.items()}]
        if lo > 0:
            variants.append({k: np.concatenate([x[:lo] * 3 + 1 if k not in "vb" else x[:lo] * 2, x[lo:t + 1]]) for k, x in d.items()})
            variants.append({k: np.concatenate([np.full(lo, np.nan), x[lo:t + 1]]) for k, x in d.items()})
        for e in variants:
            r = evaluate(name, e, prm, as_pd)
            ctx.step()
            for k in full:
                a, b = full[k][t], r[k][-1]
                sc = max(mags(name, d, full[k], k), mags(name, d, r[k], k))
                tol = 1e-5 if name in ROOT or k in ("percent_b", "bandwidth", "upper", "lower") else 1e-7
                if not near(a, b, tol, sc):
                    ctx.fail(f"memory:{name}", f"{name}.{k} {prm} on {tag}: value at {t} is {a}, but {b} when rows before {lo} "
                             f"change")
                    return
        ctx.trace()


def run(case, ctx):
    name = case["f"]
    f = fl.BY.get(name)
    if case["t"] == "long":
        d = fl.cols_from_close(fl.long_series(case["n"])[case["s"]])
        prms = [{}] if f is None else list(f.params)
        if f is not None and name not in ("get_edge_spread",):
            prms.append({k: 7 for k in f.params[0] if k in ("window", "period", "span")} or f.params[0])
        for prm in prms:
            check(ctx, name, d, prm, case["pd"] and f is not None, FUT, case["s"])
            ctx.state(name, case["s"], str(prm), case["pd"])
        ctx.sample(case)
        return
    if case["t"] == "holes":
        # missing values in the past: in one input or in all, one row, two rows, or from the start
        j = case["j"]
        for series in ("walk", list(fl.long_series(24))[3]):
            base = fl.cols_from_close(fl.long_series(24)[series])
            base = {k: np.array(x[:case["n"]], float) for k, x in base.items()}
            keys = sorted(set(f.ins)) if not isinstance(f.ins, str) else sorted(set(f.ins))
            for cols in [(k,) for k in keys] + ([tuple(keys)] if len(keys) > 1 else []):
                for lo in sorted({j, max(0, j - 1), 0}):
                    d = {k: x.copy() for k, x in base.items()}
                    for k in cols:
                        d[k][lo:j + 1] = np.nan
                    for prm in f.params[:2]:
                        check(ctx, name, d, prm, case["f"] != "get_edge_spread" and j % 2 == 1, ["cut", "nan", "huge", "reverse"], f"holes in {''.join(cols)} {lo}..{j} of {series}")
                        ctx.state(name, "holes", cols, lo, j, str(prm), series)
        return
    n = case["n"]
    L = [1.0, 2.0, 3.0]
    for rest in product(range(3), repeat=n - 1):
        c = np.array([L[v] for v in (case["pre"],) + rest])
        i = np.arange(n)
        d = {"c": c, "o": np.roll(c, 1), "v": 1 + (c * (i + 2)) % 3, "s": 0.5 + (c * i) % 2}
        d["h"] = np.maximum(np.maximum(c, d["o"]), 1 + (i + case["pre"]) % 3)
        d["l"] = np.minimum(np.minimum(c, d["o"]), 1 + (i * 2) % 3)
        d["b"] = d["v"] / c
        for prm in ([{}] if f is None else f.params):
            check(ctx, name, d, prm, False, ["cut", "nan", "huge"], f"close {c.tolist()}")
        ctx.state(name, tuple(c))
