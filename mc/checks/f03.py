"""F03: bounds of bounded features on all valid inputs."""
from itertools import product

import numpy as np

from mc import featlib as fl
from mc.checks import f04

ID = "F03"
CHUNK = 1
CASE_LIMIT = 300
ASSUMPTIONS = ["bounds hold up to rounding: 1e-9 relative to the largest magnitude of the series",
               "valid inputs: positive prices with low <= open, close <= high, positive volume, buy volume within 0..volume, "
               "positive price deviation"]

LEV = [1.0, 2.0, 3.0, 50.0]


def BOUNDS(tier):
    return ("all close series of length 7 (8) over 3 levels with a 50-fold jump, all OHLC series of 3 bars over 3 levels and 4 (5) "
            "over 2, all (close, volume, buy, deviation) series of length 4; structured series of 60 (300) rows x windows; "
            "flat, jumping and recovering windows included")


def cases(tier):
    q = tier == "quick"
    for s in product(range(3), repeat=3):
        yield {"t": "close", "pre": list(s), "n": 6 if q else 8}
    for b in range(20):
        yield {"t": "bars", "lev": 3, "pre": [b], "n": 3}
    for b in product(range(6), repeat=2):
        yield {"t": "bars", "lev": 2, "pre": list(b), "n": 4 if q else 6}
    for b in product(range(6), repeat=2):
        yield {"t": "vol", "pre": list(b), "n": 4 if q else 6}
    for name in fl.long_series():
        for f in fl.FEATURES:
            yield {"t": "long", "s": name, "f": f.name, "n": 60 if q else 300}


NONNEG = {"rolling_std", "ewm_std", "average_true_range", "get_close_close_volatility", "get_high_low_volatility",
          "get_garman_klass_volatility", "get_rogers_satchell_volatility", "get_yang_zhang_volatility",
          "get_becker_parkinson_volatility", "get_cowrin_schultz_spread", "get_roll_measure", "get_roll_impact",
          "get_kyle_lambda", "get_amihud_lambda", "get_hasbrouck_lambda"}
BANDS = {"BollingerBands", "EwmBollingerBands", "KeltnerBands", "DonchianBands"}
BOUNDED = NONNEG | BANDS | {"rsi", "ewm_rsi", "get_vpin", "estimate_buy_volume", "get_edge_spread", "rolling_max", "rolling_min",
                            "rolling_mean", "ewm_mean"}


def check(ctx, f, d, prm, tag):
    if f.name not in BOUNDED:
        return
    out = {k: np.asarray(v, float) for k, v in f.call(fl.get_cols(d, f.ins), prm).items()}
    ctx.step()
    ctx.trace()
    with np.errstate(all="ignore"):
        v = out.get("value")
        bad = None
        if any(np.isinf(x).any() for k, x in out.items()):
            bad = "infinite value"
        elif f.name in ("rsi", "ewm_rsi"):
            if np.nanmin(v, initial=0) < 0 or np.nanmax(v, initial=0) > 100 * (1 + 1e-12):
                bad = f"outside 0..100: {v.tolist()}"
        elif f.name == "get_vpin":
            if np.nanmin(v, initial=0) < -1e-12 or np.nanmax(v, initial=0) > 1 + 1e-9:
                bad = f"outside 0..1: {v.tolist()}"
        elif f.name == "estimate_buy_volume":
            if np.any(v < 0) or np.any(v > d["v"] * (1 + 1e-12)):
                bad = f"outside 0..volume: {v.tolist()}"
        elif f.name == "get_edge_spread":
            if not prm.get("sign") and np.nanmin(v, initial=0) < 0:
                bad = f"negative: {v.tolist()}"
        elif f.name in BANDS:
            sc = 1e-9 * max(1e-300, np.nanmax(np.abs(out["upper"]), initial=0))
            lo, mi, up = out["lower"], out["middle"], out["upper"]
            if np.any(lo > mi + sc) or np.any(mi > up + sc):
                bad = f"lower {lo.tolist()} middle {mi.tolist()} upper {up.tolist()}"
            if f.name == "DonchianBands" and (np.any(d["c"] > up + sc) or np.any(d["c"] < lo - sc)):
                bad = f"series leaves its channel: {lo.tolist()} {up.tolist()}"
            if f.name == "DonchianBands" and (np.any(out["percent_b"] < -1e-9) or np.any(out["percent_b"] > 1 + 1e-9)):
                bad = f"%B of the channel outside 0..1: {out['percent_b'].tolist()}"
            if np.any(out["bandwidth"] < -1e-9):
                bad = f"negative bandwidth {out['bandwidth'].tolist()}"
        elif f.name in NONNEG:
            sc = 1e-9 * np.nanmax(np.abs(v), initial=0)
            if f.name == "get_close_close_volatility":  # variance of ratios: rounding is relative to the largest ratio
                sc += 1e-12 * np.max(d["c"][1:] / d["c"][:-1]) ** 2
            elif f.name in ("rolling_std", "ewm_std"):
                sc = 0.0
            if np.any(v < -sc):
                bad = f"negative: {v.tolist()}"
            if f.name == "get_cowrin_schultz_spread" and np.any(v >= 2):
                bad = f"spread of 2 or more: {v.tolist()}"
        else:  # averages and extremes lie within the range of the series so far
            c = d["c"]
            sc = 1e-9 * np.max(np.abs(c))
            if np.any(v > np.maximum.accumulate(c) + sc) or np.any(v < np.minimum.accumulate(c) - sc):
                bad = f"outside the range of the series: {v.tolist()}"
    if bad:
        ctx.fail(f.name, f"{f.name} {prm} on {tag}: {bad}")


def run(case, ctx):
    if case["t"] == "close":
        fs = [f for f in fl.FEATURES if f.ins == "c"]
        L = [1.0, 3.0, 50.0]
        for rest in product(range(3), repeat=case["n"] - 3):
            c = np.array([L[v] for v in case["pre"] + list(rest)])
            for f in fs:
                for prm in f.params:
                    check(ctx, f, {"c": c}, prm, c.tolist())
            ctx.state(tuple(c))
        ctx.sample({"series": c.tolist()})
        return
    if case["t"] == "bars":
        B = fl.bars([1.0, 2.0, 50.0][:case["lev"]])
        fs = [f for f in fl.FEATURES if set(f.ins) <= set("ohlc") and f.ins != "c"]
        for rest in product(range(len(B)), repeat=case["n"] - len(case["pre"])):
            seq = [B[i] for i in case["pre"] + list(rest)]
            d = {k: np.array([b[j] for b in seq]) for j, k in enumerate("ohlc")}
            for f in fs:
                for prm in f.params:
                    check(ctx, f, d, prm, f"bars (o,h,l,c) {seq}")
            ctx.state(tuple(seq))
        ctx.sample({"bars": seq})
        return
    if case["t"] == "vol":
        A = list(product((1.0, 2.0, 60.0), (1.0, 40.0)))
        fs = [f for f in fl.FEATURES if "v" in f.ins]
        for rest in product(range(6), repeat=case["n"] - len(case["pre"])):
            seq = [A[i] for i in case["pre"] + list(rest)]
            c = np.array([a[0] for a in seq])
            v = np.array([a[1] for a in seq])
            for frac in (0.0, 0.5, 1.0, None):
                d = {"c": c, "v": v, "s": np.where(v > 2, 1e-3, 20.0), "b": v * (np.minimum(c - 1, 1) if frac is None else frac)}
                for f in fs:
                    if frac not in (None,) and "b" not in f.ins:
                        continue
                    for prm in f.params:
                        check(ctx, f, d, prm, f"(close, volume) {seq} buy {d['b'].tolist()}")
            ctx.state(tuple(seq))
        ctx.sample({"close_volume": seq})
        return
    f = fl.BY[case["f"]]
    d = fl.cols_from_close(fl.long_series(case["n"])[case["s"]])
    for prm in f.params + ([f.default] if f.default else []) + [{k: 5 for k in f.params[0] if k in ("window", "period", "span")}]:
        if not prm and f.name != "estimate_buy_volume":
            continue
        if f.name == "get_edge_spread" and "window" not in prm:
            continue
        check(ctx, f, d, prm, case["s"])
        ctx.state(case["s"], f.name, str(prm))
