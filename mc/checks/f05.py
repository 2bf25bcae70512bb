"""F05: change of unit."""
from itertools import product

import numpy as np

from mc import featlib as fl

ID = "F05"
CHUNK = 1
CASE_LIMIT = 300
ASSUMPTIONS = ["equality up to rounding (1e-6 relative; shifting costs digits in proportion to the shift)",
               "a price-deviation input scales with prices, a buy-volume input with volume"]
PS = [1e-9, 3.7, 100.0, 1e9]
VS = [1e-10, 7.0, 1e10]


def BOUNDS(tier):
    return (f"every feature x price factors {PS} x volume factors {VS} x shifts and mirrors on all close series of length 5 (6) "
            "over 4 levels, all OHLC series of 3 bars over 3 levels, all volume series of length 4, and 11 structured series")


def cases(tier):
    q = tier == "quick"
    for s in product(range(4), repeat=2):
        yield {"t": "close", "pre": list(s), "n": 4 if q else 6}
    for b in range(20):
        yield {"t": "bars", "pre": [b], "n": 3, "q": q}
    for b in product(range(6), repeat=2):
        yield {"t": "vol", "pre": list(b), "n": 3 if q else 5}
    for name in fl.long_series():
        for f in [g.name for g in fl.FEATURES] + ["cusum"]:
            yield {"t": "long", "s": name, "f": f, "n": 40 if q else 200}


def near(g, w, f, k, scale):
    g, w = np.asarray(g, float), np.asarray(w, float)
    if f is not None and f.sq:
        g, w, scale = g * np.abs(g), w * np.abs(w), scale * scale * 1e-2
    m = np.isnan(g) == np.isnan(w)
    ok = np.isnan(w) | (np.abs(g - w) <= 1e-6 * np.abs(w) + 1e-8 * scale) | (np.isinf(w) & (g == w))
    if (m & ok).all():
        return None
    t = int(np.argmin(m & ok))
    return f"at {t}: {g[t]} against {w[t]}"


def ev(f, d, prm):
    return {k: np.asarray(v, float) for k, v in f.call(fl.get_cols(d, f.ins), prm).items()}


def mag(x):
    v = np.abs(x[np.isfinite(x)])
    return float(v.max()) if len(v) else 0.0


def ill(f, d, prm):
    """rows on which the edge spread is numerically undetermined"""
    if f.name != "get_edge_spread":
        return None
    r = f.reference(fl.get_cols(d, f.ins), prm)["value"]
    return np.array([v is fl.ILL for v in r])


def check(ctx, f, d, prm, tag, full=True):
    base = ev(f, d, prm)
    ctx.step()
    skip = ill(f, d, prm)
    if skip is not None and skip.any():
        base = {k: np.where(skip, np.nan, v) for k, v in base.items()}

    def scaled(pf, vf):
        return {k: x * (pf if k in fl.PRICE else vf if k in fl.VOLUME else 1) for k, x in d.items()}

    for pf, vf in [(p, 1.0) for p in (PS if full or f.name != "get_edge_spread" else PS[1:2] + PS[3:])] + ([(1.0, v) for v in VS] + [(3.7, 7.0)] if "v" in f.ins else []):
        got = ev(f, scaled(pf, vf), prm)
        ctx.step()
        ctx.trace()
        for k in base:
            g = got[k] if skip is None else np.where(skip, np.nan, got[k])
            w = base[k] * pf ** f.deg(k) * vf ** f.dv
            sc = mag(w)
            if f.deg(k) == 1 and "c" in d:
                sc = max(sc, float(np.max(np.abs(d["c"]))) * pf * vf ** f.dv)
            if k == "percent_b":
                sc = max(sc, 1.0)
            if f.sq and f.deg(k) <= 0:  # root of a sum of products of log returns that may cancel
                lr = np.log(max(np.max(d[x]) for x in "ohlc" if x in d) / min(np.min(d[x]) for x in "ohlc" if x in d))
                if f.deg(k) < 0:
                    lr = lr / np.min(d["c"] * d["v"]) * pf ** f.deg(k) * vf ** f.dv
                sc = max(sc, lr)
            bad = near(g, w, f, k, max(sc, 1e-300) if f.deg(k) or f.dv else max(sc, 1e-3))
            if bad:
                ctx.fail(f"scale:{f.name}", f"{f.name}.{k} {prm} on {tag}: prices x {pf}, volumes x {vf}: {bad}")
                return
    if not full:
        return
    level = 2.0 ** round(np.log2(np.mean(d["c"]))) if "c" in d else 1.0
    for sh in (level, 64.0 * level):
        if f.shift is None:
            break
        e = {k: x + sh if k in "ohlc" else x for k, x in d.items()}
        got = ev(f, e, prm)
        ctx.step()
        ctx.trace()
        for k in base:
            if f.sh(k) is None:
                continue
            w = base[k] + (sh if f.sh(k) == "shift" else 0)
            sc = max(mag(w), float(np.max(np.abs(e["c"]))) if f.deg(k) == 1 else 1.0)
            if k == "percent_b" or f.name in ("rsi", "ewm_rsi"):
                dev = np.abs(np.diff(d["c"]))
                if len(dev[dev > 0]) and dev[dev > 0].min() < 1e-5 * sh:
                    continue
            bad = near(got[k], w, f, k, sc * 10)
            if bad:
                ctx.fail(f"shift:{f.name}", f"{f.name}.{k} {prm} on {tag}: prices + {sh}: {bad}")
                return
    if f.mirror is None:
        return
    c = d["c"]
    K = float(np.max(c) + np.min(c))
    got = ev(f, {"c": K - c}, prm)
    ctx.step()
    ctx.trace()
    for k in base:
        m = f.mirror[k] if isinstance(f.mirror, dict) else f.mirror
        if m is None:
            continue
        w = {"level": lambda: K - base[k], "same": lambda: base[k], "neg": lambda: -base[k], "hundred": lambda: 100 - base[k],
             "lower": lambda: K - base.get("lower"), "upper": lambda: K - base.get("upper"),
             "middle": lambda: K - base.get("middle"), "one-minus": lambda: 1 - base[k]}[m]()
        bad = near(got[k], w, f, k, max(mag(w), K if f.deg(k) == 1 else 1.0) * 10)
        if bad:
            ctx.fail(f"mirror:{f.name}", f"{f.name}.{k} {prm} on {tag}: mirrored prices: {bad}")
            return


def run(case, ctx):
    if case["t"] == "close":
        fs = [f for f in fl.FEATURES if f.ins == "c"]
        L = [1.0, 2.0, 3.0, 5.0]
        for rest in product(range(4), repeat=case["n"] - 2):
            c = np.array([L[v] for v in case["pre"] + list(rest)])
            for f in fs:
                for prm in f.params[-2:]:
                    check(ctx, f, {"c": c}, prm, c.tolist())
            mx = np.asarray(fl.fi.rolling_max(c, 2))
            mn = np.asarray(fl.fi.rolling_min(6 - c, 2))
            if not np.allclose(mx, 6 - mn, equal_nan=True):
                ctx.fail("mirror:extremes", f"rolling_max of {c.tolist()} is not the mirrored rolling_min")
            S, C = fl.chu_stinchcombe_white_cusum_test(c)
            for p in (0.5, 4096.0):
                S2, C2 = fl.chu_stinchcombe_white_cusum_test(c * p)
                if not np.allclose(S, S2, equal_nan=True, atol=1e-8):
                    ctx.fail("scale:cusum", f"{c.tolist()} x {p}: {S2.tolist()} against {S.tolist()}")
            ctx.step(5)
            ctx.state(tuple(c))
        ctx.sample({"series": c.tolist()})
        return
    if case["t"] == "bars":
        B = fl.bars([1.0, 2.0, 3.0])
        fs = [f for f in fl.FEATURES if set(f.ins) <= set("ohlc") and f.ins != "c"]
        for i, rest in enumerate(product(range(20), repeat=2)):
            seq = [B[j] for j in case["pre"] + list(rest)]
            d = {k: np.array([b[j] for b in seq]) for j, k in enumerate("ohlc")}
            for f in fs:
                if f.name == "get_edge_spread" and case["q"] and i % 3:
                    continue
                check(ctx, f, d, f.params[i % len(f.params)], f"bars (o,h,l,c) {seq}", full=not case["q"] or i % 4 == 0)
            ctx.state(tuple(seq))
        ctx.sample({"bars": seq})
        return
    if case["t"] == "vol":
        A = list(product((1.0, 2.0, 3.0), (1.0, 4.0)))
        fs = [f for f in fl.FEATURES if "v" in f.ins]
        for rest in product(range(6), repeat=case["n"] - 2):
            seq = [A[i] for i in case["pre"] + list(rest)]
            c = np.array([a[0] for a in seq])
            v = np.array([a[1] for a in seq])
            d = {"c": c, "v": v, "s": np.where(v > 2, 0.5, 2.0), "b": v * (c - 1) / 2}
            for f in fs:
                for prm in f.params:
                    check(ctx, f, d, prm, f"(close, volume) {seq}")
            ctx.state(tuple(seq))
        ctx.sample({"close_volume": seq})
        return
    c = fl.long_series(case["n"])[case["s"]]
    if case["f"] == "cusum":
        S, C = fl.chu_stinchcombe_white_cusum_test(c)
        for p in PS:
            S2, C2 = fl.chu_stinchcombe_white_cusum_test(c * p)
            ctx.step()
            if not np.allclose(S, S2, equal_nan=True, atol=1e-6) and mag(S) < 1e6:
                ctx.fail("scale:cusum", f"{case['s']} x {p}: {S2.tolist()} against {S.tolist()}")
        ctx.trace()
        ctx.state(case["s"], "cusum")
        return
    f = fl.BY[case["f"]]
    d = fl.cols_from_close(c)
    for prm in f.params + ([f.default] if f.default else []):
        check(ctx, f, d, prm, case["s"])
        ctx.state(case["s"], f.name, str(prm))
