"""F04: every feature equals its definition evaluated directly."""
from itertools import product

import numpy as np

from mc import featlib as fl

ID = "F04"
CHUNK = 1
CASE_LIMIT = 300
ASSUMPTIONS = [
    "the definitions are the cited ones as parameterised by the library: exponential averages with adjusted weights, "
    "unbiased deviations, the first price change counted as zero in relative strength, alpha = 1/window in the true range",
    "Yang-Zhang uses the library's own decomposition (mean squares of overnight and open-to-open-lagged close returns)",
    "edge-spread windows whose weights are numerically undetermined (zero variance of both moments) are skipped",
    "inputs are valid: positive prices, low <= open, close <= high, positive volume",
]


def BOUNDS(tier):
    return ("all close series of length 1..7 (quick) or 8 over 3 levels and of length 5 (6) over 4 levels; all OHLC series of "
            "3 bars over 3 levels and of 5 (quick: 4) bars over 2 levels, also with levels one tick apart; all (close, volume, ...) series of length 4 over "
            "3 x 2 values; 11 structured series of 60 (quick) or 300 rows, and of 700 rows with windows up to 350; all features, several windows, defaults")


def cases(tier):
    q = tier == "quick"
    for n in range(1, 3):
        for s in fl.product(range(3), repeat=n):
            yield {"t": "close", "pre": list(s), "n": n, "lev": 3}
    for n in range(3, 8 if q else 9):
        for s in product(range(3), repeat=2):
            yield {"t": "close", "pre": list(s), "n": n, "lev": 3}
    for s in product(range(4), repeat=2):
        yield {"t": "close", "pre": list(s), "n": 5 if q else 7, "lev": 4}
    for b in range(20):
        yield {"t": "bars", "lev": 3, "pre": [b], "n": 3}
    for b in product(range(6), repeat=2):
        yield {"t": "bars", "lev": 2, "pre": list(b), "n": 4 if q else 6}
    ticks = [50000.0, 50000.01, 50000.03], [1.1, 1.10001, 1.10002]  # moves of one tick
    for j, lv in enumerate(ticks):
        if j or not q:
            for b in range(20):
                yield {"t": "bars", "lev": 3, "pre": [b], "n": 3, "tick": lv}
        for b in product(range(6), repeat=2):
            yield {"t": "bars", "lev": 2, "pre": list(b), "n": 3 if q and j else 4 if q else 5, "tick": lv}
    for b in product(range(6), repeat=2):
        yield {"t": "vol", "pre": list(b), "n": 4 if q else 6}
    for name in fl.long_series():
        for f in fl.FEATURES:
            yield {"t": "long", "s": name, "f": f.name, "n": 60 if q else 300}
    for name in fl.long_series():
        yield {"t": "cusum-long", "s": name, "n": 60 if q else 300}
    for name in ("walk", "spike") if q else fl.long_series():
        for f in fl.FEATURES:
            yield {"t": "long", "s": name, "f": f.name, "n": 700, "up": [17, 70]}
    yield {"t": "cusum-long", "s": "walk", "n": 700}


LEV = [1.0, 2.0, 3.0, 5.0]


def check(ctx, f, inputs, prm, tag, scale=1.0, rtol=1e-7):
    got = f.call(inputs, prm)
    want = f.reference(inputs, prm)
    ctx.step()
    ctx.trace()
    for k in want:
        bad = fl.compare(got[k], want[k], f.sq, rtol, scale)
        if bad:
            ctx.fail(f"{f.name}", f"{f.name}.{k} {prm} on {tag}: {bad}")


def check_cusum(ctx, y, tag):
    S, C = fl.chu_stinchcombe_white_cusum_test(np.array(y, float))
    rS, rC = fl.r_cusum(list(map(float, y)))
    ctx.step()
    ctx.trace()
    bad = fl.compare(S, rS)
    if bad:
        ctx.fail("cusum", f"statistic on {tag}: {bad}")
    for t in range(len(y)):
        if rC[t] is not None and not any(abs(C[t] - v) < 1e-9 for v in rC[t]):
            ctx.fail("cusum-critical", f"critical value on {tag} at {t}: {C[t]}, expected {rC[t]}")
            break


def run(case, ctx):
    if case["t"] == "close":
        n, pre = case["n"], case["pre"]
        fs = [f for f in fl.FEATURES if f.ins == "c"]
        for rest in product(range(case["lev"]), repeat=n - len(pre)):
            c = [LEV[v] for v in pre + list(rest)]
            x = np.array(c)
            for f in fs:
                for prm in f.params:
                    check(ctx, f, [x], prm, c)
            check_cusum(ctx, c, c)
            ctx.state(tuple(c))
        ctx.sample({"series": c})
        return
    if case["t"] == "bars":
        tick = case.get("tick")
        B = fl.bars((tick or LEV)[:case["lev"]])
        sc = 1.0 if not tick else 30 * float(np.log(tick[2] / tick[0]))
        fs = [f for f in fl.FEATURES if set(f.ins) <= set("ohlc") and f.ins != "c"]
        for rest in product(range(len(B)), repeat=case["n"] - len(case["pre"])):
            seq = [B[i] for i in case["pre"] + list(rest)]
            d = {k: np.array([b[j] for b in seq]) for j, k in enumerate("ohlc")}
            for f in fs:
                for prm in f.params:
                    check(ctx, f, fl.get_cols(d, f.ins), prm, f"bars (o,h,l,c) {seq}",
                          sc if not tick or f.multi or f.deg("value") != 1 else tick[0], 1e-7 if not tick else 1e-6)
            ctx.state(tuple(seq))
        ctx.sample({"bars": seq})
        return
    if case["t"] == "vol":
        A = list(product((1.0, 2.0, 3.0), (1.0, 4.0)))
        fs = [f for f in fl.FEATURES if "v" in f.ins]
        for rest in product(range(6), repeat=case["n"] - len(case["pre"])):
            seq = [A[i] for i in case["pre"] + list(rest)]
            c = np.array([a[0] for a in seq])
            v = np.array([a[1] for a in seq])
            d = {"c": c, "v": v, "s": np.where(v > 2, 0.5, 2.0), "b": v * (c - 1) / 2}
            for f in fs:
                for prm in f.params:
                    check(ctx, f, fl.get_cols(d, f.ins), prm, f"(close, volume) {seq}")
            ctx.state(tuple(seq))
        ctx.sample({"close_volume": seq})
        return
    c = fl.long_series(case["n"])[case["s"]]
    if case["t"] == "cusum-long":
        check_cusum(ctx, c, case["s"])
        ctx.state(case["s"], "cusum")
        return
    d = fl.cols_from_close(c)
    f = fl.BY[case["f"]]
    scale = float(np.max(np.abs(c))) if any(f.deg(k) == 1 for k in (fl.BD if f.multi else ["value"])) else 1.0
    prms = f.params + ([f.default] if f.default or f.name not in ("x",) else [])
    if "up" in case:  # windows far beyond those of the small series
        prms = [{k: v * u if k in fl.WINDOWS else v for k, v in p.items()} for u in case["up"] for p in f.params if p]
        if not prms:
            prms = [{}]
    for prm in prms:
        if not prm and "window" in [p for q in f.params for p in q] and f.name.startswith("get_") and \
                f.name not in ("get_kyle_lambda", "get_amihud_lambda", "get_hasbrouck_lambda"):
            continue
        sc = scale
        if f.name == "get_amihud_lambda":
            sc = 1e-3 / float(np.max(np.abs(c)))
        check(ctx, f, fl.get_cols(d, f.ins), prm, case["s"], sc, 1e-6)
        ctx.state(case["s"], f.name, str(prm))
