"""S05: likelihood and criteria against independently computed transition densities."""
import math
from itertools import product

import numpy as np

from mc import simlib as sl

ID = "S05"
ASSUMPTIONS = [
    "parameters are given at full size (one per series), or as one shared volatility (reversion rate) of a model without correlation; volatility is positive",
    "free parameters: drift (mean), (reversion rate,) volatility per series, plus V(V-1)/2 correlations when the "
    "model has a correlation matrix",
]


def BOUNDS(tier):
    n = 4 if tier == "quick" else 6
    return (f"all paths of length 2..{n} over 4 levels (1 series) and length 2..3 over 3 levels (2 series) x parameter "
            "sets x 4 step sizes; structured paths of 5..60 rows for 1..4 series, of 1100 rows, of 7 series, and with fewer rows than series x correlations x containers; and after "
            "fitting, for every container")


def ref_nll(k, x, p, dt):
    """-sum log N(e; 0, C) - log scale, by explicit inverse and determinant, row by row."""
    V = x.shape[1]
    y = [[math.log(v) for v in r] for r in x] if k == "gbm" else [list(map(float, r)) for r in x]
    a, b, s = sl.coeffs(k, p, dt, V)
    C = np.eye(V) if p.get("cor") is None else np.asarray(p["cor"], float)
    Ci = np.linalg.inv(C)
    ld = math.log(np.linalg.det(C))
    tot = 0.0
    for t in range(len(y) - 1):
        e = np.array([(y[t + 1][j] - a[j] * y[t][j] - b[j]) / s[j] for j in range(V)])
        tot += 0.5 * (V * math.log(2 * math.pi) + ld + float(e @ Ci @ e)) + sum(math.log(v) for v in s)
    return tot


def nparams(k, V, cor):
    return V * (3 if k == "ou" else 2) + (V * (V - 1) // 2 if cor is not None else 0)


def psets(k, V):
    for d, v, m in (([0.3, -0.2, 0.05, 0.9], [0.2, 0.5, 0.07, 1.2], [2.0, 0.5, 9.0, 1.0]),
                    ([0.0, 1.5, -0.4, 0.1], [1.0, 0.1, 0.3, 0.7], [0.8, 40.0, 0.3, 6.0])):
        p = {"drift": sl.ext(d, V), "vol": sl.ext(v, V)}
        if k == "ou":
            p["mrr"] = sl.ext(m, V)
        for cor in sl.cors(V):
            yield dict(p, cor=cor)


def cases(tier):
    for k in sl.CLS:
        for n in range(2, 5 if tier == "quick" else 7):
            for f in range(4):
                yield {"t": "alpha", "k": k, "n": n, "f": f}
        for n in (2, 3):
            for f in product(range(3), repeat=2):
                yield {"t": "alpha2", "k": k, "n": n, "f": list(f)}
        for V in (1, 2, 3, 4):
            for n in (5, 20) if tier == "quick" else (5, 20, 60, 300):
                yield {"t": "long", "k": k, "V": V, "n": n}
                yield {"t": "fit", "k": k, "V": V, "n": n}
        for V, n in ((3, 2), (4, 3), (7, 2)):   # fewer rows than series
            yield {"t": "long", "k": k, "V": V, "n": n}
        for V, n in ((1, 1100), (2, 300), (7, 24)):
            yield {"t": "long", "k": k, "V": V, "n": n}
            yield {"t": "fit", "k": k, "V": V, "n": n}


LEV = [1.0, 2.0, 3.5, 7.0]


def compare(ctx, k, m, X, x, p, dt, dtarg, tag, np_=None):
    V = x.shape[1]
    w = ref_nll(k, x, p, dt)
    g = float(m.nll(X, dtarg))
    np_ = np_ or nparams(k, V, p.get("cor"))
    a, b = float(m.aic(X, dtarg)), float(m.bic(X, dtarg))
    ctx.step(3)
    ctx.trace()
    tol = dict(rtol=1e-8, atol=1e-7)
    if not np.isclose(g, w, **tol):
        ctx.fail("nll", f"{tag}: {g}, expected {w}")
    if not np.isclose(a, 2 * w + 2 * np_, **tol):
        ctx.fail("aic", f"{tag}: {a}, expected {2 * w + 2 * np_} ({np_} parameters)")
    if not np.isclose(b, 2 * w + math.log(len(x)) * np_, **tol):
        ctx.fail("bic", f"{tag}: {b}, expected {2 * w + math.log(len(x)) * np_} ({np_} parameters, {len(x)} rows)")


def run(case, ctx):
    k = case["k"]
    if case["t"] in ("alpha", "alpha2"):
        n = case["n"]
        V = 1 if case["t"] == "alpha" else 2
        rows = [[[LEV[i]] for i in range(4)]] if V == 1 else [[[LEV[i], LEV[3 - j]] for i in range(3) for j in range(3)]]
        first = [LEV[case["f"]]] if V == 1 else [LEV[case["f"][0]], LEV[3 - case["f"][1]]]
        models = [(p, sl.make(k, p)) for p in psets(k, V)]
        for i, rest in enumerate(product(rows[0], repeat=n - 1)):
            x = np.array([first] + [list(r) for r in rest])
            for j, (p, m) in enumerate(models):
                for dt in sl.DTS if n < 4 else sl.DTS[(i + j) % 4:][:1]:
                    compare(ctx, k, m, x, x, p, dt, dt, f"{k} {p} x={x.tolist()} dt={dt}")
                    ctx.state(k, x.tobytes(), j, dt)
        return
    V, n = case["V"], case["n"]
    if case["t"] == "long":
        for j, p in enumerate(psets(k, V)):
            m = sl.make(k, p)
            for dt in sl.DTS:
                z = sl.std_noise(n + 20, V, p["cor"], j)[:n]
                x = sl.build(k, z[:, None, :] if n < V + 2 else sl.std_noise(n, V, p["cor"], j)[:, None, :], sl.ext([5.0, 2.0, 1.0, 40.0], V), p, dt)
                if p["cor"] is None and V > 1:
                    # one volatility (reversion rate) shared by all series counts as one parameter
                    for shared in (("vol",), ("mrr",), ("vol", "mrr"))[:3 if k == "ou" else 1]:
                        q = {a: b[:1] if a in shared else b for a, b in p.items() if a != "cor"}
                        full = dict({a: b * V if a in shared else b for a, b in q.items()}, cor=None)
                        y = sl.build(k, z[:, None, :], sl.ext([5.0, 2.0, 1.0, 40.0], V), full, dt)
                        compare(ctx, k, sl.make(k, q), y, y, full, dt, dt, f"{k} V={V} n={n} {q} dt={dt}", sum(map(len, q.values())))
                for cont in sl.CONTAINERS:
                    X = sl.contain(x, cont, freq="ME")
                    if X is None:
                        continue
                    compare(ctx, k, m, X, x, p, dt, dt, f"{k} V={V} n={n} {p} dt={dt} {cont}")
                    if cont in ("dfd", "srd"):
                        compare(ctx, k, m, X, x, p, 1 / 12, None, f"{k} V={V} n={n} {p} dt from month-end index")
                    elif j == 0:
                        compare(ctx, k, m, X, x, p, 1 / 252, None, f"{k} V={V} n={n} {p} default dt {cont}")
                    ctx.state(k, V, n, j, dt, cont)
        ctx.sample(case)
        return
    for cor in sl.cors(V)[1 if V > 1 else 0:]:
        p = {"drift": sl.ext([0.3, -0.2, 0.05, 0.9], V), "vol": sl.ext([0.2, 0.5, 0.07, 1.2], V), "mrr": sl.ext([2.0, 0.5, 9.0, 1.0], V),
             "cor": cor}
        if n <= V + 1:
            continue
        x = sl.build(k, sl.std_noise(n, V, cor, 2)[:, None, :], sl.ext([5.0, 2.0, 1.0, 40.0], V), p, 0.25)
        for cont in sl.CONTAINERS:
            X = sl.contain(x, cont, freq="QE", start="1950-03-01")
            if X is None:
                continue
            m = sl.make(k, {"drift": 0.0, "vol": 1.0, "mrr": 1.0})
            m.fit(X, dt=0.25)
            q = {"drift": np.asarray(m.mean if k == "ou" else m.drift).reshape(-1), "vol": np.asarray(m.vol).reshape(-1),
                 "cor": m.cor}
            if k == "ou":
                q["mrr"] = np.asarray(m.mrr).reshape(-1)
            compare(ctx, k, m, X, x, q, 0.25, 0.25, f"fitted {k} V={V} n={n} {cont}")
            compare(ctx, k, m, X, x, q, 0.1, 0.1, f"fitted {k} V={V} n={n} {cont} other dt")
            ctx.state(k, V, n, "fit", cont, str(cor))
