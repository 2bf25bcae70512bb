"""S04: fitting recovers the generating parameters exactly."""
import warnings
from itertools import product

import numpy as np
import pandas as pd

from mc import simlib as sl

ID = "S04"
ASSUMPTIONS = [
    "noise 'with exactly zero mean and unit variance' uses the unbiased (n-1) variance",
    "every data set is generated by its own regression parameters with noise orthogonal to the level, so for mean "
    "reversion the small-alphabet data sets are judged against those closed-form parameters (0 < slope < 1)",
    "data sets with zero-variance changes or perfectly correlated series are outside the domain",
]
DTS = [1 / 252, 1 / 12, 0.25, 1.0]


def BOUNDS(tier):
    n = 7 if tier == "quick" else 8
    return (f"all series of length 4..{n} over 3 or 4 levels (one series) and all pairs of length-5 series over 2-3 levels "
            "(two series) for 3 models; generated paths for all parameter/correlation vectors x step sizes x "
            "containers x 1..4 and 7 series of up to 1100 rows; paths of every strength of mean reversion from 3e-6 to 0.9999 per step; all ordered pairs of fits")


def cases(tier):
    for k in sl.CLS:
        for V in (1, 2, 3, 4):
            for n in (8, 30) if tier == "quick" else (8, 30, 200):
                yield {"t": "gen", "k": k, "V": V, "n": n}
        for V, n in ((1, 1100), (2, 300), (7, 30)):
            yield {"t": "gen", "k": k, "V": V, "n": n}
        if k == "ou":
            for n in (5, 6, 12, 40):
                yield {"t": "slope", "k": k, "n": n}
        for part in range(16):
            yield {"t": "refit", "k": k, "part": part}
        for first in product(range(3), repeat=2):
            for n in range(4, 8 if tier == "quick" else 10):
                yield {"t": "alpha", "k": k, "first": list(first), "n": n, "levels": 3}
        for first in product(range(4), repeat=2):
            for n in (4, 5, 6) if tier == "quick" else (4, 5, 6, 7):
                yield {"t": "alpha", "k": k, "first": list(first), "n": n, "levels": 4}
        for first in product(range(2), repeat=5):
            yield {"t": "pair", "k": k, "a": list(first), "levels": 2 if tier == "quick" else 3}
            yield {"t": "pair", "k": k, "a": [2 * v + 1 for v in first], "levels": 2 if tier == "quick" else 3}


LEV = [1.0, 2.0, 3.5, 7.0]


def ref_fit(k, x, dt, edge=1e-4):
    """Closed-form parameters of data x (rows, V), or None outside the domain."""
    V = x.shape[1]
    if k == "ou":
        u, w = x[:-1], x[1:]
        um, wm = u.mean(0), w.mean(0)
        su = ((u - um) ** 2).sum(0)
        if np.any(su <= 1e-12):
            return None
        a = ((u - um) * (w - wm)).sum(0) / su
        if np.any(a <= edge) or np.any(a >= 1 - edge):
            return None
        b = wm - a * um
        e = w - a * u - b
        s = np.sqrt((e ** 2).sum(0) / (len(e) - 1))
        mrr = -np.log(a) / dt
        p = {"drift": b / (1 - a), "mrr": mrr, "vol": s * np.sqrt(2 * mrr / (1 - a * a))}
    else:
        y = np.log(x) if k == "gbm" else x
        d = y[1:] - y[:-1]
        mu = d.mean(0)
        e = d - mu
        s = np.sqrt((e ** 2).sum(0) / (len(d) - 1))
        vol = s / np.sqrt(dt)
        p = {"drift": mu / dt + (vol ** 2 / 2 if k == "gbm" else 0), "vol": vol}
    if V > 1:
        if np.any(s < 1e-9):
            return None
        c = (e.T @ e) / (len(e) - 1) / np.outer(s, s)
        if np.linalg.eigvalsh(c).min() < 1e-6:
            return None
        p["cor"] = c
    elif k == "ou" and s[0] < 1e-9:
        return None
    return p


# column labels in increasing, decreasing, mixed, repeated and integer order; the numbers never depend on them
LABELS = [None, lambda V: [f"c{V - j}" for j in range(V)], lambda V: list(range(V))[::-1],
          lambda V: (["b", "d", "a", "c"] + [f"e{9 - j}" for j in range(V)])[:V], lambda V: ["z"] * V]
_rot = [0]


def check_fit(ctx, k, x, cont, dt, p, tag):
    V = x.shape[1]
    m = sl.CLS[k]()
    _rot[0] += 1
    lab = LABELS[_rot[0] % len(LABELS)] if V > 1 else None
    X = sl.contain(x, cont, freq="ME", cols=lab(V) if lab else None)
    if X is not None and lab is not None and not isinstance(X, np.ndarray):
        tag = f"{tag} columns={list(X.columns)}"
    if X is None:
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = m.fit(X, dt=dt)
    ctx.step()
    bad = sl.params_close(k, m, p, V)
    if bad:
        ctx.fail("parameters", f"{tag} {cont} dt={dt}: {bad}")
    elif r is not None and r is not m:
        bad = sl.params_close(k, r, p, V)
        if bad:
            ctx.fail("parameters", f"{tag} {cont} dt={dt} (returned model): {bad}")
    ctx.trace()
    return m


def run(case, ctx):
    k = case["k"]
    _rot[0] = 0
    if case["t"] == "gen":
        V, n = case["V"], case["n"]
        sets = [([0.3, -0.2, 0.05, 0.9], [0.2, 0.5, 0.05, 1.2], [2.0, 0.5, 9.0, 1.0]),
                ([0.0, 0.6, -0.4, 0.1], [1.0, 0.1, 0.3, 0.7], [0.8, 4.0, 0.3, 6.0])]
        for (d, v, mr), cor, dt, seed in product(sets, sl.cors(V)[1 if V > 1 else 0:], DTS, (0, 1)):
            p = {"drift": np.array(sl.ext(d, V)), "vol": np.array(sl.ext(v, V)), "mrr": np.array(sl.ext(mr, V)), "cor": cor}
            if k == "ou":
                # make the noise orthogonal to the level: regress, then read the parameters off
                x = sl.build(k, sl.std_noise(n, V, cor, seed)[:, None, :], sl.ext([5.0, -2.0, 1.0, 0.0], V), p, dt)
                q = ref_fit(k, x, dt)
                if q is None:
                    continue
                # regenerate from the recovered parameters: must be the same path
                a, b, s = sl.coeffs(k, q, dt, V)
                e = (x[1:] - a * x[:-1] - b) / s
                assert abs(e.mean(0)).max() < 1e-8 and abs((e * x[:-1]).mean(0)).max() < 1e-7
                p = q
            else:
                p.pop("mrr")
                x = sl.build(k, sl.std_noise(n, V, cor, seed)[:, None, :], sl.ext([5.0, 2.0, 1.0, 40.0], V), p, dt)
            for cont in sl.CONTAINERS:
                m = check_fit(ctx, k, x, cont, dt, p, f"{k} V={V} n={n} {p}")
                if m is None:
                    continue
                s = m.path_sample(num_steps=3, num_paths=2, random_state=0)
                got = np.asarray(s, float)
                if got.shape != (4, 2 * V) or not np.all(np.isfinite(got)):
                    ctx.fail("sample", f"{k} V={V}: a fitted model samples {got.shape} {got.tolist()}")
                elif not np.allclose(got[0], np.tile(x[0], 2)):
                    ctx.fail("sample-start", f"{k} V={V}: starts at {got[0]} instead of the first fitted value {x[0]}")
                s = np.asarray(m.path_sample(x0="last", num_steps=1, random_state=0), float)
                if not np.allclose(s[0], x[-1]):
                    ctx.fail("sample-start", f"{k} V={V}: 'last' starts at {s[0]} instead of {x[-1]}")
                ctx.step(2)
                ctx.state(k, V, n, dt, cont, str(cor), d[0], seed)
        ctx.sample(case)
        return
    if case["t"] == "slope":
        # the regression slope is linear in the last value, so every strength of mean reversion can be hit exactly
        n = case["n"]
        t = np.arange(n, dtype=float)
        for level, seed, a in product((0.0, 7.0, -300.0), (0, 1, 2), (3e-6, 3e-5, 1e-3, 0.02, 0.5, 0.98, 0.9999)):
            y = level + np.sin(1.7 * t + seed) + np.cos(0.3 * t * t + seed)
            u = y[:-1]
            c = u - u.mean()
            y[-1] = (a * (c ** 2).sum() - (c[:-1] * y[1:-1]).sum()) / c[-1]
            for dt in DTS:
                x = y[:, None]
                p = ref_fit(k, x, dt, 1e-6)
                ctx.state(k, n, level, seed, a, dt)
                if p is None:
                    ctx.outcome("outside-domain")
                    continue
                ctx.outcome("fitted")
                for cont in ("nd", "nd1", "srd"):
                    check_fit(ctx, k, x, cont, dt, p, f"{k} slope={a} data={y.tolist()}")
        return
    if case["t"] == "refit":
        fits = []
        for V, n, freq, cont, dt in product((1, 2, 3), (9, 14), ("ME", "B"), ("nd", "df", "dfd", "sr", "srd"),
                                            (None, 0.25)):
            x = sl.build(k, sl.std_noise(n, V, None, V)[:, None, :], [5.0, 2.0, 1.0][:V],
                         {"drift": [.1, .2, .3][:V], "vol": [.3, .2, .6][:V], "mrr": [1., 3., .5][:V]}, 1 / 4)
            X = sl.contain(x, cont, freq=freq)
            if X is not None:
                fits.append((X, dt))
        for (A, da), (B, db) in list(product(fits, repeat=2))[case["part"]::16]:
            m1, m2 = sl.CLS[k](), sl.CLS[k]()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m1.fit(A, dt=da)
                m1.fit(B, dt=db)
                m2.fit(B, dt=db)
            r1 = m1.path_sample(num_steps=3, num_paths=2, random_state=1)
            r2 = m2.path_sample(num_steps=3, num_paths=2, random_state=1)
            ctx.step(5)
            if type(r1) is not type(r2) or not np.array_equal(np.asarray(r1), np.asarray(r2)):
                ctx.fail("refit", f"{k}: fit on {type(A).__name__}{A.shape} then {type(B).__name__}{B.shape} samples "
                                  f"{np.asarray(r1).tolist()} instead of {np.asarray(r2).tolist()}")
            elif not isinstance(r1, np.ndarray) and not (r1.index.equals(r2.index) and
                                                         list(getattr(r1, "columns", [])) == list(getattr(r2, "columns", []))):
                ctx.fail("refit", f"{k}: labels of an earlier fit remain")
            b = np.asarray(B, float).reshape(len(B), -1)
            if m1.aic(b, 0.1) != m2.aic(b, 0.1) or m1.bic(b, 0.1) != m2.bic(b, 0.1):
                ctx.fail("refit", f"{k}: criteria depend on an earlier fit")
            ctx.state(k, "refit", A.shape, B.shape, type(A).__name__, type(B).__name__, str(da), str(db))
            ctx.trace()
        return
    if case["t"] == "alpha":
        L = case["levels"]
        for i, rest in enumerate(product(range(L), repeat=case["n"] - 2)):
            s = case["first"] + list(rest)
            x = np.array([[LEV[v]] for v in s])
            dt = DTS[i % 4]
            p = ref_fit(k, x, dt)
            ctx.state(k, tuple(s))
            if p is None:
                ctx.outcome("outside-domain")
                continue
            ctx.outcome("fitted")
            check_fit(ctx, k, x, sl.CONTAINERS[i % 6], dt, p, f"{k} data={x[:, 0].tolist()}")
        return
    L = case["levels"]
    a = [LEV[v] for v in case["a"]]
    for i, rest in enumerate(product(range(L), repeat=5)):
        x = np.array([[u, LEV[3 - v]] for u, v in zip(a, rest)])
        dt = DTS[i % 4]
        p = ref_fit(k, x, dt)
        ctx.state(k, "pair", tuple(a), rest)
        if p is None:
            ctx.outcome("outside-domain")
            continue
        ctx.outcome("fitted")
        check_fit(ctx, k, x, ("nd", "df", "dfd")[i % 3], dt, p, f"{k} data={x.tolist()}")
