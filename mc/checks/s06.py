"""S06: quasi-random path = base path + lagged scaled signal."""
from itertools import product

import numpy as np
import pandas as pd

from mc import simlib as sl
from quantfinlib.sim import QuasiRandom

ID = "S06"
ASSUMPTIONS = [
    "the per-column scale divides by the sample deviation of the lagged signal over rows 1..n-2 with two degrees of "
    "freedom removed, the estimator the implementation documents by its code; at least 4 steps",
    "signals that are constant (zero deviation) are outside the domain",
]


def sig_level(x):
    return x


def sig_mom(x):
    return pd.Series(x).diff(2).to_numpy()


def sig_ma(x):
    return x - pd.Series(x).rolling(3).mean().to_numpy()


def sig_sign(x):
    return np.concatenate([[np.nan], np.sign(np.diff(x))])


def sig_time(x):
    return np.sin(1.3 * np.arange(len(x))) * 3 + 1


def sig_expand(x):
    return np.maximum.accumulate(x) - x + 0.01 * np.arange(len(x))


def sig_holes(x):
    """undefined here and there"""
    return np.where(np.arange(len(x)) % 3 == 1, np.nan, 2 * x + np.cos(np.arange(len(x))))


SIGS = {f.__name__: f for f in (sig_holes, sig_level, sig_mom, sig_ma, sig_sign, sig_time, sig_expand)}


def BOUNDS(tier):
    return "3 base models (plain and fitted) x 1..3 variates x 1..4 paths x steps 4..60 x 7 signals (defined from the start, from a later step or with holes) x factors x step sizes x seeds"


def cases(tier):
    for k in sl.CLS:
        for V in (1, 2, 3):
            for P in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 7):
                for N in (4, 5, 9, 40) if tier == "quick" else (4, 5, 6, 7, 9, 16, 40, 250):
                    for s in SIGS:
                        yield {"k": k, "V": V, "P": P, "N": N, "sig": s, "tier": tier}


def reference(base, f, vol, dt, fun):
    """base (N+1, cols); vol per column."""
    n, c = base.shape
    out = base.copy()
    for j in range(c):
        s = np.zeros(n)
        v = np.asarray(fun(base[:-1, j].copy()), float)
        s[1:] = np.where(np.isnan(v), 0.0, v)
        w = s[1:-1]
        sd = np.sqrt(((w - w.mean()) ** 2).sum() / (len(w) - 2))
        if sd < 1e-12:
            return None
        out[:, j] += np.cumsum(s) * (f[j] * vol[j] * np.sqrt(dt) / sd)
    return out


def run(case, ctx):
    k, V, P, N = case["k"], case["V"], case["P"], case["N"]
    fun = SIGS[case["sig"]]
    cor = sl.cors(V)[-1]
    p = {"drift": [0.3, -0.1, 0.2][:V], "vol": [0.2, 0.5, 0.1][:V], "mrr": [1.5, 0.4, 6.0][:V], "cor": cor}
    for fitted in (False, True):
        base = sl.make(k, p)
        if fitted:
            x = sl.build(k, sl.std_noise(14, V, cor)[:, None, :], [5.0, 7.0, 2.0][:V], p, 1 / 12)
            base.fit(x, dt=1 / 12)
        vol = np.tile(np.asarray(base.vol, float).reshape(-1), P)
        for dt, x0, seed in product((None, 0.05, 1.0, 6.25), (None, 3.0, [4.0, 1.0, 9.0][:V]), (0, 3)):
            if fitted and dt is None:
                continue
            x0b = x0 if x0 is not None else (100.0 if k == "gbm" else 0.0)
            b = sl.make(k, {"drift": base.mean if k == "ou" else base.drift, "vol": base.vol, "cor": base.cor,
                            **({"mrr": base.mrr} if k == "ou" else {})})
            bp = np.asarray(b.path_sample(x0=x0b, dt=dt, num_steps=N, num_paths=P, random_state=seed), float)
            ctx.step()
            devs = {}
            fs = [0.1, 0.0, 0.7, 1.4, np.linspace(0.1, 0.9, V * P), -0.7]
            for f in fs:
                fv = np.broadcast_to(np.asarray(f, float), (V * P,))
                m = QuasiRandom(fun, f, base) if not (isinstance(f, float) and f == 0.1) else QuasiRandom(fun, base_model=base)
                got = np.asarray(m.path_sample(x0=x0, dt=dt, num_steps=N, num_paths=P, random_state=seed), float)
                ctx.step()
                want = reference(bp, fv, vol, 1 / 252 if dt is None else dt, fun)
                if want is None:
                    ctx.outcome("constant-signal")
                    continue
                ctx.trace()
                tag = f"{case} fitted={fitted} dt={dt} x0={x0} seed={seed} f={f}"
                if not sl.close(got, want, 1e-8, 1e-9):
                    j = int(np.argmax(np.abs(got - want))) if got.shape == want.shape else -1
                    ctx.fail("path", f"{tag}: {got.shape} entry {j} got {got.flat[j]}, expected {want.flat[j]}")
                if np.isscalar(f):
                    devs[f] = got - bp
                ctx.state(k, V, P, N, case["sig"], fitted, dt, str(x0), seed, str(f))
            if 0.7 in devs and 1.4 in devs:
                tol = {"rtol": 1e-7, "atol": 1e-9 + 1e-13 * np.max(np.abs(bp))}   # the deviations are differences of the paths
                if not np.allclose(devs[0.0], 0, **tol) or not np.allclose(devs[1.4], 2 * devs[0.7], **tol) or not np.allclose(devs[-0.7], -devs[0.7], **tol):
                    ctx.fail("linear", f"{case}: the deviation is not proportional to the factor")
    ctx.sample(case)
