"""S01: sampled paths are the exact discretised solution driven by their own standard normal noise."""
from itertools import product

import numpy as np
import pandas as pd

from mc import simlib as sl

ID = "S01"
ASSUMPTIONS = [
    "the noise behind a seed is read off a reference run of the same class, shape and seed with unit volatility; "
    "every other parameter set of that shape must be the documented function of the same noise",
    "any root of the correlation matrix is accepted as mixing matrix",
    "that the noise is standard normal is checked on fixed seeds with 5-sigma bounds (a deterministic computation)",
    "parameters are of full size, or a scalar volatility / reversion rate for vector drift / mean without correlation",
]

SHAPES_Q = [(V, P, N) for V in (1, 2, 3) for P in (1, 2, 3) for N in (1, 2, 5, 40)] + [(7, 1, 3), (1, 140, 2), (2, 3, 1100)]
SHAPES_T = [(V, P, N) for V in (1, 2, 3, 5) for P in (1, 2, 3, 5, 8) for N in (1, 2, 3, 5, 40, 300)] + [(7, 2, 3), (12, 1, 2), (1, 300, 2), (1, 1, 5000), (2, 3, 1100)]


def BOUNDS(tier):
    return (f"{len(SHAPES_Q if tier == 'quick' else SHAPES_T)} (variates, paths, steps) shapes x 3 models x seeds x all "
            "correlation matrices of a fixed list x 4 step sizes x parameter vectors x start-value forms")


def cases(tier):
    for kind in sl.CLS:
        for V, P, N in (SHAPES_Q if tier == "quick" else SHAPES_T):
            for s in ((0, 12345) if tier == "quick" else (0, 1, 7, 12345)):
                yield {"t": "exact", "k": kind, "V": V, "P": P, "N": N, "s": s}
    for kind in sl.CLS:
        for V, P, N in [(1, 1, 4000), (2, 3, 2000), (3, 2, 2000), (1, 50, 200), (12, 1, 800), (1, 300, 60), (2, 70, 120)]:
            for s in (1, 2, 3):
                yield {"t": "noise", "k": kind, "V": V, "P": P, "N": N, "s": s}


BASEP = {"bm": {"drift": 0.0, "vol": 1.0}, "gbm": {"drift": 0.5, "vol": 1.0},
         "ou": {"drift": 0.0, "mrr": 0.01, "vol": 1.0}}


def base_noise(kind, V, P, N, s):
    b = BASEP[kind]
    p = {k: [v] * V for k, v in b.items()}
    m = sl.make(kind, p)
    x0 = 1.0 if kind == "gbm" else 0.0
    dt = 1.0 if kind != "gbm" else 0.01
    x = m.path_sample(x0=x0, dt=dt, num_steps=N, num_paths=P, random_state=s)
    x = np.asarray(x, float)
    assert x.shape == (N + 1, P * V), x.shape
    return sl.noise(kind, x, p, dt, V)


def vecs(V, vals):
    yield [vals[i % len(vals)] for i in range(V)]
    if V > 1:
        yield [vals[(i + 1) % len(vals)] for i in range(V)]


def params(kind, V):
    for d in vecs(V, [0.7, -0.3, 0.0]):
        for v in vecs(V, [0.4, 0.05, 1.1]):
            if kind == "ou":
                for m in vecs(V, [2.0, 0.2, 15.0]):
                    yield {"drift": d, "mrr": m, "vol": v}
            else:
                yield {"drift": d, "vol": v}
    # extreme sizes: strong and nearly absent mean reversion, drifts far beyond any per-year rate
    yield dict({"drift": [(9.0, -4.0, 2.0)[i % 3] if kind == "gbm" else (1e4, -250.0, 3e6)[i % 3] for i in range(V)], "vol": [(2.5, 1e-4, 0.3)[i % 3] for i in range(V)]},
               **({"mrr": [(60.0, 1e-3, 700.0)[i % 3] for i in range(V)]} if kind == "ou" else {}))
    yield dict({"drift": [0.0] * V, "vol": [0.0] * V}, **({"mrr": [1.0] * V} if kind == "ou" else {}))


def forms(p, V):
    """Same parameter values in the accepted containers."""
    yield {k: list(v) for k, v in p.items()}
    yield {k: np.array(v) for k, v in p.items()}
    yield {k: pd.Series(v) for k, v in p.items()}
    if V == 1:
        yield {k: float(v[0]) for k, v in p.items()}


def x0s(kind, V, P):
    vals = [3.0, 0.5, 40.0, 1.25, 2.0, 9.0]
    yield vals[0], [vals[0]]
    yield 2, [2.0]
    v = [vals[i % 6] for i in range(V)]
    yield list(v), v
    yield np.array(v), v
    yield pd.Series(v), v
    w = [vals[(i * 5 + 1) % 6] + i for i in range(V * P)]
    yield np.array([w]), w
    if kind != "gbm":
        yield -1.5, [-1.5]


def run(case, ctx):
    kind, V, P, N, s = case["k"], case["V"], case["P"], case["N"], case["s"]
    z = base_noise(kind, V, P, N, s)
    ctx.step()
    if case["t"] == "noise":
        n = z.size
        f = z.reshape(-1)
        lim = 5 / np.sqrt(n)
        if abs(f.mean()) > lim or abs(f.std() - 1) > lim:
            ctx.fail("noise-moments", f"mean {f.mean()} std {f.std()} of {n} draws")
        if abs((f ** 3).mean()) > 5 * np.sqrt(15 / n) or abs((f ** 4).mean() - 3) > 5 * np.sqrt(96 / n):
            ctx.fail("noise-shape", f"third {(f**3).mean()} fourth {(f**4).mean()} moment")
        if len(np.unique(np.round(f, 9))) < n * 0.999:
            ctx.fail("noise-repeats", f"{n - len(np.unique(np.round(f, 9)))} of {n} draws are repeats")
        cols = z.reshape(N, P * V)
        for lag in (0, 1, 2, 3):
            c = cols[lag:].T @ cols[:N - lag] / (N - lag)
            if lag == 0:
                c = c - np.diag(np.diag(c))
            if np.abs(c).max() > 6 / np.sqrt(N - lag):
                ctx.fail("noise-dependence", f"lag {lag} correlation {np.abs(c).max()} between draws")
        z2 = base_noise(kind, V, P, N, s + 1000)
        if abs((z * z2).mean()) > lim or np.allclose(z, z2):
            ctx.fail("noise-seed", "different seeds give dependent noise")
        ctx.state(kind, V, P, N, s)
        ctx.trace()
        return
    n = 0
    for p in params(kind, V):
        for cor in sl.cors(V):
            for dt in sl.DTS if N < 1000 else sl.DTS[:1]:
                for fi, q in enumerate(forms(p, V)):
                    x0list = list(x0s(kind, V, P))
                    if fi > 0:
                        x0list = x0list[:1]
                    if cor is not None and dt != sl.DTS[0]:
                        x0list = x0list[2:3]
                    m = sl.make(kind, dict(q, cor=cor if n % 2 else (None if cor is None else cor.tolist())))
                    for x0, xv in x0list:
                        n += 1
                        got = np.asarray(m.path_sample(x0=x0, dt=dt, num_steps=N, num_paths=P, random_state=s), float)
                        ctx.step()
                        tag = f"{kind} p={p} cor={None if cor is None else cor.tolist()} dt={dt} x0={xv} seed={s}"
                        if got.shape != (N + 1, P * V):
                            ctx.fail("shape", f"{tag}: {got.shape}")
                            continue
                        A = None
                        if cor is not None and max(p["vol"]) > 0:
                            A = mixing(kind, z, got, p, dt, V, cor)
                            if isinstance(A, str):
                                ctx.fail("correlation", f"{tag}: {A}")
                                continue
                        want = sl.build(kind, z, xv, p, dt, A)
                        if not sl.close(got, want, 1e-8, 1e-9):
                            k = int(np.argmax(np.abs(got - want)))
                            ctx.fail("path", f"{tag}: entry {k} got {got.flat[k]}, expected {want.flat[k]}")
                        ctx.trace()
        if V > 1:  # scalar volatility (and reversion rate) for all variates
            q = dict(p, vol=0.3)
            if kind == "ou":
                q["mrr"] = 1.7
            got = np.asarray(sl.make(kind, q).path_sample(x0=2.0, dt=0.1, num_steps=N, num_paths=P, random_state=s))
            ctx.step()
            if not sl.close(got, sl.build(kind, z, [2.0], q, 0.1), 1e-8, 1e-9):
                ctx.fail("path", f"{kind} scalar volatility {q}")
    ctx.state(kind, V, P, N, s)
    ctx.sample({"kind": kind, "V": V, "P": P, "N": N, "seed": s, "parameter_sets": n})


def mixing(kind, z, got, p, dt, V, cor):
    """The mixing matrix that turns z into the noise of got, or a message."""
    N, P, _ = z.shape
    v = np.asarray(p["vol"], float)
    if np.any(v == 0):
        return np.linalg.cholesky(cor)
    e = sl.noise(kind, got, p, dt, V).reshape(-1, V)
    L = np.linalg.cholesky(cor)
    f = z.reshape(-1, V)
    if np.allclose(f @ L.T, e, rtol=1e-5, atol=1e-5):
        return L
    if len(f) < 4 * V:
        return f"{len(f)} noise rows are not the Cholesky mix"
    A = np.linalg.lstsq(f, e, rcond=None)[0].T
    if not np.allclose(f @ A.T, e, rtol=1e-5, atol=1e-5):
        return "noise is not a fixed mix of the uncorrelated noise"
    if not np.allclose(A @ A.T, cor, atol=1e-5):
        return f"mixing matrix gives correlation {(A @ A.T).tolist()}"
    return A
