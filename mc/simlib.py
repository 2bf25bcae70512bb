"""Shared pieces for the simulation checks: parameter spaces, reference equations, containers."""
from itertools import product

import numpy as np
import pandas as pd

from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck

CLS = {"bm": BrownianMotion, "gbm": GeometricBrownianMotion, "ou": OrnsteinUhlenbeck}
DTS = [1 / 252, 1 / 12, 0.25, 1.0]


def ext(v, V):
    """the first V values; past the end the list repeats, each time 10% larger"""
    return [v[i % len(v)] * 1.1 ** (i // len(v)) for i in range(V)]


def cors(V):
    """Correlation matrices of size V, None first."""
    if V == 1:
        return [None]
    if V == 2:
        return [None] + [np.array([[1, r], [r, 1.0]]) for r in (0.0, 0.5, -0.8, 0.95)]
    if V == 3:
        return [None, np.eye(3),
                np.array([[1, .5, -.2], [.5, 1, .3], [-.2, .3, 1]]),
                np.array([[1, -.6, .4], [-.6, 1, -.7], [.4, -.7, 1]])]
    a = np.array([[0.9, 0.1 * i] for i in range(V)])
    c = a @ a.T + 0.5 * np.eye(V)
    s = np.sqrt(np.diag(c))
    return [None, c / np.outer(s, s)]


def close(a, b, rtol=1e-9, atol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def make(kind, p):
    """p: dict with drift/mean, mrr, vol, cor."""
    if kind == "ou":
        return CLS[kind](mean=p["drift"], mrr=p["mrr"], vol=p["vol"], cor=p.get("cor"))
    return CLS[kind](drift=p["drift"], vol=p["vol"], cor=p.get("cor"))


def coeffs(kind, p, dt, V):
    """X' (or log X') = a X + b + s e, as row vectors of length V."""
    d = np.broadcast_to(np.asarray(p["drift"], float).reshape(-1), (V,))
    v = np.broadcast_to(np.asarray(p["vol"], float).reshape(-1), (V,))
    if kind == "bm":
        return np.ones(V), d * dt, v * np.sqrt(dt)
    if kind == "gbm":
        return np.ones(V), (d - v * v / 2) * dt, v * np.sqrt(dt)
    m = np.broadcast_to(np.asarray(p["mrr"], float).reshape(-1), (V,))
    a = np.exp(-m * dt)
    return a, d * (1 - a), v * np.sqrt((1 - np.exp(-2 * m * dt)) / (2 * m))


def noise(kind, path, p, dt, V):
    """Invert the step equation: the noise (steps, paths, V) that produces this path array (cols path by path)."""
    x = np.asarray(path, float)
    P = x.shape[1] // V
    a, b, s = coeffs(kind, p, dt, V)
    y = np.log(x) if kind == "gbm" else x
    y = y.reshape(x.shape[0], P, V)
    return (y[1:] - a * y[:-1] - b) / s


def build(kind, z, x0, p, dt, A=None):
    """Reference path from standard noise z (steps, paths, V), mixing matrix A."""
    n, P, V = z.shape
    a, b, s = coeffs(kind, p, dt, V)
    e = z if A is None else z @ np.asarray(A).T
    y = np.empty((n + 1, P, V))
    x0 = np.asarray(x0, float).reshape(-1)
    row = np.array([[x0[(i * V + j) % len(x0)] for j in range(V)] for i in range(P)])
    y[0] = np.log(row) if kind == "gbm" else row
    for t in range(n):
        y[t + 1] = a * y[t] + b + s * e[t]
    y = y.reshape(n + 1, P * V)
    return np.exp(y) if kind == "gbm" else y


def std_noise(n, V, cor=None, seed=0):
    """Deterministic noise with exactly zero mean and exactly the given ddof=1 correlation (unit variance)."""
    t = np.arange(1, n + 1)[:, None]
    k = np.arange(1, V + 1)[None, :]
    x = np.sin(1.7 * t * k + seed) + np.cos(0.3 * t * t + k * (seed + 1))
    x = x - x.mean(axis=0)
    c = np.atleast_2d(np.cov(x, rowvar=False))
    x = x @ np.linalg.inv(np.linalg.cholesky(c)).T
    if cor is not None:
        x = x @ np.linalg.cholesky(np.asarray(cor, float)).T
    return x


CONTAINERS = ["nd", "nd1", "df", "dfd", "sr", "srd"]


def contain(x, kind, freq="D", start="2021-03-01", cols=None, name="px", iname="date"):
    """Put a (rows, V) array in a container: nd, nd1 (1-D), df, sr, with date index (dfd, srd). None if impossible."""
    x = np.array(x, float)
    if kind in ("nd1", "sr", "srd") and x.shape[1] != 1:
        return None
    if kind == "nd":
        return x
    if kind == "nd1":
        return x[:, 0].copy()
    idx = pd.date_range(start, periods=len(x), freq=freq, name=iname) if kind in ("dfd", "srd") else None
    if kind in ("df", "dfd"):
        return pd.DataFrame(x, index=idx, columns=cols or [f"c{i}" for i in range(x.shape[1])])
    return pd.Series(x[:, 0].copy(), index=idx, name=name)


def params_close(kind, m, p, V, rtol=1e-7, atol=1e-9):
    """Model attributes against expected parameters; returns None or what differs."""
    names = {"bm": ("drift", "vol"), "gbm": ("drift", "vol"), "ou": ("mean", "mrr", "vol")}[kind]
    for nme in names:
        want = np.asarray(p["drift" if nme == "mean" else nme], float).reshape(-1)
        got = np.asarray(getattr(m, nme), float).reshape(-1)
        if got.shape != (V,) or not np.allclose(got, want, rtol=rtol, atol=atol):
            return f"{nme}: got {got.tolist()}, expected {want.tolist()}"
    if V == 1:
        if m.cor is not None and not np.allclose(m.cor, 1):
            return f"cor: got {m.cor} for one series"
    elif m.cor is None or not np.allclose(m.cor, p["cor"], rtol=rtol, atol=1e-7):
        return f"cor: got {m.cor}, expected {np.asarray(p['cor']).tolist()}"
    return None
