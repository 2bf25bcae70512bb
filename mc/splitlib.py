"""Reference model and drivers for the train/test splitters."""
import itertools

import numpy as np
import pandas as pd

CAP = 400  # no pass over the data used here may yield more splits than this


class Endless(Exception):
    pass


def groupings(n, diffs):
    """All sorted integer groupings of n samples whose successive differences come from diffs."""
    for d in itertools.product(diffs, repeat=n - 1):
        g = [0]
        for x in d:
            g.append(g[-1] + x)
        yield g


def structured(n):
    """Larger groupings: singles, blocks, growing blocks, gaps."""
    yield "single", list(range(n))
    for b in (2, 3, 7):
        yield f"block{b}", [i // b for i in range(n)]
    yield "gap5", [i + 4 * (i // 5) for i in range(n)]
    yield "weekdays", [i // 5 * 7 + i % 5 for i in range(n)]
    g, k = [], 0
    while len(g) < n:
        g += [k * 2] * (k % 4 + 1)
        k += 1
    yield "ramp", g[:n]


EPOCH = pd.Timestamp("2021-03-01")
CONTAINERS = ["i64", "u8", "i8hi", "u64", "series_i", "dti_D", "dti_h", "dti_tz", "series_dt", "dti_min", "neg", "i8lo", "i64big", "dti_s", "dti_fall", "dti_spring", "dti_ms", "dti_ns"]
FREQ = {"dti_D": "D", "dti_h": "h", "dti_tz": "D", "series_dt": "D", "dti_min": "min", "dti_s": "h", "dti_fall": "h", "dti_spring": "h", "dti_ms": "ms", "dti_ns": "ns"}


def make_groups(g, kind):
    """The container holding the same group values (returns None if kind cannot represent g)."""
    a = np.asarray(g)
    if kind == "none":
        return None
    if kind == "i64":
        return a.astype(np.int64)
    if kind == "u8":
        return a.astype(np.uint8) if a.max() < 250 else None
    if kind == "i8hi":
        b = a - a.max() + 127
        return b.astype(np.int8) if b.min() >= -128 else None
    if kind == "i8lo":
        return (a - 128).astype(np.int8) if a.max() < 250 else None
    if kind == "neg":
        return a.astype(np.int64) - 3
    if kind == "i64big":
        return a.astype(np.int64) + (1 << 62)
    if kind == "u64":
        return a.astype(np.uint64)
    if kind == "series_i":
        return pd.Series(a.astype(np.int64), index=np.arange(len(a))[::-1] * 3 + 1)
    f = FREQ[kind]
    if kind in ("dti_fall", "dti_spring"):
        # elapsed hours across a change of the clock: a wall-clock hour repeats or is missing
        t0 = pd.Timestamp("2021-10-30 22:00" if kind == "dti_fall" else "2021-03-27 23:00", tz="UTC")
        return pd.DatetimeIndex(t0 + pd.to_timedelta(a, unit=f)).tz_convert("Europe/Amsterdam")
    t = EPOCH + pd.to_timedelta(a, unit=f)
    t = pd.DatetimeIndex(t)
    if kind == "dti_s":
        return t.as_unit("s")
    if kind == "dti_tz":
        return t.tz_localize("UTC")
    if kind == "series_dt":
        return pd.Series(t, index=[f"r{(i * 7) % 1000}" for i in range(len(t))])
    return t


def freq_of(kind):
    return FREQ.get(kind)


def make_X(n, kind):
    if kind == "df":
        return pd.DataFrame({"a": np.arange(n, dtype=float), "b": 1.0}, index=[(i * 5) % 97 for i in range(n)])
    return np.arange(2.0 * n).reshape(n, 2)


def make_y(n, kind):
    if kind == "y":
        return np.arange(n)
    if kind == "ys":
        return pd.Series(np.arange(n), index=np.arange(n)[::-1])
    return None


def collect(gen, cap=CAP):
    """Run a generator to the end: list of (train, test) as lists, and the exception that ended it, if any."""
    out, err = [], None
    try:
        for tr, te in gen:
            out.append((idx(tr), idx(te)))
            if len(out) > cap:
                raise Endless()
    except Endless:
        raise
    except Exception as e:  # noqa
        err = e
    return out, err


def idx(a):
    a = np.asarray(a)
    if a.ndim != 1:
        raise ValueError(f"index array has {a.ndim} dimensions")
    if a.size and not np.issubdtype(a.dtype, np.integer):
        raise ValueError(f"index array has dtype {a.dtype}")
    return [int(x) for x in a]


# ---------------------------------------------------------------- references
def kfold_cuts(g, nf):
    n = len(g)
    sizes = [n // nf + (1 if i < n % nf else 0) for i in range(nf)]
    cuts, c = [], 0
    for s in sizes[:-1]:
        c += s
        j = c
        while j < n and g[j] == g[j - 1]:
            j += 1
        cuts.append(j)
    return [0] + cuts + [n]


def kfold_ref(g, nf, emb, pur, lf):
    """-> (expected prefix of splits, must_raise, may_raise)."""
    n = len(g)
    if n < nf:
        return [], True, True
    mx = n - n // nf
    may = emb + pur >= n or emb + pur > mx
    b = kfold_cuts(g, nf)
    out = []
    for k in range(1 if lf else 0, nf):
        te = list(range(b[k], b[k + 1]))
        if not te:
            return out, True, True
        lo, hi = g[te[0]], g[te[-1]]
        tr = []
        for i in range(n):
            if lo <= g[i] <= hi:
                continue
            if lo - emb <= g[i] < lo:
                continue
            if hi < g[i] <= hi + pur:
                continue
            if lf and g[i] > lo:
                continue
            tr.append(i)
        if not tr:
            return out, True, True
        out.append((tr, te))
    return out, False, may


def walk_ref(g, emb, tw, w, kind):
    n = len(g)
    if tw <= 0 or w <= 0 or g[0] + tw > g[-1]:
        return [], True
    start, ts, out = g[0], g[0] + tw, []
    while ts <= g[-1]:
        te = [i for i in range(n) if ts <= g[i] < ts + w]
        if te:
            lo = g[te[0]]
            tr = [i for i in range(n) if start <= g[i] < ts and not (emb and lo - emb <= g[i])]
            if not tr:
                return out, True
            out.append((tr, te))
        if kind == "rolling":
            start += w
        ts += w
    return out, False
