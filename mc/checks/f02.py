"""F02: containers of feature inputs and outputs."""
import inspect
from itertools import product

import numpy as np
import pandas as pd

from mc import featlib as fl

ID = "F02"
CHUNK = 1
CASE_LIMIT = 300
ASSUMPTIONS = ["the structural-break test is documented for arrays only and is checked for unmodified, unshared arrays",
               "all series of one call share one index"]
N = 14
INDEXES = ["range", "date", "str", "dup", "dupdate", "float", "unsorted", "multi", "intraday", "tz", "period"]


def index(kind, n=N):
    if kind == "range":
        return pd.RangeIndex(5, 5 + n)
    if kind == "date":
        return pd.date_range("2021-03-05", periods=n, freq="B", name="day")
    if kind == "intraday":
        return pd.date_range("2021-03-05 09:30", periods=n, freq="7min")
    if kind == "tz":
        return pd.date_range("2021-03-05", periods=n, freq="D", tz="Europe/Paris")
    if kind == "period":
        return pd.period_range("2021-03", periods=n, freq="M")
    if kind == "str":
        return pd.Index([f"r{(i * 7) % n}" for i in range(n)])
    if kind == "dup":
        return pd.Index([i // 2 for i in range(n)])
    if kind == "dupdate":
        return pd.DatetimeIndex([pd.Timestamp("2021-01-01") + pd.Timedelta(days=i // 3) for i in range(n)])
    if kind == "float":
        return pd.Index([0.5 * i for i in range(n)])
    if kind == "unsorted":
        return pd.Index([(i * 5) % n for i in range(n)])
    return pd.MultiIndex.from_product([["a", "b"], range(n // 2)])


def BOUNDS(tier):
    return (f"every feature x {len(INDEXES)} index kinds x dtypes x all array/series mixtures of its inputs x all ways of "
            "passing each series by position or keyword x bad containers in each position x repeated and interleaved calls")


def cases(tier):
    for f in fl.FEATURES:
        for i in INDEXES:
            yield {"t": "index", "f": f.name, "i": i}
        for t in ("mix", "bad", "kw", "alias", "dtype"):
            yield {"t": t, "f": f.name, "n": 1 if tier == "quick" else 3}
    yield {"t": "cusum"}


def data(shift=0):
    c = fl.long_series(N + shift)["walk"][shift:]
    return fl.cols_from_close(np.round(c, 3))


def eq(a, b):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-12, equal_nan=True)


def series_names(fn):
    f = fn.__init__ if inspect.isclass(fn) else fn
    return [p for p in inspect.signature(f).parameters if p != "self"]


def run(case, ctx):
    if case["t"] == "cusum":
        y = data()["c"]
        keep = y.copy()
        S, C = fl.chu_stinchcombe_white_cusum_test(y)
        if not np.array_equal(y, keep):
            ctx.fail("modified", "cusum changes its input")
        if len(S) != len(y) or len(C) != len(y) or np.shares_memory(S, y) or np.shares_memory(C, y) or np.shares_memory(S, C):
            ctx.fail("alias", "cusum results share memory or have the wrong length")
        S0 = S.copy()
        S[...] = -1
        C[...] = -1
        y.setflags(write=False)
        S2, _ = fl.chu_stinchcombe_white_cusum_test(y)
        if not np.array_equal(S2, S0, equal_nan=True):
            ctx.fail("alias", "cusum result changed by writing to an earlier result")
        ctx.step(2)
        ctx.trace()
        ctx.state("cusum")
        return
    f = fl.BY[case["f"]]
    d = data()
    xs = fl.get_cols(d, f.ins)
    prms = f.params + ([f.default] if f.default else [])
    if case["t"] == "index":
        idx = index(case["i"])
        for prm in prms:
            ref = f.call([x.copy() for x in xs], prm)
            ss = [pd.Series(x.copy(), index=idx, name=f"n{i}" if i else None) for i, x in enumerate(xs)]
            keep = [s.copy(deep=True) for s in ss]
            got = f.call(ss, prm)
            ctx.step(2)
            for k in ref:
                r, g = ref[k], got[k]
                tag = f"{f.name}.{k} {prm} index={case['i']}"
                if not isinstance(r, np.ndarray) or r.shape != (N,):
                    ctx.fail("array-out", f"{tag}: arrays in, {type(r).__name__} {getattr(r, 'shape', '')} out")
                    continue
                if not isinstance(g, pd.Series) or len(g) != N:
                    ctx.fail("series-out", f"{tag}: series in, {type(g).__name__} out")
                    continue
                if not g.index.equals(idx) or list(g.index) != list(idx):
                    ctx.fail("index", f"{tag}: index {list(g.index)[:4]} instead of {list(idx)[:4]}")
                if g.index.names != idx.names or g.index.dtype != idx.dtype or type(g.index) is not type(idx):
                    ctx.fail("index", f"{tag}: index {g.index[:3]!r} instead of {idx[:3]!r}")
                if not eq(r, g):
                    ctx.fail("numbers", f"{tag}: series {g.tolist()} array {r.tolist()}")
                if not f.multi and any(np.shares_memory(g.to_numpy(), s.to_numpy()) for s in ss):
                    ctx.fail("alias", f"{tag}: result shares memory with an input")
            for s, o in zip(ss, keep):
                if not s.equals(o) or not s.index.equals(o.index) or s.name != o.name or s.index.name != o.index.name:
                    ctx.fail("modified", f"{f.name} {prm} index={case['i']}: input changed")
            ctx.state(f.name, case["i"], str(prm))
            ctx.trace()
        ctx.sample(case)
        return
    prm = prms[-1] if prms[-1] else f.params[0]
    idx = index("date")
    if case["t"] == "mix":
        for mask in product((0, 1), repeat=len(xs)):
            ins = [pd.Series(x.copy(), index=idx) if b else x.copy() for b, x in zip(mask, xs)]
            mixed = 0 < sum(mask) < len(mask)
            try:
                f.call(ins, prm)
                err = None
            except Exception as e:
                err = e
            ctx.step()
            ctx.trace()
            ctx.state(f.name, mask)
            if mixed and err is None:
                ctx.fail("mixed", f"{f.name}: mixture {mask} of arrays and series is accepted")
            if not mixed and err is not None:
                ctx.fail("rejected", f"{f.name}: {mask} is rejected: {err}")
        return
    if case["t"] == "bad":
        for pos in range(len(xs)):
            n = len(xs[pos])
            bads = {"list": xs[pos].tolist(), "tuple": tuple(xs[pos].tolist()), "None": None, "scalar": 3.0, "str": "abc",
                    "frame": pd.DataFrame({"a": xs[pos]}), "2d": xs[pos].reshape(-1, 1), "2drow": np.tile(xs[pos], (2, 1)),
                    "dict": dict(enumerate(xs[pos])), "index": pd.Index(xs[pos]), "range": range(n), "int": 5,
                    "series-list": [pd.Series(xs[pos])], "matrix": np.asmatrix(xs[pos])}
            for b, v in bads.items():
                for kind in ("array", "series"):
                    ins = [pd.Series(x, index=idx) if kind == "series" else x.copy() for x in xs]
                    ins[pos] = v
                    try:
                        r = f.call(ins, prm)
                    except Exception:
                        r = None
                    ctx.step()
                    ctx.trace()
                    ctx.state(f.name, pos, b, kind)
                    if r is not None:
                        ctx.fail("bad-accepted", f"{f.name}: a {b} as input {pos} (others {kind}) is accepted")
        return
    if case["t"] == "kw":
        names = series_names(f.fn)[:len(xs)]
        for kind in ("array", "series"):
            ins = [pd.Series(x, index=idx) if kind == "series" else x.copy() for x in xs]
            ref = f.call(ins, prm)
            for npos in range(len(xs) + 1):
                a = ins[:npos]
                kw = dict(reversed(list(zip(names[npos:], ins[npos:]))))
                with fl.joblib.parallel_config(backend="sequential"):
                    r = f.fn(*a, **dict(prm, **kw))
                got = {k: getattr(r, k)() for k in ref} if f.multi else {"value": r}
                ctx.step()
                ctx.trace()
                ctx.state(f.name, kind, npos)
                for k in ref:
                    if type(got[k]) is not type(ref[k]) or not eq(got[k], ref[k]):
                        ctx.fail("keyword", f"{f.name}.{k}: {npos} inputs by position, the rest by keyword: differs")
            # numeric parameters by position as well
            pn = series_names(f.fn)
            order = [p for p in pn[len(xs):] if p in prm]
            if order == pn[len(xs):len(xs) + len(order)]:
                with fl.joblib.parallel_config(backend="sequential"):
                    r = f.fn(*ins, *[prm[p] for p in order])
                got = {k: getattr(r, k)() for k in ref} if f.multi else {"value": r}
                ctx.step()
                for k in ref:
                    if not eq(got[k], ref[k]):
                        ctx.fail("keyword", f"{f.name}.{k}: parameters by position differ")
        return
    if case["t"] == "dtype":
        base = [np.round(x).astype(float) + 1 for x in xs]
        ref = f.call([b.copy() for b in base], prm)
        for dt in ("int64", "int32", "float32", "readonly", "strided", "fortran"):
            for kind in ("array", "series"):
                if dt == "readonly":
                    ins = [b.copy() for b in base]
                    for a in ins:
                        a.setflags(write=False)
                elif dt == "strided":
                    ins = [np.repeat(b, 2)[::2] for b in base]
                elif dt == "fortran":
                    ins = [np.asfortranarray(np.stack([b, b], 1))[:, 0] for b in base]
                else:
                    ins = [b.astype(dt) for b in base]
                if kind == "series":
                    ins = [pd.Series(a, index=idx) for a in ins]
                keep = [np.array(a) for a in ins]
                got = f.call(ins, prm)
                ctx.step()
                ctx.trace()
                ctx.state(f.name, dt, kind)
                tol = 1e-4 if dt == "float32" else 1e-9
                for k in ref:
                    g, r = np.asarray(got[k], float), np.asarray(ref[k], float)
                    m = np.isfinite(r) & np.isfinite(g)
                    if dt == "float32":
                        continue
                    if not np.array_equal(np.isfinite(r), np.isfinite(g)) or not np.allclose(g[m], r[m], rtol=tol, atol=tol):
                        ctx.fail("dtype", f"{f.name}.{k} on {dt} {kind}: {g.tolist()} instead of {r.tolist()}")
                for a, b in zip(ins, keep):
                    if not np.array_equal(np.asarray(a), b):
                        ctx.fail("modified", f"{f.name} on {dt} {kind}: input changed")
        return
    # alias: results are independent of inputs, of each other, and of later writes to any of them
    for kind in ("array", "series"):
        ins = [pd.Series(x.copy(), index=idx) if kind == "series" else x.copy() for x in xs]
        ref = {k: np.array(v, float) for k, v in f.call([i.copy() for i in ins], prm).items()}
        a = f.call(ins, prm)
        b = f.call(ins, prm)
        for k in a:
            va, vb = np.asarray(a[k]), np.asarray(b[k])
            for other in [np.asarray(i) for i in ins] + [vb] + [np.asarray(a[j]) for j in a if j != k]:
                if np.shares_memory(va, other):
                    ctx.fail("alias", f"{f.name}.{k} ({kind}) shares memory with an input or another result")
        if f.multi:
            obj = f.fn(*ins, **prm)
            seq = ["upper", "lower", "middle", "bandwidth", "percent_b"]
            for first, second in product(seq, repeat=2):
                r = getattr(obj, first)()
                (r.__setitem__(slice(None), -5.0) if kind == "array" else r.iloc.__setitem__(slice(None), -5.0))
                g = np.asarray(getattr(obj, second)(), float)
                ctx.step(2)
                ctx.trace()
                if not np.allclose(g, ref[second], rtol=1e-9, equal_nan=True):
                    ctx.fail("alias", f"{f.name} ({kind}): writing to {first}() changes {second}()")
                    break
        for k in a:
            v = a[k]
            if kind == "array":
                v[...] = -5.0
            else:
                v.iloc[:] = -5.0
        for i, x in zip(ins, xs):
            if not np.array_equal(np.asarray(i), x):
                ctx.fail("alias", f"{f.name} ({kind}): writing to the result changes the input")
        for k in b:
            if not eq(b[k], ref[k]):
                ctx.fail("alias", f"{f.name}.{k} ({kind}): writing to one result changes another")
        c = f.call(ins, prm)
        for k in c:
            if not eq(c[k], ref[k]):
                ctx.fail("alias", f"{f.name}.{k} ({kind}): a later call returns something else")
        for i in ins:  # results do not follow later changes of the data
            if kind == "array":
                i[...] = 1.0
            else:
                i.iloc[:] = 1.0
        for k in c:
            if not eq(c[k], ref[k]):
                ctx.fail("alias", f"{f.name}.{k} ({kind}): changing the input changes an earlier result")
        ctx.step(4)
        ctx.trace()
        ctx.state(f.name, "alias", kind)
