"""N01: results depend on the values of numeric inputs, not on element type, byte order, memory layout or writability."""
import warnings
from itertools import product

import numpy as np
import pandas as pd

from mc import featlib as fl
from mc import simlib as sl

ID = "N01"
TECHNIQUE = "exhaustive enumeration of storage variants on the real code, every result compared with that of plain float64 arrays"
CHUNK = 1
CASE_LIMIT = 300
INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLOATS = ["float64", "float32"]
SWAPPED_I, SWAPPED_F = [">i2", ">i4", ">i8", ">u4"], [">f4", ">f8"]
NULL_I, NULL_F = ["Int64", "UInt8", "Int32"], ["Float64", "Float32"]
LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "readonly", "broadcast"]


class Item:
    def __init__(self, name, data, fn, whole=None, series=True, swapped=True, null=True, tol=1e-9):
        self.name, self.data, self.fn, self.whole = name, data, fn, whole
        self.series, self.swapped, self.null, self.tol = series, swapped, null, tol


def ohlc(k):
    c = [np.array([50, 53, 49, 60, 58, 58, 41, 55, 70, 66, 90, 77, 64, 80.]), np.array([9, 7, 7, 3, 1, 2, 6, 12, 12, 40, 33, 90, 100, 64.]),
         np.array([100, 90, 80, 81, 60, 60, 30, 20, 25, 11, 9, 8, 12, 10.]),
         np.array([41000, 47000, 39000, 51000, 50000, 50000, 44000, 62000, 65000, 30000, 27000, 33000, 48000, 52000.])][k]
    o = np.concatenate([[c[0]], c[:-1]]) + np.array([0, 1] * 7)
    h = np.maximum(o, c) + np.array([2, 1, 3, 5, 2, 1, 9] * 2)
    lo = np.maximum(1, np.minimum(o, c) - np.array([1, 2, 0, 1, 1, 3, 2] * 2))
    v = np.array([5, 100, 90, 3, 44, 60, 7, 21, 80, 99, 2, 30, 31, 32.])
    b = np.minimum(v, np.array([3, 60, 45, 3, 20, 30, 1, 20, 8, 9, 2, 17, 30, 30.]))   # volume bought
    s = np.array([1, 2, 3, 4, 2, 1, 2] * 2, float)                                     # deviations
    if k == 3:   # products of these do not fit the types that hold them
        v, b, s = v * 20000, b * 20000, s * 1000
    return {"o": o, "h": h, "l": lo, "c": c, "v": v, "b": b, "s": s}


def items():
    out = []
    for k in range(4):
        cols = ohlc(k)
        for f in fl.FEATURES:
            ins = fl.get_cols(cols, f.ins)
            data = {str(i): np.asarray(x, float) for i, x in enumerate(ins)}
            for n, p in enumerate(f.params):
                out.append(Item(f"feature {f.name} {n} data {k}", data, lambda d, f=f, p=p: f.call([d[str(i)] for i in range(len(d))], p)))
        out.append(Item(f"structural break data {k}", {"y": cols["c"]}, lambda d: fl.chu_stinchcombe_white_cusum_test(d["y"]), True))
    from quantfinlib.distance import correlation as co
    from quantfinlib.distance import distance_matrix as dm
    from quantfinlib.distance import information as inf
    from quantfinlib.distance import matrix_divergence as md
    a, b = ohlc(0)["c"], ohlc(1)["c"]
    tab = np.stack([ohlc(0)["c"], ohlc(1)["c"], ohlc(2)["c"]], 1)
    for n in ("mutual_info", "var_info", "kl_divergence_xy", "compute_entropies"):
        for bins in (None, 3):
            if bins is None and n == "compute_entropies":
                continue
            out.append(Item(f"{n} bins={bins}", {"x": a, "y": b}, lambda d, f=getattr(inf, n), bins=bins: f(d["x"], d["y"], bins=bins), True))
            frac = np.sin(np.arange(14) * 1.7)
            out.append(Item(f"{n} bins={bins} fractions", {"x": a, "y": frac}, lambda d, f=getattr(inf, n), bins=bins: f(d["x"], d["y"], bins=bins), tol=1e-7))
            out.append(Item(f"{n} bins={bins} wide", {"x": b, "y": ohlc(3)["c"]}, lambda d, f=getattr(inf, n), bins=bins: f(d["x"], d["y"], bins=bins)))
    for n in ("mutual_info", "var_info"):
        for norm in (True, False):
            out.append(Item(f"matrix {n} {norm}", {"X": tab}, lambda d, n=n, norm=norm: dm.get_info_distance_matrix(d["X"], method=n, bins=3, norm=norm), True))
    for m, c in product(("angular", "abs_angular", "squared_angular"), ("pearson", "spearman")):
        out.append(Item(f"corr matrix {m} {c}", {"X": tab}, lambda d, m=m, c=c: dm.get_corr_distance_matrix(d["X"], corr_method=c, corr_to_dist_method=m), True, tol=1e-7))
    half = np.array([[1, 0.5, -0.25], [0.5, 1, 0.25], [-0.25, 0.25, 1]])
    one = np.array([[1.0, 0, 1], [0, 1, 0], [1, 0, 1]])
    for m in ("angular", "abs_angular", "squared_angular"):
        out.append(Item(f"corr_to_dist {m}", {"C": half}, lambda d, m=m: dm.corr_to_dist(d["C"], m), False))
        out.append(Item(f"corr_to_dist whole {m}", {"C": one}, lambda d, m=m: dm.corr_to_dist(d["C"], m), True))
        out.append(Item(f"pair {m} wide", {"x": ohlc(3)["c"], "y": ohlc(3)["v"]}, lambda d, f=getattr(co, f"pair_{m}_distance"): f(d["x"], d["y"])))
        out.append(Item(f"pair {m}", {"x": a, "y": b}, lambda d, f=getattr(co, f"pair_{m}_distance"): f(d["x"], d["y"]), True))
    for n in ("log_det_divergence", "von_neuman_divergence"):
        out.append(Item(n, {"A": np.array([[4.0, 1], [1, 3]]), "B": np.array([[2.0, 1], [1, 5]])}, lambda d, f=getattr(md, n): f(d["A"], d["B"]), True, null=False))
    from quantfinlib.clustering import HC, gap_statistic, silhouette_tstat
    D = np.array([[0.0, 1, 5, 6], [1, 0, 4, 5], [5, 4, 0, 2], [6, 5, 2, 0]])
    H = np.array([[1.0, 0, 0.5, 0.25], [0, 1, 0.5, 0], [0.5, 0.5, 1, -0.5], [0.25, 0, -0.5, 1]])
    lab = np.array([0.0, 0, 1, 1])
    for lm in ("ward", "single", "complete", "average", "centroid"):
        def hc(d, key, lm=lm):
            h = HC(**{key: d[key]}, linkage_method=lm)
            return {"linkage": h.linkage, "dist": h.dist, "c": [np.asarray(v, float) if not isinstance(v, list) else v for v in [h.get_clusters(2), h.get_clusters(3)]]}
        out.append(Item(f"HC dist {lm}", {"dist": D}, lambda d, hc=hc: hc(d, "dist"), True, tol=1e-7))
        out.append(Item(f"HC corr {lm}", {"corr": H}, lambda d, hc=hc: hc(d, "corr"), False, tol=1e-7))
        out.append(Item(f"HC X {lm}", {"X": tab}, lambda d, hc=hc: hc(d, "X"), True, tol=1e-7))
    out.append(Item("gap statistic", {"d": D, "l": lab}, lambda d: gap_statistic(d["d"], d["l"], nb=3, random_state=4), True, null=False))
    out.append(Item("silhouette", {"d": D, "l": lab}, lambda d: silhouette_tstat(d["d"], d["l"]), True, null=False))
    from quantfinlib.math import cov as qc
    C = np.array([[4.0, 2, 1], [2, 9, 3], [1, 3, 16]])
    sd = np.array([2.0, 3, 4])
    ev, U = np.array([2.0, 1.0, 0.0]), np.eye(3)[:, ::-1].copy()
    evs = np.array([3.0, 1, 1, 0, 2, 1])
    for n, whole, data in (("_cov_to_cor", True, [C]), ("_cor_to_cov", False, [half, sd]), ("_cor_to_cov", True, [one, sd]), ("_cor_to_eig", True, [one]),
                           ("_cor_to_eig", False, [half]), ("_eig_to_cor", True, [ev, U]), ("_eig_complete", True, [ev[:2], U[:, :2]]),
                           ("_cov_denoise", True, [C, 9]), ("_cor_denoise", False, [half, 9]), ("_marchenko_pastur_pdf", True, [1.0, 12, 6, evs]),
                           ("_marchenko_pastur_fit", True, [12, 6, evs])):
        f = getattr(qc, n, None)
        if f is None:
            continue
        data = {str(i): x for i, x in enumerate(data)}
        arr = {k: v for k, v in data.items() if isinstance(v, np.ndarray)}
        out.append(Item(f"{n} {'whole' if whole else 'fractions'}", arr, lambda d, f=f, data=data: f(*[d.get(k, v) for k, v in data.items()]), whole,
                        series=False, tol=1e-6))
    for kind in ("bm", "gbm", "ou"):
        for V in (1, 2):
            x = tab[:, :V]

            def model(d, kind=kind, V=V):
                m = sl.make(kind, {"drift": d["p"], "mrr": d["q"], "vol": d["v"], "cor": d.get("c")})
                return {"sample": m.path_sample(x0=d["x0"], dt=0.5, num_steps=3, num_paths=2, random_state=3), "nll": m.nll(x, dt=0.5), "aic": m.aic(x, dt=0.5)}

            def fitted(d, kind=kind, V=V):
                m = sl.make(kind, {"drift": 0.5, "mrr": 0.5, "vol": 0.5})
                m.fit(d["x"], dt=0.25)
                return {"p": [m.mean, m.mrr] if kind == "ou" else [m.drift], "vol": m.vol, "last": m.path_sample(x0="last", num_steps=2, num_paths=1, random_state=1)}

            def judged(d, kind=kind, V=V):
                m = sl.make(kind, {"drift": 0.5, "mrr": 0.5, "vol": 0.5} if V == 1 else
                            {"drift": np.array([0.5, 1]), "mrr": np.array([0.5, 1]), "vol": np.array([0.5, 1]), "cor": half[:2, :2]})
                return [m.nll(d["x"], dt=0.5), m.aic(d["x"], dt=0.5), m.bic(d["x"], dt=0.5)]
            one_ = np.arange(1.0, V + 1)
            out.append(Item(f"{kind} V={V} parameters", {"p": one_, "q": one_[::-1].copy(), "v": one_ * 2, "x0": one_ + 4, **({"c": np.eye(2)} if V == 2 else {})},
                            model, True, null=False))
            out.append(Item(f"{kind} V={V} fractions", {"p": one_ / 4, "q": one_ / 2, "v": one_ / 8, "x0": one_ + 0.5, **({"c": half[:2, :2]} if V == 2 else {})},
                            model, False, null=False, tol=1e-6))
            out.append(Item(f"{kind} V={V} fit", {"x": x}, fitted, True, tol=1e-6))
            out.append(Item(f"{kind} V={V} likelihood", {"x": x}, judged, True, tol=1e-6))
    return out


ITEMS = {}


def table():
    if not ITEMS:
        ITEMS.update({i.name: i for i in items()})
    return ITEMS


ASSUMPTIONS = ["an element type is used for an input only if it holds its numbers exactly (single precision: to rounding)",
               "float32 data may be processed in single precision (tolerance 2e-3), all other types as precisely as float64",
               "objects, complex numbers, half and extended precision and missing values in nullable columns are excluded"]


def BOUNDS(tier):
    return (f"{len(table())} calls x element types {INTS + FLOATS + SWAPPED_I + SWAPPED_F} x memory layouts {LAYOUTS} x array/series/frame, pandas nullable types "
            f"{NULL_I + NULL_F}; all inputs changed together, one at a time, and each in its own narrowest type" + ("" if tier == "quick" else "; every pair of variants for two inputs"))


def cases(tier):
    for n in table():
        yield {"item": n, "tier": tier}
    yield {"scalars": tier}


def lay(a, how):
    """same values, other memory layout"""
    if how == "C":
        return a.copy()
    if how == "F":
        return np.asfortranarray(a.copy())
    if how == "strided":
        return np.repeat(a, 2, axis=0)[::2]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "transposed":
        return a.T.copy().T
    if how == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    return np.stack([a, a], -1)[..., 0]


def types(a):
    """the element types that hold these numbers exactly (single precision: nearly)"""
    out = FLOATS + SWAPPED_F
    if np.all(a == np.round(a)):
        out = out + [t for t in INTS + SWAPPED_I if np.iinfo(t).min <= a.min() and a.max() <= np.iinfo(t).max]
    return out


def variants(it, keys):
    """name -> function array -> input, for the inputs named"""
    out = {}
    sets = [types(it.data[k]) for k in keys]
    ts = [t for t in sets[0] if all(t in s for s in sets)]
    whole = [t for t in ("uint8", "int32") if t in ts]
    for t in ts:
        out[f"array {t}"] = lambda a, t=t: a.astype(t)
    for how in LAYOUTS:
        out[f"array {how}"] = lambda a, how=how: lay(a, how)
        for t in whole:
            out[f"array {t} {how}"] = lambda a, how=how, t=t: lay(a.astype(t), how)
    if it.series:
        def box(a):
            return pd.Series(a) if a.ndim == 1 else pd.DataFrame(a)
        for t in ts:
            out[f"pandas {t}"] = lambda a, t=t: box(a.astype(t))
        for how in LAYOUTS:
            out[f"pandas {how}"] = lambda a, how=how: box(lay(a, how))
        out["pandas mixed"] = lambda a: box(a) if a.ndim == 1 else pd.DataFrame({j: a[:, j].astype("float32" if j % 2 else "float64") for j in range(a.shape[1])})
        if it.null:
            for t in NULL_F + [t for t in NULL_I if t.lower() in ts]:
                out[f"pandas {t}"] = lambda a, t=t: box(a).astype(t)
    return out


def flat(v):
    if isinstance(v, dict):
        return [x for k in v for x in flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat(y)]
    if v is None:
        return []
    return list(np.asarray(v, dtype=float).ravel())


SCALARS = {"int": int, "float": float, "0-d": lambda v: np.array(v, float).reshape(1), **{t: getattr(np, t) for t in INTS + FLOATS}}


def scalars(ctx):
    from quantfinlib.distance import correlation as co
    for kind, V in product(("bm", "gbm", "ou"), (1, 2)):
        def go(p, q, v, x0, dt):
            m = sl.make(kind, {"drift": p, "mrr": q, "vol": v, "cor": None if V == 1 else np.eye(2)})
            return flat([m.path_sample(x0=x0, dt=dt, num_steps=3, num_paths=2, random_state=3), m.nll(np.array([[4.0] * V, [5.0] * V, [7.0] * V]), dt=dt)])
        two = (lambda a: a) if V == 1 else (lambda a: np.array([a, a + 1]))
        base = [two(1.0), two(2.0), two(3.0), 4.0, 1.0]
        ref = np.array(go(*base))
        for j, (n, f) in product(range(5), SCALARS.items()):
            if V == 2 and j < 3 or n == "0-d" and j == 4:
                continue
            a = list(base)
            a[j] = f(a[j])
            ctx.step()
            ctx.trace()
            ctx.state(kind, V, j, n)
            got = np.array(go(*a))
            if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-9):
                ctx.fail("scalar", f"{kind} V={V}: argument {j} as {n}: {got.tolist()} instead of {ref.tolist()}")
    for m in ("angular", "abs_angular", "squared_angular"):
        f = getattr(co, f"corr_to_{m}_dist")
        for v, (n, t) in product((0.0, 1.0, -1.0, 0.5, -0.25), SCALARS.items()):
            if n == "0-d" or v != int(v) and "int" in n or v < 0 and "uint" in n:
                continue
            ctx.step()
            ctx.trace()
            ctx.state(m, v, n)
            if abs(float(f(t(v))) - float(f(v))) > 1e-6:
                ctx.fail("scalar", f"corr_to_{m}_dist({n}({v})) is {f(t(v))} instead of {f(v)}")


def run(case, ctx):
    warnings.simplefilter("ignore")
    if "scalars" in case:
        return scalars(ctx)
    it = table()[case["item"]]
    base = {k: v.astype(float).copy() for k, v in it.data.items()}
    ref = np.array(flat(it.fn({k: v.copy() for k, v in base.items()})))
    var = {None: variants(it, list(it.data)), **{k: variants(it, [k]) for k in it.data}}

    def go(tag, d, single, series):
        keep = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in d.items()}
        ctx.step()
        try:
            got = np.array(flat(it.fn(d)))
        except Exception as e:  # noqa
            if ">" in tag:
                ctx.outcome("byte order rejected")   # pandas has no operations on swapped bytes; a rejection is not a wrong result
                return
            ctx.fail("rejected " + tag.split(" ")[-1], f"{it.name} with {tag}: {type(e).__name__}: {e}")
            return
        tol = 2e-3 if single else it.tol
        ok = got.shape == ref.shape and np.array_equal(np.isnan(got), np.isnan(ref)) and np.allclose(got, ref, rtol=tol, atol=tol, equal_nan=True)
        if not ok:
            ctx.fail("value", f"{it.name} with {tag}: {got.tolist()[:14]} instead of {ref.tolist()[:14]}")
        for k in d:
            same = d[k].equals(keep[k]) if hasattr(d[k], "equals") else np.array_equal(d[k], keep[k])
            if not same:
                ctx.fail("modified", f"{it.name} with {tag}: input {k} changed")
        ctx.state(it.name, tag)
        ctx.trace()

    def narrow(n):
        return "f4" in n or "float32" in n.lower() or "mixed" in n

    for n, f in var[None].items():
        go(f"all {n}", {k: f(v) for k, v in base.items()}, narrow(n), None)
    if len(base) > 1:
        for j in base:
            for n, f in var[j].items():
                kind = n.split()[0]
                d = {k: (f(v) if k == j else (v.copy() if kind == "array" else pd.Series(v) if v.ndim == 1 else pd.DataFrame(v))) for k, v in base.items()}
                go(f"{j} {n}", d, narrow(n), None)
        # every input in its own narrowest type, and in turn in its widest
        tight = {k: min((t for t in types(v) if t in INTS), key=lambda t: (np.dtype(t).itemsize, t[0] != "u"), default="float64") for k, v in base.items()}
        for j in [None] + list(base):
            for boxed in (False, True) if it.series else (False,):
                d = {k: v.astype(("int64" if tight[k] != "float64" else "float64") if k == j else tight[k]) for k, v in base.items()}
                go(f"narrowest types but {j} {'pandas' if boxed else 'array'}", {k: (pd.Series(v) if v.ndim == 1 else pd.DataFrame(v)) if boxed else v for k, v in d.items()}, False, None)
    if case["tier"] == "thorough" and len(base) > 1:
        for j in base:
            rest = variants(it, [k for k in base if k != j])
            for (n, f), (m, g) in product(var[j].items(), rest.items()):
                if n.split()[0] == m.split()[0]:
                    go(f"{j} {n} others {m}", {k: (f if k == j else g)(v) for k, v in base.items()}, narrow(n) or narrow(m), None)
    ctx.sample({"call": it.name, "variants": len(var[None])})
