"""D01: correlation distances."""
from itertools import combinations, permutations, product

import numpy as np
import pandas as pd

import quantfinlib.distance as qd

try:
    from quantfinlib.distance.distance_matrix import corr_to_dist
except ImportError:  # a private route; the public ones remain
    corr_to_dist = None

ID = "D01"
CASE_LIMIT = 240
CHUNK = 1
ASSUMPTIONS = ["distances are compared through their squares to 1e-9 (the root amplifies rounding near zero)",
               "triangle inequality is checked on positive semi-definite correlation matrices",
               "rejected matrices are off by 1e-3 or more; entries off by at most 1e-9 are accepted as round-off"]
METHODS = {"angular": (qd.corr_to_angular_dist, qd.pair_angular_distance, lambda c: (1 - c) / 2),
           "abs_angular": (qd.corr_to_abs_angular_dist, qd.pair_abs_angular_distance, lambda c: 1 - abs(c)),
           "squared_angular": (qd.corr_to_squared_angular_dist, qd.pair_squared_angular_distance, lambda c: 1 - c * c)}


def BOUNDS(tier):
    return ("scalar grid of 4001 correlations with their float neighbours and round-off overshoots; all positive semi-definite "
            "2x2 and 3x3 correlation matrices over 9 (17) levels, all 4x4 over 5 levels, all permutations of 3x3; all pairs of the 78 "
            "non-constant series of length 4 over 3 levels (and length 5 over 3 levels in thorough) through the pair and "
            "dataset routes x units x containers; all single invalid perturbations")


def cases(tier):
    q = tier == "quick"
    yield {"t": "scalar", "n": 4001 if q else 40001}
    G = list(np.linspace(-1, 1, 9 if q else 17))
    for a in G:
        yield {"t": "m2", "a": a}
        for b in G:
            yield {"t": "m3", "a": a, "b": b, "g": len(G)}
    for a in (-1.0, -0.5, 0.0, 0.5, 1.0):
        for b in (-1.0, -0.5, 0.0, 0.5, 1.0):
            yield {"t": "m4", "a": a, "b": b}
    n = 4 if q else 5
    for i in range(len(cols(n))):
        yield {"t": "data", "i": i, "n": n}
    yield {"t": "invalid"}
    for n in (5, 6) if q else (5, 6, 7, 8):
        yield {"t": "holes", "n": n}
    for n in (5, 8, 30):
        yield {"t": "corrcoef", "n": n}


def cols(n):
    return [s for s in product((0.0, 1.0, 3.0), repeat=n) if len(set(s)) > 1]


def psd(m):
    return np.linalg.eigvalsh(m)[0] >= -1e-9


def close_sq(g, w2):
    return np.all(np.abs(np.asarray(g, float) ** 2 - w2) <= 1e-9)


def matrix(ctx, m, tag, tri=True):
    ref = np.clip(m, -1, 1)
    for name, (f, pair, sq) in METHODS.items():
        w2 = np.clip(sq(ref), 0, 1)
        np.fill_diagonal(w2, 0)
        lab = [f"a{i}" for i in range(len(m))][::-1]
        routes = [("array", lambda x: f(x)), ("frame", lambda x: f(pd.DataFrame(x, index=lab, columns=lab)))]
        if corr_to_dist is not None:
            routes += [("corr_to_dist", lambda x: corr_to_dist(x, name)),
                       ("corr_to_dist frame", lambda x: corr_to_dist(pd.DataFrame(x, index=lab, columns=lab), name))]
        for rn, g in routes:
            src = m.copy()
            r = g(src)
            ctx.step()
            ctx.trace()
            if "frame" in rn:
                if not isinstance(r, pd.DataFrame) or list(r.index) != lab or list(r.columns) != lab:
                    ctx.fail("labels", f"{name} {rn} {tag}: labels or container lost")
                    continue
            elif not isinstance(r, np.ndarray):
                ctx.fail("container", f"{name} {rn} {tag}: {type(r).__name__}")
                continue
            d = np.asarray(r, float)
            if not np.array_equal(src, m):
                ctx.fail("input-modified", f"{name} {rn} {tag}")
            if np.shares_memory(d, src):
                ctx.fail("alias", f"{name} {rn} {tag}: result shares memory with the input")
            if d.shape != m.shape or not close_sq(d, w2):
                ctx.fail("formula", f"{name} {rn} {tag}: {d.tolist()} for {m.tolist()}")
                continue
            if np.any(np.diag(d) != 0):
                ctx.fail("diagonal", f"{name} {rn} {tag}: {np.diag(d).tolist()}")
            if np.any(np.abs(d ** 2 - d.T ** 2) > 1e-9):
                ctx.fail("symmetry", f"{name} {rn} {tag}: {d.tolist()}")
            if np.any(d < 0) or np.any(d > 1):
                ctx.fail("bounds", f"{name} {rn} {tag}: {d.tolist()}")
            if tri and len(m) > 2:
                for i, j, k in permutations(range(len(m)), 3):
                    if d[i, k] > d[i, j] + d[j, k] + 2e-4:
                        ctx.fail("triangle", f"{name} {rn} {tag}: {d.tolist()}")
                        break
            if rn == "array" and len(m) == 3:
                for p in permutations(range(3)):
                    e = np.asarray(f(m[np.ix_(p, p)].copy()), float)
                    if np.any(np.abs(e ** 2 - d[np.ix_(p, p)] ** 2) > 1e-9):
                        ctx.fail("reorder", f"{name} {tag} {p}: {e.tolist()}")
    ctx.state("m", tuple(np.round(m, 9).ravel()))


def mk(n, vals):
    m = np.eye(n)
    for (i, j), v in zip(combinations(range(n), 2), vals):
        m[i, j] = m[j, i] = v
    return m


def ranks(x):
    return pd.Series(x).rank().to_numpy()


def pearson(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    a, b = x - x.mean(), y - y.mean()
    return float(np.clip((a @ b) / np.sqrt((a @ a) * (b @ b)), -1, 1))


def data(ctx, X, labels, tag):
    n = X.shape[1]
    for cm in ("pearson", "spearman"):
        R = np.eye(n)
        for i, j in combinations(range(n), 2):
            a, b = X[:, i], X[:, j]
            R[i, j] = R[j, i] = pearson(a, b) if cm == "pearson" else pearson(ranks(a), ranks(b))
        for name, (f, pair, sq) in METHODS.items():
            w2 = np.clip(sq(R), 0, 1)
            np.fill_diagonal(w2, 0)
            src = X.copy()
            got = [("array", qd.get_corr_distance_matrix(src, corr_method=cm, corr_to_dist_method=name))]
            df = pd.DataFrame(X.copy(), columns=labels)
            keep = df.copy()
            got.append(("frame", qd.get_corr_distance_matrix(df, cm, name)))
            got.append(("transformed", qd.get_corr_distance_matrix(src, cm, name, corr_transformer=lambda c: c * 1.0)))
            ctx.step(3)
            ctx.trace(3)
            if not keep.equals(df) or not np.array_equal(src, X):
                ctx.fail("input-modified", f"{tag} {name}")
            for rn, r in got:
                if rn == "frame" and (not isinstance(r, pd.DataFrame) or list(r.index) != labels or list(r.columns) != labels):
                    ctx.fail("labels", f"{tag} {name}: labels lost")
                if not close_sq(r, w2):
                    ctx.fail("dataset", f"{tag} {cm} {name} {rn}: {np.asarray(r).tolist()} expected squares {w2.tolist()}")
                if np.any(np.diag(np.asarray(r)) != 0):
                    ctx.fail("diagonal", f"{tag} {cm} {name} {rn}")
            if cm == "pearson":
                g = pair(X[:, 0], X[:, 1])
                h = pair(pd.Series(X[:, 1]), pd.Series(X[:, 0]))
                ctx.step(2)
                for v in (g, h):
                    if np.ndim(v) or not close_sq(v, w2[0, 1]):
                        ctx.fail("pair", f"{tag} {name}: {v} expected square {w2[0, 1]}")
    if n == 2:
        flip = qd.get_corr_distance_matrix(X, corr_to_dist_method="angular", corr_transformer=lambda c: 0 * c + np.eye(2))
        if not close_sq(flip, np.array([[0, .5], [.5, 0]])):
            ctx.fail("transformer", f"{tag}: correlation transformer not applied")


def rejected(f):
    try:
        f()
    except Exception:
        return True
    return False


def run(case, ctx):
    t = case["t"]
    if t == "scalar":
        vals = []
        for c in np.linspace(-1, 1, case["n"]):
            vals += [float(c), float(np.nextafter(c, 2)), float(np.nextafter(c, -2))]
        vals += [1 + 1e-15, 1 + 1e-9, -1 - 1e-15, -1 - 1e-9]
        for name, (f, pair, sq) in METHODS.items():
            for c in vals:
                for x in (c, np.float64(c)):
                    d = f(x)
                    ctx.step()
                    if np.ndim(d) or not 0 <= d <= 1 or abs(d * d - min(1, max(0, sq(min(1, max(-1, c)))))) > 1e-12:
                        ctx.fail("scalar", f"{name}({c!r}) = {d!r}")
                ctx.state("s", c)
            for c in (1, 0, -1):
                if abs(f(c) ** 2 - sq(c)) > 1e-12:
                    ctx.fail("scalar", f"{name}({c}) = {f(c)}")
        ctx.trace(len(vals))
        ctx.sample({"scalars": len(vals)})
        return
    if t == "m2":
        matrix(ctx, mk(2, [case["a"]]), "2x2")
        e = case["a"]
        if abs(e) == 1:
            matrix(ctx, mk(2, [e * (1 + 1e-10)]), "2x2 overshoot")
            m = mk(2, [e])
            m[0, 0] = 1 - 2e-10
            m[1, 1] = 1 + 2e-10
            matrix(ctx, m, "2x2 round-off on the diagonal")
        return
    if t == "m3":
        for c in np.linspace(-1, 1, case["g"]):
            m = mk(3, [case["a"], case["b"], c])
            if psd(m):
                matrix(ctx, m, "3x3")
        ctx.sample({"m3": [case["a"], case["b"]]})
        return
    if t == "m4":
        L = (-1.0, -0.5, 0.0, 0.5, 1.0)
        for rest in product(L, repeat=4):
            m = mk(4, [case["a"], case["b"], *rest])
            if psd(m):
                matrix(ctx, m, "4x4")
        matrix(ctx, np.eye(4), "identity")
        return
    if t == "data":
        C = cols(case["n"])
        x = np.array(C[case["i"]])
        for j, s in enumerate(C):
            y = np.array(s)
            if case["n"] == 5 and (j + case["i"]) % 4:
                continue
            X = np.column_stack([x, y])
            data(ctx, X, ["p", "q"], f"columns {x.tolist()} {y.tolist()}")
            ctx.state("d", tuple(x), tuple(y))
            if j % 6 == 0:
                for sc, sh in ((0.5, 0.0), (1024.0, 3.0), (1e-3, -7.0), (1.0, 1e3)):
                    data(ctx, np.column_stack([x * sc + sh, y]), ["p", 3], f"columns {x.tolist()} x {sc} + {sh}, {y.tolist()}")
                z = np.arange(case["n"]) ** 2.0
                data(ctx, np.column_stack([x, z, y]), ["b", "a", "c"], f"columns {x.tolist()} squares {y.tolist()}")
        ctx.sample({"columns": [x.tolist(), y.tolist()]})
        return
    if t == "holes":  # every pair of sets of missing values: correlations are those of the rows both series have
        n = case["n"]
        base = [np.array([2.0, 1.0, 7.0, 9.0, 4.0, 0.1, 3.0, 5.0][:n]), np.array([1.0, 2.0, 5.0, 0.3, 3.0, 6.0, -2.0, 4.0][:n]),
                np.array([1.0, 4.0, 3.0, 2.0, 8.0, -1.0, 0.5, 9.0][:n])]
        for a, b in product(range(2 ** n), repeat=2):
            if bin(a).count("1") > 2 or bin(b).count("1") > 2 or bin(a | b).count("1") > n - 3:
                continue
            X = np.column_stack(base)
            for col, mask in ((0, a), (2, b)):
                for k in range(n):
                    if mask >> k & 1:
                        X[k, col] = np.nan
            for cm in ("pearson", "spearman"):
                R = np.eye(3)
                for i, j in combinations(range(3), 2):
                    ok = ~np.isnan(X[:, i]) & ~np.isnan(X[:, j])
                    x, y = X[ok, i], X[ok, j]
                    R[i, j] = R[j, i] = pearson(x, y) if cm == "pearson" else pearson(ranks(x), ranks(y))
                for name, (f, pair, sq) in METHODS.items():
                    w2 = np.clip(sq(R), 0, 1)
                    np.fill_diagonal(w2, 0)
                    src = X.copy()
                    for rn, r in (("array", qd.get_corr_distance_matrix(src, cm, name)),
                                  ("frame", qd.get_corr_distance_matrix(pd.DataFrame(X.copy()), cm, name))):
                        ctx.step()
                        if not close_sq(r, w2):
                            ctx.fail("holes", f"missing {a:b} and {b:b} {cm} {name} {rn}: {np.asarray(r).tolist()} expected squares {w2.tolist()}")
                    if not np.array_equal(src, X, equal_nan=True):
                        ctx.fail("input-modified", f"missing values {name}")
            ctx.trace()
            ctx.state("h", n, a, b)
        return
    if t == "corrcoef":
        n = case["n"]
        i = np.arange(n * 4)
        X = (np.sin(1.7 * i) + np.cos(0.3 * i * i)).reshape(n, 4)
        X = np.column_stack([X, X[:, 0] * 3 + 1, -X[:, 1]])
        for sc in (1.0, 1e6, 1e-6):
            m = np.corrcoef(X * sc, rowvar=False)
            matrix(ctx, m, f"np.corrcoef of {n} rows x {sc}")
            data(ctx, X * sc, list("uvwxyz"), f"{n} rows x {sc}")
            p = pd.DataFrame(X * sc).corr().to_numpy()
            matrix(ctx, p, f"pandas corr of {n} rows")
        if n == 30:
            for rows, m in ((300, 40), (3000, 6)):
                i = np.arange(rows * m).reshape(rows, m)
                Y = np.sin(1.7 * i) + np.cos(0.003 * i * i) + np.sin(np.arange(rows))[:, None]
                data(ctx, Y, [f"s{j}" for j in range(m)], f"{rows} rows of {m} series")
                matrix(ctx, np.corrcoef(Y, rowvar=False), f"{m} series", tri=False)
        return
    bad = {}
    for n in (2, 3, 4):
        base = mk(n, [0.3, -0.2, 0.1, 0.0, 0.4, -0.5])
        matrix(ctx, base, "valid base")
        for i in range(n):
            for j in range(n):
                for e in (1e-3, -0.1, 0.5):
                    m = base.copy()
                    m[i, j] += e
                    bad[f"{n}x{n} entry {i},{j} off by {e}"] = m
        for lv in product((0.5, 0.75, 1.0, 1.25, 1.5), repeat=n):  # also with the right trace, product, mean or extremes
            if lv != (1.0,) * n:
                m = base.copy()
                np.fill_diagonal(m, lv)
                bad[f"{n}x{n} diagonal {lv}"] = m
        for i, j in permutations(range(n), 2):
            for k, o in permutations(range(n), 2):
                if {i, j} != {k, o}:
                    m = base.copy()
                    m[i, j] += 0.1
                    m[k, o] -= 0.1
                    bad[f"{n}x{n} entries {i},{j} and {k},{o} off by 0.1 and -0.1"] = m
        bad[f"{n}x{n - 1}"] = base[:, :-1]
        bad[f"{n - 1}x{n}"] = base[:-1]
        bad[f"{n}x{n} transposed blocks"] = base + np.triu(np.full((n, n), 0.2), 1)
        bad[f"zero {n}"] = np.zeros((n, n))
        bad[f"twice {n}"] = 2 * base
    bad["1-D"] = np.array([1.0, 0.5])
    bad["3-D"] = np.ones((2, 2, 2))
    for tag, m in bad.items():
        for name, (f, _, _) in METHODS.items():
            ctx.step()
            ctx.trace()
            if not rejected(lambda: f(m.copy())):
                ctx.fail("accepted", f"{name} accepted an invalid array: {tag}")
            if m.ndim == 2 and not rejected(lambda: f(pd.DataFrame(m))):
                ctx.fail("accepted-frame", f"{name} accepted an invalid frame: {tag}")
            if corr_to_dist is not None and not rejected(lambda: corr_to_dist(m.copy(), name)):
                ctx.fail("accepted", f"corr_to_dist {name} accepted {tag}")
        ctx.state("bad", tag)
    X = np.array([[1.0, 2], [2, 1], [3, 5]])
    for kw in ({"corr_method": "kendal"}, {"corr_to_dist_method": "euclid"}):
        if not rejected(lambda: qd.get_corr_distance_matrix(X, **kw)):
            ctx.fail("accepted-method", str(kw))
    ctx.sample({"invalid": list(bad)[:5]})
