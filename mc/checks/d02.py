"""D02: information measures against contingency tables."""
import math
from collections import Counter
from itertools import product

import numpy as np
import pandas as pd

import quantfinlib.distance as qd

ID = "D02"
CASE_LIMIT = 240
CHUNK = 1
ASSUMPTIONS = ["values lie away from inner bin edges or exactly on dyadic ones, so bin membership does not depend on rounding",
               "normalised versions are claimed where the normalising entropy is positive; default bin counts for non-constant series",
               "the triangle inequality is claimed for unnormalised and normalised variation of information at a common bin count"]
A = (0.0, 1.0, 2.5, 7.0)     # away from the edges for 2..5 bins
Bd = (0.0, 1.0, 2.0, 4.0)    # on the edges for 2 and 4 bins
BINS = (2, 3, 5)


def BOUNDS(tier):
    return ("all pairs of series of length 4 (5) over 3 levels and of length 3 over 4 levels x bins 2,3,5 (2,4 for on-edge "
            "levels) x normalised or not x containers; all triples of those series for the triangle inequality; all joint "
            "reorderings of length 4; scalings and shifts; matrices of all column triples; default bins on all pairs, on 8 long series, and on 6 "
            f"pairs of every length from 2 to {241 if tier == 'quick' else 2001} and of sizes up to {20000 if tier == 'quick' else 70000}")


def cases(tier):
    q = tier == "quick"
    n = 4 if q else 5
    for x in product(A[:3], repeat=n):
        yield {"t": "pairs", "x": list(x), "set": "A3", "bins": [2, 3, 5]}
    for x in product(Bd[::3] + (2.0,), repeat=4):
        yield {"t": "pairs", "x": list(x), "set": "B3", "bins": [2, 4]}
    for x in product(A, repeat=3):
        yield {"t": "pairs", "x": list(x), "set": "A4", "bins": [2, 3, 4]}
    for b in (2, 3, 5):
        yield {"t": "tri", "bins": b, "n": n}
    for i in range(8):
        for m in range(6):
            yield {"t": "long", "i": i, "m": m, "n": 40 if q else 400}
    for x in product(A[:3], repeat=4):
        if x[0] <= x[1]:
            yield {"t": "matrix", "x": list(x)}
    for lo in range(2, 242 if q else 2002, 10):
        yield {"t": "sizes", "lo": lo, "hi": lo + 10}
    for n in (300, 700, 1100, 4097, 20000) if tier == "quick" else (300, 700, 1100, 4097, 20000, 70000):
        yield {"t": "sizes", "lo": n, "hi": n + 1}


def tab(x, bins):
    """bin number of every sample, or None when rounding would decide"""
    lo, hi = min(x), max(x)
    if lo == hi:
        return [0] * len(x)
    out = []
    dy = all(float(v).is_integer() for v in (lo, hi)) and math.log2(hi - lo).is_integer() and math.log2(bins).is_integer()
    for v in x:
        p = (v - lo) / (hi - lo) * bins
        if not dy and abs(p - round(p)) < 1e-6 and 0 < round(p) < bins:
            return None
        out.append(min(bins - 1, int(math.floor(p + (0 if dy else 1e-9)))))
    return out


def H(items):
    n = len(items)
    return -math.fsum(c / n * math.log(c / n) for c in Counter(items).values())


def close(a, b, tol=1e-9):
    return np.ndim(a) == 0 and abs(float(a) - b) <= tol


def rule(n, rho=None):
    if rho is None:
        z = (8 + 324 * n + 12 * math.sqrt(36 * n + 729 * n ** 2)) ** (1 / 3)
        b = z / 6 + 2 / (3 * z) + 1 / 3
    else:
        b = math.sqrt(0.5) * math.sqrt(1 + math.sqrt(1 + 24 * n / (1 - rho ** 2)))
    return None if abs(b - math.floor(b) - 0.5) < 1e-6 else int(round(b))


def pearson(x, y):
    a, b = np.asarray(x) - np.mean(x), np.asarray(y) - np.mean(y)
    return float((a @ b) / math.sqrt((a @ a) * (b @ b)))


def pair(ctx, x, y, bins, full=True):
    u, v = tab(x, bins), tab(y, bins)
    if u is None or v is None:
        ctx.outcome("near-edge skipped")
        return None
    hx, hy, hxy = H(u), H(v), H(list(zip(u, v)))
    X, Y = np.array(x), np.array(y)
    tag = f"x={x} y={y} bins={bins}"
    got = qd.compute_entropies(X, Y, bins)
    ctx.step()
    ctx.trace()
    if len(got) != 3 or not all(close(g, w) for g, w in zip(got, (hx, hy, hxy))):
        ctx.fail("entropies", f"{tag}: {got} instead of {(hx, hy, hxy)}")
        return None
    mi, vi = hx + hy - hxy, 2 * hxy - hx - hy
    g = qd.mutual_info(X, Y, bins, False)
    w = qd.var_info(X, Y, bins=bins, norm=False)
    ctx.step(2)
    if not close(g, mi) or g < -1e-12:
        ctx.fail("mutual", f"{tag}: {g} instead of {mi}")
    if not close(w, vi) or w < -1e-12:
        ctx.fail("variation", f"{tag}: {w} instead of {vi}")
    if hx > 0 and hy > 0:
        g = qd.mutual_info(X, Y, bins=bins)
        ctx.step()
        if not close(g, mi / math.sqrt(hx * hy)) or not -1e-12 <= g <= 1 + 1e-12:
            ctx.fail("mutual-norm", f"{tag}: {g} instead of {mi / math.sqrt(hx * hy)}")
    if hxy > 0:
        w = qd.var_info(X, Y, bins)
        ctx.step()
        if not close(w, vi / hxy) or not -1e-12 <= w <= 1 + 1e-12:
            ctx.fail("variation-norm", f"{tag}: {w} instead of {vi / hxy}")
    n = len(x)

    def histogram(z, k):
        # a constant series sits in the middle bin
        c = Counter(k) if min(z) != max(z) else Counter({bins // 2: n})
        return [c.get(i, 0) / n for i in range(bins)]

    p, q = histogram(x, u), histogram(y, v)
    kl = math.fsum(a * math.log(a / b) for a, b in zip(p, q) if a and b)
    if (min(x) != max(x) and min(y) != max(y)):
        g = qd.kl_divergence_xy(X, Y, bins)
        ctx.step()
        if not close(g, kl):
            ctx.fail("divergence", f"{tag}: {g} instead of {kl}")
    if full:
        s, t = pd.Series(X, index=[7] * n), pd.Series(Y, index=range(5, 5 + n))
        a = [qd.mutual_info(s, t, bins, norm=False), qd.var_info(y=Y, x=X, bins=bins, norm=False), qd.mutual_info(Y, X, bins, False),
             qd.var_info(t, s, bins, False)]
        ctx.step(4)
        if not (close(a[0], mi) and close(a[1], vi) and close(a[2], mi) and close(a[3], vi)):
            ctx.fail("container-or-symmetry", f"{tag}: {a} instead of {(mi, vi, mi, vi)}")
        for sc, sh in ((4.0, 0.0), (0.125, 2.0), (2.0 ** 20, -512.0), (3.7, 11.1)):
            if sc == 3.7 and any(float(z) not in A for z in list(x) + list(y)):
                continue
            Z = X * sc + sh
            a = (qd.mutual_info(Z, Y, bins, False), qd.var_info(Y, Z, bins, False))
            ctx.step(2)
            if not (close(a[0], mi) and close(a[1], vi)):
                ctx.fail("units", f"{tag}: x*{sc}+{sh}: {a} instead of {(mi, vi)}")
        if min(x) != max(x):
            g = qd.kl_divergence_xy(X, X.copy(), bins)
            if not close(g, 0.0):
                ctx.fail("self-divergence", f"{tag}: {g}")
        o = np.argsort([(7 * i + 3) % n for i in range(n)], kind="stable")[::-1]
        a = (qd.mutual_info(X[o], Y[o], bins, False), qd.var_info(X[o], Y[o], bins, False))
        if not (close(a[0], mi) and close(a[1], vi)):
            ctx.fail("reordering", f"{tag}: {a} instead of {(mi, vi)}")
        if X.tolist() != list(x) or Y.tolist() != list(y):
            ctx.fail("input-modified", tag)
    return mi, vi


def default_bins(ctx, x, y, tag):
    if min(x) == max(x) or min(y) == max(y):
        return
    rho = pearson(x, y)
    X, Y = np.array(x), np.array(y)
    for name, f, kw in (("mutual_info", qd.mutual_info, {"norm": False}), ("var_info", qd.var_info, {"norm": False}),
                        ("mutual_info", qd.mutual_info, {}), ("var_info", qd.var_info, {}),
                        ("kl", qd.kl_divergence_xy, {})):
        g = f(X, Y, **kw)
        ctx.step()
        ctx.trace()
        if abs(abs(rho) - 1) < 1e-9:
            ks = [rule(len(x))]
        elif abs(abs(rho) - 1) < 1e-3:
            ks = [rule(len(x)), rule(len(x), rho)]
        else:
            ks = [rule(len(x), rho)]
        if None in ks:
            continue
        ws = [f(X, Y, bins=k, **kw) for k in ks]
        if not any(close(g, float(w)) or (np.isnan(w) and np.isnan(g)) for w in ws):
            ctx.fail("default-bins", f"{tag} {name} {kw}: {g} instead of {ws} with {ks} bins")
        if not np.isfinite(g) and kw:
            ctx.fail("default-bins-undefined", f"{tag} {name}: {g}")


def long(i, n):
    t = np.arange(n)
    base = np.sin(1.3 * t) + 0.5 * np.cos(0.17 * t * t)
    return [base, -3 * base + 2, base * 1e-6, np.sin(0.9 * t + 1), base ** 3, base + 0.001 * np.cos(2.1 * t), t * 1.0,
            base + 1e-6 * np.cos(2.1 * t)][i]


def run(case, ctx):
    t = case["t"]
    if t == "pairs":
        x = case["x"]
        L = {"A3": A[:3], "A4": A, "B3": Bd[::3] + (2.0,)}[case["set"]]
        for k, y in enumerate(product(L, repeat=len(x))):
            for b in case["bins"]:
                if pair(ctx, x, list(y), b, full=(k % 5 == 0)) is not None:
                    ctx.state(tuple(x), y, b)
            if k % 3 == 0:
                default_bins(ctx, x, list(y), f"x={x} y={list(y)}")
        ctx.sample({"x": x, "y": list(y), "bins": case["bins"]})
        return
    if t == "tri":
        S = [np.array(s) for s in product(A[:3], repeat=4)]
        n = len(S)
        for norm in (False, True):
            D = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    D[i, j] = qd.var_info(S[i], S[j], case["bins"], norm)
            ctx.step(n * n)
            D[np.isnan(D)] = 0.0  # two constant series: no entropy to normalise
            if np.any(np.abs(D - D.T) > 1e-9):
                ctx.fail("symmetry", f"variation of information, bins {case['bins']}, normalised {norm}")
            if np.any(np.abs(np.diag(D)) > 1e-9):
                ctx.fail("identity", f"variation of a series with itself, bins {case['bins']}")
            for j in range(n):
                bad = D > D[:, [j]] + D[[j], :] + 1e-9
                ctx.trace(n * n)
                if bad.any():
                    a, b = np.argwhere(bad)[0]
                    ctx.fail("triangle", f"normalised {norm} bins {case['bins']}: {S[a].tolist()} {S[j].tolist()} {S[b].tolist()}")
                    break
        ctx.state("tri", case["bins"])
        return
    if t == "long":
        n = case["n"]
        x = long(case["i"], n).tolist()
        for j in range(8):
            y = long(j, n).tolist()
            default_bins(ctx, x, y, f"long series {case['i']},{j} of {n}")
            b = (2, 3, 5, 8, 13, 20)[case["m"]]
            if pair(ctx, x, y, b, full=False) is not None:
                ctx.state("long", case["i"], j, b)
        return
    if t == "sizes":
        for n in range(case["lo"], case["hi"]):
            i = np.arange(n)
            x = i ** 1.5 + np.sin(1.0 + i)
            # exactly and hardly correlated, and everything between
            for j, y in enumerate([x, 2.0 - 4.0 * x] + [x + a * n ** 1.5 * np.cos(1.7 * i + 0.1 * i * i) for a in (0.1, 0.3, 1.0, 10.0)]):
                default_bins(ctx, x.tolist(), y.tolist(), f"{n} observations, pair {j}")
                ctx.state("size", n, j)
        return
    x = np.array(case["x"])
    Y = [np.array(s) for s in ((0.0, 1.0, 2.5, 7.0), (7.0, 1.0, 1.0, 0.0), (1.0, 0.0, 1.0, 0.0), (2.5, 2.5, 2.5, 0.0))]
    lab = ["k", 3, "a"]
    for i in range(4):
        for j in range(4):
            X = np.column_stack([Y[i], x, Y[j]])
            keep = X.copy()
            for method, f in (("mutual_info", qd.mutual_info), ("var_info", qd.var_info)):
                for kw in ({"bins": 3}, {"bins": 2, "norm": False}, {"bins": 5, "norm": True}, {}):
                    if not kw and min(x) == max(x):
                        continue
                    m = qd.get_info_distance_matrix(X, method=method, **kw)
                    d = qd.get_info_distance_matrix(pd.DataFrame(X, columns=lab), method, **kw)
                    ctx.step(2)
                    ctx.trace(2)
                    if not isinstance(m, np.ndarray) or not isinstance(d, pd.DataFrame) or list(d.index) != lab \
                            or list(d.columns) != lab:
                        ctx.fail("matrix-labels", f"{method} {kw} {X.T.tolist()}")
                        continue
                    w = np.zeros((3, 3))
                    for a in range(3):
                        for b in range(3):
                            w[a, b] = float(f(X[:, a], X[:, b], **kw))
                            if a == b and (method == "var_info" or kw.get("norm", True)):
                                w[a, b] = 0.0 if method == "var_info" else 1.0
                    for nm, g in (("array", m), ("frame", d.to_numpy())):
                        if not np.allclose(g, w, atol=1e-9, rtol=0, equal_nan=True):
                            ctx.fail("matrix", f"{method} {kw} {nm} {X.T.tolist()}: {g.tolist()} instead of {w.tolist()}")
            if not np.array_equal(keep, X):
                ctx.fail("input-modified", "dataset matrix")
            ctx.state("mat", tuple(x), i, j)
    try:
        qd.get_info_distance_matrix(X, method="nonsense")
        ctx.fail("accepted-method", "nonsense")
    except Exception:
        pass
    ctx.sample({"columns": X.T.tolist()})
