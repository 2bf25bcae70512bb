"""M01: conversions between covariance, correlation and eigen representations."""
from itertools import combinations, product

import numpy as np

from mc.checks.d01 import mk, psd
from quantfinlib.math import cov as qc

ID = "M01"
CASE_LIMIT = 240
CHUNK = 1
ASSUMPTIONS = ["equality to 1e-9 relative; deviations above 1e-6 (below, the documented regularisation applies)",
               "eigenvectors are compared by what they span: A v = lambda v, orthonormality and reconstruction"]
STD = (1e-3, 1.0, 40.0)


def BOUNDS(tier):
    return ("all positive semi-definite 2x2 (41 levels), 3x3 (13 (21) levels) and 4x4 (5 levels) correlation matrices x deviations over "
            "3 magnitudes, structured matrices of 5-12, 24, 60 and 130 assets; x sort x every k; all compositions of up to 6 assets into blocks "
            "x block correlations")


def cases(tier):
    q = tier == "quick"
    yield {"t": "m2"}
    g = 13 if q else 21
    for a in np.linspace(-1, 1, g):
        yield {"t": "m3", "a": float(a), "g": g}
    for a, b in product((-1.0, -0.5, 0.0, 0.5, 1.0), repeat=2):
        yield {"t": "m4", "a": a, "b": b}
    for n in (2, 3, 4, 5, 6, 8):
        yield {"t": "pairwise", "n": n}
    for i in range(60 if q else 400):
        yield {"t": "big", "i": i}
    for i in range(1000, 1003 if q else 1012):
        yield {"t": "big", "i": i}
    for n in range(0, 7):
        yield {"t": "blocks", "n": n}


def big(i):
    n = 5 + i % 8 if i < 1000 else (24, 60, 130)[i % 3]
    k = np.arange(3 * n * n).reshape(3 * n, n)
    x = np.sin(0.7 * k + i) + np.cos(0.013 * (i + 1) * k * k)
    if i % 3 == 1:
        x = x[: n - 2]          # rank deficient
    if i % 3 == 2:
        x += 2 * np.sin(np.arange(len(x)))[:, None]
    x = x - x.mean(0)
    c = x.T @ x
    s = np.sqrt(np.diag(c))
    c = c / np.outer(s, s)
    np.fill_diagonal(c, 1.0)
    return (c + c.T) / 2


def near(a, b, sc=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * sc))


def eig(ctx, c, tag):
    n = len(c)
    w = np.sort(np.linalg.eigvalsh(c))[::-1]
    for sort in (True, False):
        for k in [None] + (list(range(1, n + 1)) if n < 20 else [1, 2, n // 3, n // 2, n - 1, n]):
            src = c.copy()
            v, e = qc._cor_to_eig(src, sort=sort, k=k) if k else qc._cor_to_eig(src, sort)
            ctx.step()
            ctx.trace()
            m = k or n
            if not np.array_equal(src, c):
                ctx.fail("input-modified", f"_cor_to_eig {tag}")
            if np.shape(v) != (m,) or np.shape(e) != (n, m):
                ctx.fail("eig-shape", f"{tag} sort={sort} k={k}: {np.shape(v)} {np.shape(e)}")
                continue
            want = w[:m]
            if not near(np.sort(v)[::-1], want, n):
                ctx.fail("eig-values", f"{tag} sort={sort} k={k}: {v.tolist()} instead of {want.tolist()}")
            if sort and np.any(np.diff(v) > 1e-12):
                ctx.fail("eig-order", f"{tag} k={k}: {v.tolist()}")
            if not near(c @ e, e * v, n) or not near(e.T @ e, np.eye(m), n):
                ctx.fail("eig-vectors", f"{tag} sort={sort} k={k}: {e.tolist()}")
            if m == n and w[-1] > -1e-9:
                a, b = v.copy(), e.copy()
                r = qc._eig_to_cor(a, b)
                ctx.step()
                if not near(r, c, n) or np.any(np.diag(r) != 1) or np.max(np.abs(r)) > 1:
                    ctx.fail("eig-roundtrip", f"{tag} sort={sort} k={k}: {r.tolist()} instead of {c.tolist()}")
                if not np.array_equal(a, v) or not np.array_equal(b, e):
                    ctx.fail("input-modified", f"_eig_to_cor {tag}")
            if sort and w[-1] > -1e-9:
                a, b = v.copy(), e.copy()
                V, E = qc._eig_complete(a, b)
                ctx.step()
                if np.shape(V) != (n,) or np.shape(E) != (n, n):
                    ctx.fail("complete-shape", f"{tag} k={k}")
                    continue
                if not near(V[:m], v) or not near(E[:, :m], e):
                    ctx.fail("complete-kept", f"{tag} k={k}: {V.tolist()}")
                if abs(np.sum(V) - n) > 1e-9 * n or (m < n and np.ptp(V[m:]) > 1e-9):
                    ctx.fail("complete-trace", f"{tag} k={k}: {V.tolist()}")
                if not near(E.T @ E, np.eye(n), n):
                    ctx.fail("complete-orthonormal", f"{tag} k={k}: {E.tolist()}")
                if not np.array_equal(a, v) or not np.array_equal(b, e):
                    ctx.fail("input-modified", f"_eig_complete {tag}")


def covs(ctx, c, std, tag):
    std = np.array(std)
    sc = np.outer(std, std)
    a, s = c.copy(), std.copy()
    m = qc._cor_to_cov(a, s)
    ctx.step(2)
    ctx.trace()
    if np.any(np.abs(m - c * sc) > 1e-12 * sc):
        ctx.fail("cor-to-cov", f"{tag} std={std.tolist()}: {m.tolist()}")
    if not np.array_equal(a, c) or not np.array_equal(s, std):
        ctx.fail("input-modified", f"_cor_to_cov {tag}")
    m = c * sc
    src = m.copy()
    r, d = qc._cov_to_cor(src)
    if not np.array_equal(src, m):
        ctx.fail("input-modified", f"_cov_to_cor {tag} std={std.tolist()}")
    if np.shape(r) != c.shape or np.shape(d) != std.shape or np.any(np.abs(d - std) > 1e-9 * std) or np.any(np.asarray(d) <= 0):
        ctx.fail("cov-to-cor-std", f"{tag} std={std.tolist()}: {np.asarray(d).tolist()}")
        return
    if not near(r, c) or np.max(np.abs(r)) > 1 or np.any(np.abs(np.diag(r) - 1) > 1e-12):
        ctx.fail("cov-to-cor", f"{tag} std={std.tolist()}: {r.tolist()} instead of {c.tolist()}")
    back = qc._cor_to_cov(r, d)
    if np.any(np.abs(back - m) > 1e-9 * sc):
        ctx.fail("cov-roundtrip", f"{tag} std={std.tolist()}: {back.tolist()} instead of {m.tolist()}")
    reg = float(np.median(std)) * 2
    r2, d2 = qc._cov_to_cor(src, reg)
    if np.any(np.abs(d2 - np.maximum(std, reg)) > 1e-9 * reg) or np.max(np.abs(r2)) > 1:
        ctx.fail("regularised", f"{tag} std={std.tolist()} floor {reg}: {np.asarray(d2).tolist()}")


def run(case, ctx):
    t = case["t"]
    ms = []
    if t == "m2":
        ms = [mk(2, [a]) for a in np.linspace(-1, 1, 41)]
    elif t == "m3":
        ms = [mk(3, [case["a"], b, c]) for b, c in product(np.linspace(-1, 1, case["g"]), repeat=2)]
    elif t == "m4":
        ms = [mk(4, [case["a"], case["b"], *r]) for r in product((-1.0, -0.5, 0.0, 0.5, 1.0), repeat=4)]
    elif t == "big":
        ms = [big(case["i"])]
    if t == "pairwise":  # symmetric with unit diagonal, but not positive: what pairwise correlations of data with holes give
        n = case["n"]
        for lv in ((-0.9, 0.9), (-0.5, 0.0, 0.95)):
            m = n * (n - 1) // 2
            for h in range(min(len(lv) ** m, 600)):
                vals = [lv[(h // len(lv) ** j if len(lv) ** m <= 600 else h * (j + 1) * (j + 3) // 5 + j * j) % len(lv)] for j in range(m)]
                c = mk(n, vals)
                eig(ctx, c, f"pairwise {c.tolist()}")
                ctx.state(t, tuple(c.ravel()))
        return
    if t != "blocks":
        for i, c in enumerate(m for m in ms if psd(m)):
            n = len(c)
            tag = f"{c.tolist()}" if n < 5 else f"structured {case['i']}"
            eig(ctx, c, tag)
            S = list(product(STD, repeat=n)) if n < 4 else [[STD[(j * 7 + i + h) % 3] for j in range(n)] for h in range(3)]
            S.append([(2e-6, 3e-6, 9e-6)[(j + i) % 3] for j in range(n)])  # just above the documented floor
            for s in S:
                covs(ctx, c, s, tag)
            ctx.state(t, tuple(np.round(c, 9).ravel()))
        ctx.sample({"matrix": c.tolist()})
        return
    n = case["n"]
    for cut in range(2 ** max(0, n - 1)):
        sizes, run_ = [], 0
        for j in range(n):
            run_ += 1
            if j == n - 1 or cut >> j & 1:
                sizes.append(run_)
                run_ = 0
        for cors in product((-0.2, 0.0, 0.5, 1.0, -0.9), repeat=min(3, len(sizes))):
            cs = [cors[j % len(cors)] for j in range(len(sizes))] if sizes else []
            for cont in (list, np.array):
                if not sizes and cont is np.array:
                    continue
                a, b = cont(sizes), cont(cs)
                m = qc._cor_block_diagonal(a, b)
                ctx.step()
                ctx.trace()
                w = np.eye(n)
                o = 0
                for s, r in zip(sizes, cs):
                    for x, y in combinations(range(o, o + s), 2):
                        w[x, y] = w[y, x] = r
                    o += s
                if np.shape(m) != (n, n) or not np.array_equal(m, w):
                    ctx.fail("blocks", f"sizes {sizes} correlations {cs}: {np.asarray(m).tolist()}")
                if list(a) != sizes or list(b) != cs:
                    ctx.fail("input-modified", f"blocks {sizes}")
            ctx.state("b", tuple(sizes), tuple(cs))
    a, b = qc._cor_block_diagonal(), qc._cor_block_diagonal()
    if not np.array_equal(a, b) or a is b:
        ctx.fail("blocks-default", "default blocks differ between calls")
