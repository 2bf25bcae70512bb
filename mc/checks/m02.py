"""M02: denoising and the noise density."""
from itertools import product

import numpy as np

from mc.checks.d01 import mk, psd
from mc.checks.m01 import big
from quantfinlib.math import cov as qc

ID = "M02"
CASE_LIMIT = 300
CHUNK = 1
ASSUMPTIONS = ["a correlation matrix estimated from fewer time steps than assets has rank at most the number of time steps",
               "the search grid of the noise variance is 1000 points on 0.01..4; the fitted value must reach the best likelihood "
               "on it; comparisons with the noise edge are skipped within 1e-9",
               "where the k-th and (k+1)-th eigenvalues coincide only validity of the result is claimed, not which vector is kept"]


def BOUNDS(tier):
    return ("all positive semi-definite 2x2, 3x3 (7 levels) and 4x4 (4 levels) correlation matrices x requested k 1..n and fitted "
            "x time steps 4..400; structured matrices of 5-12, 24, 60 and 130 assets including fewer steps than assets; all decreasing eigenvalue lists "
            "of length 4 over 5 levels x k; density on 40 (var, steps, assets) settings x 2000-point quadrature; "
            "fit on 60 (200) spectra")


def cases(tier):
    q = tier == "quick"
    yield {"t": "pdf"}
    yield {"t": "m2"}
    for a in np.linspace(-0.9, 0.9, 7):
        yield {"t": "m3", "a": float(a), "q": q}
    for a in (-0.4, 0.0, 0.3, 0.8):
        for b in (-0.4, 0.0, 0.3, 0.8):
            yield {"t": "m4", "a": a, "b": b, "q": q}
    for i in range(24 if q else 120):
        yield {"t": "big", "i": i}
    for i in range(1000, 1003 if q else 1012):
        yield {"t": "big", "i": i}
    for a in range(5):
        yield {"t": "eigs", "a": a}
    for i in range(60 if q else 200):
        yield {"t": "fit", "i": i}


def support(var, T, N):
    r = np.sqrt(N / T)
    return var * (1 - r) ** 2, var * (1 + r) ** 2


def density(var, T, N, x):
    lo, hi = support(var, T, N)
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        d = T / N / (2 * np.pi * var * x) * np.sqrt(np.maximum((hi - x) * (x - lo), 0))
    return np.where((x > lo) & (x < hi), d, 0.0)


GRID = np.linspace(0.01, 4, 1000)


def loglik(T, N, eigs, var):
    p = density(var, T, N, eigs)
    p = np.where(p > 0, p, 1.0 / np.max(eigs))
    return float(np.sum(np.log(p)))


def fit(T, N, eigs):
    """best likelihood on the grid, and the grid points reaching it"""
    ll = np.array([loglik(T, N, eigs, v) for v in GRID])
    return ll.max(), GRID[ll >= ll.max() - 1e-9]


def signals(eigs, T):
    """set of admissible numbers of kept eigenvalues"""
    N = len(eigs)
    e = np.array(eigs, float)
    if N > T:
        e[T:] = 0.0
    _, best = fit(T, N, e[:T] if N > T else e)
    out = set()
    for v in best:
        edge = support(v, T, N)[1]
        out |= {int(np.sum(e >= edge * (1 + s))) for s in (-1e-9, 1e-9)}
    return out, best, e


def valid(ctx, r, n, diag, tag):
    r = np.asarray(r)
    sc = np.sqrt(np.outer(diag, diag))
    if r.shape != (n, n) or not np.all(np.isfinite(r)):
        ctx.fail("shape", f"{tag}: {r.tolist()}")
        return False
    c = r / sc
    if np.any(np.abs(c - c.T) > 1e-9):
        ctx.fail("symmetric", f"{tag}: {r.tolist()}")
    if np.any(np.abs(np.diag(r) - diag) > 1e-9 * diag):
        ctx.fail("diagonal", f"{tag}: {np.diag(r).tolist()} instead of {diag.tolist()}")
    if np.linalg.eigvalsh((c + c.T) / 2)[0] < -1e-9:
        ctx.fail("semi-definite", f"{tag}: eigenvalues {np.linalg.eigvalsh((c + c.T) / 2).tolist()}")
    return True


def expected(c, k, eigs, vecs, m):
    """the k leading pairs kept, the remaining eigenvalues replaced by m, unit diagonal; None when the choice is not unique"""
    n = len(c)
    if k < n and k > 0 and eigs[k - 1] - eigs[k] < 1e-6:
        return None
    r = (vecs[:, :k] * (eigs[:k] - m)) @ vecs[:, :k].T
    np.fill_diagonal(r, 1.0)
    return np.clip(r, -1, 1)


def denoise(ctx, c, Ts, tag, fitted=True):
    n = len(c)
    w, v = np.linalg.eigh(c)
    w, v = w[::-1], v[:, ::-1]
    std = np.array([(1e-3, 1.0, 20.0)[(3 * j + n) % 3] for j in range(n)])
    rank = int(np.sum(w > 1e-9))
    for T in Ts:
        if n > T and rank > T:
            continue
        for k in (list(range(1, n + 1)) if n < 20 else [1, 2, n // 2, n - 1]) + ([None] if fitted else []):
            if k is None:
                if n == T and w[-1] < 1e-9:
                    # the noise support starts at 0: the sign of a rounding error decides the fit, any number may be kept
                    ks, we = set(range(n + 1)), w
                else:
                    ks, best, we = signals(w, T)
            else:
                ks, we = {k}, w
            for kind in ("cor", "cov"):
                src = c.copy() if kind == "cor" else c * np.outer(std, std)
                keep = src.copy()
                if kind == "cor":
                    r, _, info = qc._cor_denoise(src, T, k=k) if k else qc._cor_denoise(src, T)
                    diag = np.ones(n)
                else:
                    r, info = qc._cov_denoise(src, T, k)
                    diag = std ** 2
                ctx.step()
                ctx.trace()
                tg = f"{kind} {tag} steps={T} k={k}"
                if not np.array_equal(src, keep):
                    ctx.fail("input-modified", tg)
                if not valid(ctx, r, n, diag, tg):
                    continue
                if int(info["k"]) not in ks:
                    ctx.fail("kept", f"{tg}: kept {info['k']} instead of {sorted(ks)}")
                    continue
                kk = int(info["k"])
                m = float(np.mean(we[kk:])) if kk < n else 0.0
                want = expected(c, kk, we, v, m) if kk < n else c
                if want is not None:
                    g = np.asarray(r) / np.sqrt(np.outer(diag, diag))
                    # deviations are recovered by the conversion to 1e-9
                    if np.any(np.abs(g - want) > 1e-7):
                        ctx.fail("value", f"{tg}: {g.tolist()} instead of {want.tolist()}")
                else:
                    ctx.outcome("tied eigenvalues")
    ctx.state(tuple(np.round(c, 9).ravel()), tuple(Ts))


def eig_lists(a):
    L = (0.0, 0.3, 1.0, 1.7, 3.0)
    for r in product(L, repeat=3):
        x = (L[a],) + r
        if all(x[i] >= x[i + 1] for i in range(3)) and x[0] > 0:
            yield np.array(x)


def spectrum(i):
    n = (4, 6, 10, 20, 40)[i % 5]
    T = (int(0.5 * n), n, 2 * n, 5 * n, 30 * n)[(i // 5) % 5]
    var = (0.2, 0.6, 1.0, 2.5)[(i // 7) % 4]
    m = min(n, T)
    lo, hi = support(var, T, n)
    u = (np.arange(m) + 0.5) / m
    e = lo + (hi - lo) * u ** (1 + i % 3)
    e[:i % 4] = (hi * (1.5 + np.arange(i % 4)))[:m]
    return np.sort(np.maximum(e, 1e-6))[::-1].copy(), T, n


def run(case, ctx):
    t = case["t"]
    if t == "pdf":
        for var in (0.05, 0.5, 1.0, 3.0):
            for T, N in ((10, 10), (20, 10), (100, 10), (1000, 10), (10, 20), (7, 3), (3, 7), (50, 49), (2, 1), (1, 2)):
                lo, hi = support(var, T, N)
                g = qc._marcenko_pastur_support(var, T, N)
                if abs(g[0] - lo) > 1e-12 * hi or abs(g[1] - hi) > 1e-12 * hi:
                    ctx.fail("support", f"{var} {T} {N}: {g} instead of {(lo, hi)}")
                # x = mid - half cos(theta) removes the square-root ends
                M = 4000
                th = (np.arange(M) + 0.5) * np.pi / M
                x = (lo + hi) / 2 - (hi - lo) / 2 * np.cos(th)
                d = qc._marchenko_pastur_pdf(var, T, N, x)
                ctx.step(2)
                ctx.trace()
                if np.shape(d) != x.shape or np.any(np.abs(d - density(var, T, N, x)) > 1e-9 * (1 + np.abs(d))):
                    ctx.fail("density", f"var={var} steps={T} assets={N}")
                    continue
                tot = float(np.sum(d * (hi - lo) / 2 * np.sin(th)) * np.pi / M)
                if abs(tot - min(1.0, T / N)) > 2e-3:
                    ctx.fail("integral", f"var={var} steps={T} assets={N}: {tot}")
                if np.any(d < 0):
                    ctx.fail("negative", f"var={var} steps={T} assets={N}")
                o = np.array([lo - 1e-9, lo * 0.5, hi + 1e-9, hi * 2, 1e6, -1.0, 0.0, -lo])
                o = o[(o < lo) | (o > hi)]
                if np.any(qc._marchenko_pastur_pdf(var, T, N, o) != 0):
                    ctx.fail("outside", f"var={var} steps={T} assets={N}: density outside the support")
                z = np.array([0, 1, 2, 3])
                if np.any(np.abs(qc._marchenko_pastur_pdf(var, T, N, z) - density(var, T, N, z)) > 1e-9):
                    ctx.fail("integer-values", f"var={var} steps={T} assets={N}")
                ctx.state("pdf", var, T, N)
        for bad in (0.0, -1.0):
            try:
                qc._marchenko_pastur_pdf(bad, 10, 5, np.array([1.0]))
                ctx.fail("accepted", f"variance {bad}")
            except ValueError:
                pass
        return
    if t == "fit":
        e, T, N = spectrum(case["i"])
        src = e.copy()
        v = qc._marchenko_pastur_fit(T, N, src)
        ctx.step()
        ctx.trace()
        best, at = fit(T, N, e)
        if not np.array_equal(src, e):
            ctx.fail("input-modified", "fit")
        if not 0 < v <= 4 + 1e-9 or loglik(T, N, e, v) < best - 1e-9 * (1 + abs(best)):
            ctx.fail("fit", f"steps={T} assets={N} {e.tolist()}: {v} with likelihood {loglik(T, N, e, v) if v > 0 else None} instead of "
                            f"{at.tolist()} with {best}")
        ctx.state("fit", case["i"])
        ctx.sample({"spectrum": e.tolist()[:5], "best": at.tolist()[:3]})
        for k in (None, 0, 1, 2):
            full = np.concatenate([e, np.zeros(N - len(e))])
            src = full.copy()
            r, info = qc._eigen_values_denoise(src, T, k)
            ctx.step()
            if not np.array_equal(src, full):
                ctx.fail("input-modified", f"eigenvalues {case['i']} k={k}")
            ks, _, we = signals(full, T) if k is None else ({k}, 0, full)
            if int(info["k"]) not in ks:
                ctx.fail("kept", f"spectrum {case['i']} k={k}: {info['k']} instead of {ks}")
                continue
            eigs_check(ctx, full, r, int(info["k"]), f"spectrum {case['i']} steps={T} k={k}")
        return
    if t == "eigs":
        for e in eig_lists(case["a"]):
            pos = int(np.sum(e > 0))
            for T in (2, 3, 4, 6, 40, 400):
                if T < 4 and pos > T:
                    continue
                for k in (0, 1, 2, 3, 4, None):
                    src = e.copy()
                    r, info = qc._eigen_values_denoise(src, T, k)
                    ctx.step()
                    ctx.trace()
                    if not np.array_equal(src, e):
                        ctx.fail("input-modified", f"{e.tolist()} steps={T} k={k}")
                    kk = int(info["k"])
                    if kk not in (signals(e, T)[0] if k is None else {k}):
                        ctx.fail("kept", f"{e.tolist()} steps={T} k={k}: {kk}")
                        continue
                    eigs_check(ctx, e, r, kk, f"{e.tolist()} steps={T} k={k}")
            ctx.state("e", tuple(e))
        return
    if t == "m2":
        for a in np.linspace(-1, 1, 21):
            denoise(ctx, mk(2, [a]), (4, 50), f"{a}")
        return
    if t == "m3":
        for b, c in product(np.linspace(-0.9, 0.9, 7), repeat=2):
            m = mk(3, [case["a"], b, c])
            if psd(m):
                denoise(ctx, m, (6, 100), m.tolist(), fitted=not case["q"] or round(b * 10) % 2 == 0)
        ctx.sample({"matrix": m.tolist()})
        return
    if t == "m4":
        for r in product((-0.4, 0.0, 0.3, 0.8), repeat=4):
            m = mk(4, [case["a"], case["b"], *r])
            if psd(m):
                denoise(ctx, m, (8, 400), m.tolist(), fitted=not case["q"] or r[3] == 0.3)
        return
    c = big(case["i"])
    denoise(ctx, c, (len(c) - 2, len(c), 2 * len(c), 20 * len(c)), f"structured {case['i']}")


def eigs_check(ctx, e, r, k, tag):
    r = np.asarray(r, float)
    if r.shape != e.shape:
        ctx.fail("eigs-shape", tag)
        return
    if np.any(np.abs(r[:k] - e[:k]) > 1e-12 * (1 + e[:k])):
        ctx.fail("eigs-kept", f"{tag}: {r.tolist()}")
    if k < len(e) and np.ptp(r[k:]) > 1e-12:
        ctx.fail("eigs-common", f"{tag}: {r.tolist()}")
    if abs(r.sum() - e.sum()) > 1e-9 * (1 + e.sum()):
        ctx.fail("eigs-total", f"{tag}: {r.tolist()} sums to {r.sum()} instead of {e.sum()}")
