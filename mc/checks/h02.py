"""H02: cluster quality scores and the recommended number of clusters."""
import math
from itertools import permutations, product

import numpy as np
import pandas as pd

from mc.checks import h01
from quantfinlib.clustering import HC, gap_statistic, optimize_n_clusters, silhouette_tstat

ID = "H02"
CASE_LIMIT = 300
CHUNK = 1
ASSUMPTIONS = ["reference matrices are those of the existing test oracle: for sample b, numpy RandomState(seed + b) uniform on 0..max "
               "distance, upper triangle mirrored, zero diagonal; seed 0 when none is given",
               "the gap rule is claimed when it selects some k; the silhouette maximum when it is unique to 1e-9"]


def BOUNDS(tier):
    return ("all labellings (set partitions, all namings of up to 3 names) of 4 and 5 items on 4 distance matrices x nb 1,3 x seeds (up to 2**32 - 3) "
            "None,0,7 x containers; all item orders of 4 items for silhouettes; recommended numbers on 24 (100) matrices of 5-8 and 17 items and 2 (8) of 26 x 5 linkages "
            "x max_clust 2..n-1 x 2 metrics; labellings of 12, 30 and 70 items into 1..n clusters in 3 units; histories of calls with the global random state observed")


def cases(tier):
    for i in range(4):
        for n in (3, 4, 5):
            yield {"t": "lab", "i": i, "n": n}
    for i in range(24 if tier == "quick" else 100):
        yield {"t": "opt", "i": i}
    for i in range(2 if tier == "quick" else 8):  # more items than the default bound on the number of clusters
        yield {"t": "opt", "i": i, "big": 1}
    for i in range(4):
        yield {"t": "hist", "i": i}
    for i in range(24 if tier == "quick" else 60):
        yield {"t": "large", "i": i}


def dispersion(d, lab):
    n = len(lab)
    return math.fsum(d[i, j] ** 2 for i in range(n) for j in range(n) if lab[i] == lab[j])


def ref_gap(d, lab, nb, seed):
    n = len(lab)
    k = len(set(lab))
    logs = []
    for b in range(nb):
        u = np.random.RandomState((seed or 0) + b).uniform(0, d.max(), size=(n, n))
        r = np.triu(u, 1)
        r = r + r.T
        w = dispersion(r, lab) / (4 * k)
        logs.append(math.log(w) if w > 0 else 0.0)
    m = math.fsum(logs) / nb
    s = math.sqrt(math.fsum((v - m) ** 2 for v in logs) / nb)
    w = dispersion(d, lab) / (4 * k)
    return (m - math.log(w) if w > 0 else math.inf), s


def ref_silhouette(d, lab):
    n = len(lab)
    out = []
    for i in range(n):
        own = [d[i, j] for j in range(n) if lab[j] == lab[i] and j != i]
        if not own:
            out.append(0.0)
            continue
        a = sum(own) / len(own)
        b = min(sum(d[i, j] for j in range(n) if lab[j] == o) / sum(l == o for l in lab) for o in set(lab) if o != lab[i])
        out.append((b - a) / max(a, b) if max(a, b) > 0 else 0.0)
    m = math.fsum(out) / n
    s = math.sqrt(math.fsum((v - m) ** 2 for v in out) / n)
    return m, s


def eq(a, b, tol=1e-9):
    a = float(a)
    if math.isinf(b) or math.isnan(b):
        return a == b or (a != a and b != b)
    return abs(a - b) <= tol * (1 + abs(b))


def base(i, n):
    if i == 3:
        return h01.mk(n, [0.3, 0.6, 0.6, 0.3, 0.9, 0.6, 0.3, 0.3, 0.6, 0.9][:n * (n - 1) // 2])
    return h01.generic(n, i)


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def run(case, ctx):
    if case["t"] == "lab":
        n = case["n"]
        d = base(case["i"], n)
        for lab in product(range(3), repeat=n):
            k = len(set(lab))
            names = ([5, 2, 9], ["z", "a", "m"], [-1, 0, 1])[sum(lab) % 3]
            L = np.array([names[v] for v in lab])
            for nb, seed in ((1, None), (3, 0), (3, 7), (4, None), (2, (70000, 2 ** 31 + 5, 2 ** 32 - 3, 1000)[sum(lab) % 4])):
                want = ref_gap(d, lab, nb, seed)
                src = d.copy()
                st = state()
                calls = [gap_statistic(src, L, nb, seed), gap_statistic(labels=pd.Series(L, index=range(3, 3 + n)), dist=pd.DataFrame(src),
                                                                         nb=nb, random_state=seed)]
                ctx.step(2)
                ctx.trace()
                if state() != st:
                    ctx.fail("global-random-state", f"gap_statistic of {lab}")
                if not np.array_equal(src, d):
                    ctx.fail("input-modified", f"gap {lab}")
                for g in calls:
                    if not eq(g[0], want[0]) or not eq(g[1], want[1]):
                        ctx.fail("gap", f"matrix {case['i']} labels {L.tolist()} nb={nb} seed={seed}: {g} instead of {want}")
            g = gap_statistic(d.copy(), L)
            want = ref_gap(d, lab, 10, None)
            if not eq(g[0], want[0]) or not eq(g[1], want[1]):
                ctx.fail("gap-default", f"matrix {case['i']} labels {L.tolist()}: {g} instead of {want}")
            if 2 <= k <= n - 1:
                m, s = ref_silhouette(d, lab)
                st = state()
                src = d.copy()
                got = [silhouette_tstat(src, L), silhouette_tstat(labels=pd.Series(L), dist=pd.DataFrame(src))]
                for p in (permutations(range(n)) if n == 4 else [tuple(range(n))[::-1]]):
                    got.append(silhouette_tstat(d[np.ix_(p, p)], L[list(p)]))
                ctx.step(len(got))
                ctx.trace()
                if state() != st or not np.array_equal(src, d):
                    ctx.fail("global-state-or-input", f"silhouette of {lab}")
                if s > 1e-9:
                    for g in got:
                        if not eq(g, m / s, 1e-7):
                            ctx.fail("silhouette", f"matrix {case['i']} labels {L.tolist()}: {g} instead of {m / s}")
            ctx.state(case["i"], lab)
        for f in (gap_statistic, silhouette_tstat):
            for bad in (np.zeros(n - 1, int), np.arange(n + 1) % 2):
                try:
                    f(d, bad)
                    ctx.fail("accepted", f"{f.__name__} accepted {len(bad)} labels for {n} items")
                except Exception:
                    pass
        ctx.sample({"matrix": case["i"], "labels": L.tolist()})
        return
    if case["t"] == "large":
        i = case["i"]
        n = (12, 30, 70)[i % 3]
        d = h01.generic(n, 400 + i) * (1.0, 1e-4, 2e3)[i // 3 % 3]
        for k in (2, 3, 7, 11, n // 2, n - 1, n, 1):
            lab = [(j * (1 + i % 4) + j // 5) % k for j in range(n)]
            L = np.array(lab) * 3 - 4
            for nb, seed in ((2, 5), (12, None)) + (((60, None), (33, 8)) if n == 12 else ()):
                want = ref_gap(d, lab, nb, seed)
                g = gap_statistic(d.copy(), L, nb, seed)
                ctx.step()
                if not eq(g[0], want[0]) or not eq(g[1], want[1]):
                    ctx.fail("gap", f"large {i}, {k} labels, nb={nb} seed={seed}: {g} instead of {want}")
            if 2 <= len(set(lab)) <= n - 1:
                m, s = ref_silhouette(d, lab)
                g = silhouette_tstat(d.copy(), L)
                ctx.step()
                if s > 1e-9 and not eq(g, m / s, 1e-7):
                    ctx.fail("silhouette", f"large {i}, {k} labels: {g} instead of {m / s}")
            ctx.trace()
            ctx.state("large", i, k)
        return
    if case["t"] == "opt":
        n = 26 if "big" in case else 5 + case["i"] % 4 if case["i"] % 8 else 17
        d = h01.generic(n, 60 + case["i"])
        if case["i"] % 2:
            g = np.arange(n) % (2 + case["i"] % 3)
            d = np.where(g[:, None] == g[None], 0.2 * d, d + 1)
            np.fill_diagonal(d, 0)
        for l in ("ward", "average", "single", "complete", "centroid"):
            hc = HC(dist=d.copy(), linkage_method=l)
            Z = np.array(hc.linkage)
            levels = {k: np.asarray(HC(dist=d.copy(), linkage_method=l).get_clusters(k)) for k in range(2, n)}
            for mx in range(2, n) if n < 20 else (3, 12, 20, 25):
                ks = list(range(2, mx + 1))
                sil = []
                for k in ks:
                    m, s = ref_silhouette(d, levels[k].tolist())
                    sil.append(m / s)
                top = sorted(sil, reverse=True)
                if len(top) == 1 or top[0] - top[1] > 1e-9:
                    want = ks[int(np.argmax(sil))]
                    got = [hc.get_optimal_nclusters(max_clust=mx, metric="silhouette"), optimize_n_clusters(Z, d, mx, "silhouette"),
                           optimize_n_clusters(Z, d, mx, "silhouette", 3)]
                    ctx.step(3)
                    ctx.trace()
                    if any(g != want for g in got):
                        ctx.fail("silhouette-choice", f"matrix {case['i']} {l} max {mx}: {got} instead of {want} from {sil}")
                for nb in (2, 10):
                    gs = [ref_gap(d, levels[k].tolist(), nb, None) for k in ks]
                    ok = [gs[i][0] - gs[i + 1][0] + gs[i + 1][1] for i in range(len(ks) - 1)]
                    if any(abs(v) < 1e-9 for v in ok) or not any(v > 0 for v in ok):
                        ctx.outcome("gap rule selects nothing")
                        continue
                    want = ks[next(i for i, v in enumerate(ok) if v > 0)]
                    st = state()
                    got = [hc.get_optimal_nclusters(mx, "gap", nb), optimize_n_clusters(Z, d, mx, nb=nb)]
                    if nb == 10:
                        got.append(hc.get_optimal_nclusters(mx))
                        if mx == 20:
                            got += [hc.get_optimal_nclusters(), optimize_n_clusters(Z, d)]
                    ctx.step(2)
                    ctx.trace()
                    if state() != st:
                        ctx.fail("global-random-state", f"optimiser {l} {mx}")
                    if any(g != want for g in got):
                        ctx.fail("gap-choice", f"matrix {case['i']} {l} max {mx} nb {nb}: {got} instead of {want}: {gs}")
                ctx.state("opt", case["i"], l, mx)
        return
    d = base(case["i"], 5)
    L = np.array([0, 0, 1, 1, 2])
    ops = {"gap": lambda: gap_statistic(d, L), "gap7": lambda: gap_statistic(d, L, 4, 7),
           "sil": lambda: silhouette_tstat(d, L), "seed": lambda: np.random.seed(3), "draw": lambda: np.random.rand(2),
           "opt": lambda: HC(dist=d).get_optimal_nclusters(4, "silhouette")}
    want = {k: repr(ops[k]()) for k in ("gap", "gap7", "sil", "opt")}
    saved = np.random.get_state()
    for h in product(ops, repeat=3):
        np.random.seed(11)
        for o in h:
            st = state()
            r = ops[o]()
            ctx.step()
            if o in want:
                if repr(r) != want[o]:
                    ctx.fail("history", f"{h}: {o} gives {r} instead of {want[o]}")
                if state() != st:
                    ctx.fail("global-random-state", f"{h}: {o}")
        ctx.trace()
        ctx.state("hist", case["i"], h)
    np.random.set_state(saved)
