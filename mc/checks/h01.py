"""H01: hierarchical clusters against a naive agglomeration."""
from itertools import combinations, permutations, product

import numpy as np
import pandas as pd
from scipy.cluster import hierarchy
from scipy.spatial.distance import squareform

import quantfinlib.distance as qd
from quantfinlib.clustering import HC

ID = "H01"
CASE_LIMIT = 300
CHUNK = 1
LINK = ("single", "complete", "average", "weighted", "centroid", "median", "ward")
ASSUMPTIONS = ["the hierarchy is compared exactly where no two candidate merges come within 1e-9 of each other; with ties only "
               "'exactly k groups' and nesting are claimed",
               "cluster numbers are names: partitions are compared"]


def BOUNDS(tier):
    return ("all 720 orderings of 6 distinct distances between 4 items, all matrices over 3 levels on 3-4 items and over 2 levels on 5 "
            "items, 80 (600) structured matrices of 6-9 items, 4 (6) of 12 to 150, 16 in other units, x 7 linkages x all k x 24 item orders (rotating); all call histories "
            "of length 3 over k and the optimiser; 12 datasets, column names in and out of order, numbers and mixed, x 3 routes x 2 containers x methods")


G = (0.11, 0.235, 0.37, 0.52, 0.71, 0.93)


def cases(tier):
    q = tier == "quick"
    P = list(permutations(G))
    for i in range(0, len(P), 45):
        yield {"t": "perm", "lo": i, "hi": i + 45}
    yield {"t": "ties", "n": 2, "pre": []}
    yield {"t": "ties", "n": 3, "pre": []}
    for a in product((0.3, 0.6, 0.9), repeat=2):
        yield {"t": "ties", "n": 4, "pre": list(a)}
    for a in product((0.3, 0.6), repeat=4):
        yield {"t": "ties5", "n": 5, "pre": list(a)}
    for i in range(80 if q else 600):
        yield {"t": "big", "i": i}
    for i in range(4 if q else 6):
        yield {"t": "large", "i": i}
    if q:
        for l in ("average", "ward"):
            yield {"t": "large", "i": 4, "l": l}
    for i in range(16):
        yield {"t": "scale", "i": i}
    for i in range(12):
        yield {"t": "data", "i": i}
    for i in range(3):
        for l in LINK:
            yield {"t": "history", "i": i, "l": l}


def mk(n, vals):
    d = np.zeros((n, n))
    for (i, j), v in zip(combinations(range(n), 2), vals):
        d[i, j] = d[j, i] = v
    return d


def agglomerate(d, link):
    """partitions after 0, 1, ... merges, and whether every choice was clear"""
    n = len(d)
    D = {frozenset((i, j)): float(d[i, j]) for i, j in combinations(range(n), 2)}
    members = {i: frozenset([i]) for i in range(n)}
    levels = [frozenset(members.values())]
    nxt, clear = n, True
    seen = []
    while len(members) > 1:
        order = sorted(D.items(), key=lambda kv: kv[1])
        if len(order) > 1 and order[1][1] - order[0][1] < 1e-9:
            clear = False
        pair, h = order[0]
        # a merge as high as an earlier one may be cut in either order
        if any(abs(h - s) < 1e-9 for s in seen):
            clear = False
        seen.append(h)
        a, b = pair
        na, nb = len(members[a]), len(members[b])
        new = {}
        for c in members:
            if c in pair:
                continue
            x, y, nc = D[frozenset((a, c))], D[frozenset((b, c))], len(members[c])
            if link == "single":
                v = min(x, y)
            elif link == "complete":
                v = max(x, y)
            elif link == "average":
                v = (na * x + nb * y) / (na + nb)
            elif link == "weighted":
                v = (x + y) / 2
            else:
                if link == "centroid":
                    s = (na * x * x + nb * y * y) / (na + nb) - na * nb * h * h / (na + nb) ** 2
                elif link == "median":
                    s = (x * x + y * y) / 2 - h * h / 4
                else:
                    s = ((na + nc) * x * x + (nb + nc) * y * y - nc * h * h) / (na + nb + nc)
                if s < 0:
                    clear = False
                v = max(s, 0) ** 0.5
            new[c] = v
        D = {k: v for k, v in D.items() if a not in k and b not in k}
        for c, v in new.items():
            D[frozenset((nxt, c))] = v
        m = members.pop(a) | members.pop(b)
        members[nxt] = m
        nxt += 1
        levels.append(frozenset(members.values()))
    return levels, clear


def part(labels, n):
    a = np.asarray(labels)
    if a.shape != (n,):
        return None
    return frozenset(frozenset(np.flatnonzero(a == u).tolist()) for u in np.unique(a))


def one(ctx, hc, n, tag, want):
    """all levels of one clustering object; want: levels or None"""
    prev = None
    res = []
    for k in range(n, 0, -1):
        p = part(hc.get_clusters(k), n)
        ctx.step()
        if p is None or len(p) != k:
            ctx.fail("count", f"{tag}: asked for {k} clusters, got {p}")
            return None
        if prev is not None and not all(any(g <= h for h in p) for g in prev):
            ctx.fail("nesting", f"{tag}: level {k} does not contain level {k + 1}: {p} {prev}")
        if want is not None and p != want[n - k]:
            ctx.fail("level", f"{tag}: {k} clusters {sorted(map(sorted, p))} instead of {sorted(map(sorted, want[n - k]))}")
        prev = p
        res.append(p)
    ctx.trace()
    return res


def decode(Z, n):
    """partitions encoded by a linkage matrix, the order of its leaves, its merges"""
    members = {i: frozenset([i]) for i in range(n)}
    order = {i: (i,) for i in range(n)}
    live, levels, pairs = set(range(n)), [frozenset(members.values())], []
    for r, (a, b) in enumerate(np.asarray(Z)[:, :2].astype(int).tolist()):
        pairs.append((a, b))
        live -= {a, b}
        live.add(n + r)
        members[n + r] = members[a] | members[b]
        order[n + r] = order[a] + order[b]
        levels.append(frozenset(members[i] for i in live))
    return levels, order[2 * n - 2], pairs


def cost(d, leaves):
    return sum(d[a, b] for a, b in zip(leaves, leaves[1:]))


def tree(ctx, d, l, levels, tag):
    """the linkage matrix encodes the hierarchy; with optimal ordering its leaves are those of scipy's ordering"""
    n = len(d)
    for opt in (False, True):
        Z = HC(dist=d, linkage_method=l, optimal_ordering=opt).linkage
        ctx.step()
        if np.shape(Z) != (n - 1, 4):
            ctx.fail("linkage", f"{tag}: linkage of shape {np.shape(Z)}")
            return
        got, leaves, pairs = decode(Z, n)
        if got != levels or [len(m) for m in levels] != list(range(n, 0, -1)):
            ctx.fail("linkage", f"{tag}: the linkage matrix {np.asarray(Z).tolist()} is not the hierarchy")
            return
        if opt:
            best = decode(hierarchy.optimal_leaf_ordering(plain, squareform(d)), n)[1]
            if cost(d, leaves) > cost(d, best) * (1 + 1e-9):
                ctx.fail("leaf-order", f"{tag}: leaves {leaves} are not ordered as {best}")
        plain = Z


def matrix(ctx, d, tag, perms=(), links=LINK):
    n = len(d)
    for l in links:
        levels, clear = agglomerate(d, l)
        keep = d.copy()
        src = d.copy()
        src.setflags(write=False)
        one(ctx, HC(dist=src, linkage_method=l), n, f"{tag} {l}", levels if clear else None)
        ctx.outcome("clear" if clear else "ambiguous")
        if not np.array_equal(src, keep):
            ctx.fail("input-modified", f"{tag} {l}")
        if clear:
            tree(ctx, d, l, levels, f"{tag} {l}")
            for p in perms:
                e = d[np.ix_(p, p)]
                lv = [frozenset(frozenset(p.index(i) for i in g) for g in s) for s in levels]
                lab = [f"n{i}" for i in p]
                one(ctx, HC(dist=pd.DataFrame(e, index=lab, columns=lab), linkage_method=l,
                            optimal_ordering=bool(p[0] % 2)), n, f"{tag} {l} reordered {p}", lv)
    ctx.state(tuple(np.round(d, 9).ravel()))


def generic(n, k):
    i = np.arange(n * 3).reshape(n, 3)
    x = np.sin((1.3 + 0.37 * k) * i + 0.11 * k) * (1 + (i * (k + 3)) % 5)
    return np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))


def dataset(k):
    t = np.arange(24)
    m = 4 + k % 3
    cols = [np.sin((0.4 + 0.21 * j + 0.05 * k) * t + j) + 0.5 * np.cos(1.9 * t * (1 + j % 2) + k) for j in range(m)]
    X = np.column_stack(cols)
    if k % 4 == 3:
        X[:, 1] = X[:, 0] * 2 + 0.3 * X[:, 1]
    return X


def run(case, ctx):
    t = case["t"]
    if t == "perm":
        P = list(permutations(G))[case["lo"]:case["hi"]]
        Q = list(permutations(range(4)))
        for i, v in enumerate(P):
            matrix(ctx, mk(4, v), f"distances {v}", [Q[(5 * i + 7 * case["lo"] // 45 + 11 * j) % 24] for j in range(2)])
        ctx.sample({"distances": list(v)})
        return
    if t in ("ties", "ties5"):
        L = (0.3, 0.6, 0.9) if t == "ties" else (0.3, 0.6)
        m = case["n"] * (case["n"] - 1) // 2
        for rest in product(L, repeat=m - len(case["pre"])):
            v = tuple(case["pre"]) + rest
            matrix(ctx, mk(case["n"], v), f"distances {v}", [tuple(range(case["n"]))[::-1]])
        ctx.sample({"distances": list(v)})
        return
    if t == "big":
        n = 6 + case["i"] % 4
        d = generic(n, case["i"])
        p = tuple((j * 5 + case["i"]) % n for j in range(n)) if n % 5 else tuple(range(n))[::-1]
        matrix(ctx, d, f"structured {case['i']}", [p, tuple(range(n))[::-1]] if len(set(p)) == n else [tuple(range(n))[::-1]])
        return
    if t == "large":
        n = (12, 21, 40, 70, 110, 150)[case["i"]]
        matrix(ctx, generic(n, 200 + case["i"]), f"large {n}", [tuple(range(n))[::-1]], [case["l"]] if "l" in case else LINK)
        return
    if t == "scale":  # the unit of the distances does not matter
        i, c = case["i"] % 4, (1e-6, 1e-3, 1e3, 1e6)[case["i"] // 4]
        d = generic(6 + i, 300 + i)
        for l in LINK:
            levels, clear = agglomerate(d, l)
            if clear:
                one(ctx, HC(dist=d * c, linkage_method=l), len(d), f"structured {300 + i} {l} x {c}", levels)
                ctx.state("scale", i, c, l)
        return
    if t == "data":
        X = dataset(case["i"])
        n = X.shape[1]
        names = [[f"c{j}" for j in range(n)], ["d", "a", "c", "b", "f", "e"][:n], [7, 3, 5, 1, 0, 2][:n], [10.5, "x", 3, "A", (1, 2), None][:n]][case["i"] % 4]
        for cm in ("pearson", "spearman"):
            df = pd.DataFrame(X, columns=names)
            corr = df.corr(method=cm)
            for dm in ("angular", "abs_angular", "squared_angular"):
                c = np.clip(corr.to_numpy(), -1, 1)
                d = np.sqrt(np.clip({"angular": (1 - c) / 2, "abs_angular": 1 - abs(c), "squared_angular": 1 - c * c}[dm], 0, 1))
                np.fill_diagonal(d, 0)
                for l in ("ward", "single", "complete", "average", "centroid"):
                    levels, clear = agglomerate(d, l)
                    kw = dict(codependence_method=f"{cm}-correlation", corr_to_dist_method=dm, linkage_method=l)
                    for rn, mkhc in (("data", lambda: HC(X=X.copy(), **kw)), ("data frame", lambda: HC(X=df, **kw)),
                                     ("corr", lambda: HC(corr=corr.to_numpy().copy(), **kw)), ("corr frame", lambda: HC(None, corr, **kw)),
                                     ("dist", lambda: HC(dist=d.copy(), **kw)),
                                     ("dist frame", lambda: HC(dist=pd.DataFrame(d, names, names), **kw)),
                                     ("scaled data", lambda: HC(X=X * 16.0 + 4.0, **kw))):
                        one(ctx, mkhc(), n, f"dataset {case['i']} {cm} {dm} {l} from {rn}", levels if clear else None)
                    ctx.state("data", case["i"], cm, dm, l)
            if not df.equals(pd.DataFrame(dataset(case["i"]), columns=names)):
                ctx.fail("input-modified", f"dataset {case['i']}")
        d = np.asarray(qd.get_info_distance_matrix(X, "var_info"))
        for l in ("ward", "average", "single"):
            levels, clear = agglomerate(d, l)
            for src in (X.copy(), pd.DataFrame(X, columns=names)):
                one(ctx, HC(X=src, codependence_method="var_info", linkage_method=l), n, f"dataset {case['i']} var_info {l}",
                    levels if clear else None)
        ctx.sample({"dataset": case["i"]})
        return
    d = generic(6, 40 + case["i"])
    l = case["l"]
    fresh = {k: part(HC(dist=d.copy(), linkage_method=l).get_clusters(k), 6) for k in range(1, 7)}
    for ops in product([1, 2, 3, 5, 6, "silhouette"], repeat=3):
        hc = HC(dist=d.copy(), linkage_method=l)
        for o in ops:
            if o == "silhouette":
                hc.get_optimal_nclusters(max_clust=4, metric="silhouette")
            else:
                a = hc.get_clusters(o)
                if part(a, 6) != fresh[o]:
                    ctx.fail("history", f"{l}: after {ops} {o} clusters are {a.tolist()}")
                a[:] = 99  # the caller owns its answer
            ctx.step()
        ctx.trace()
        ctx.state("h", case["i"], l, ops)
