"""T01: k-fold splits never leak."""
from quantfinlib.train_test_split.kfoldpe import TimeAwareKFold

from mc import splitlib as sl

ID = "T01"
CASE_LIMIT = 120
ASSUMPTIONS = ["group labels are integers or timestamps on a regular unit", "joint bound on samples and label differences below"]


def BOUNDS(tier):
    n = 7 if tier == "quick" else 9
    return (f"all groupings of 2..{n} samples with label differences in {{0,1,2}} (and {{0,1,3,5}} up to {n-2}), all fold counts 2..n, "
            "embargo and purge 0..4, both directions, 14 label containers on the smaller ones, 7 structured groupings of 30, 90 and 1100 samples and one of 40000")


def cases(tier):
    N = 7 if tier == "quick" else 9
    for n in range(2, N + 1):
        for g in sl.groupings(n, (0, 1, 2)):
            for nf in range(2, n + 1):
                yield {"g": g, "nf": nf, "kinds": ["i64"], "maxd": 4 if n <= 7 else 3}
    for n in range(3, N - 1):
        for g in sl.groupings(n, (0, 1, 3, 5)):
            yield {"g": g, "nf": 2 + n % 2, "kinds": ["i64"], "maxd": 6}
    M = 5 if tier == "quick" else 6
    for n in range(2, M + 1):
        for g in sl.groupings(n, (0, 1, 2)):
            for nf in (2, 3):
                if nf <= n:
                    yield {"g": g, "nf": nf, "kinds": sl.CONTAINERS[1:], "maxd": 2}
    for n in (30, 90):
        for name, g in sl.structured(n):
            for nf in (2, 3, 5, 10):
                yield {"g": g, "nf": nf, "kinds": ["i64", "dti_D", "u8", "series_dt"], "emb": [0, 1, 2, 5, 9, 13], "pur": [0, 1, 3, 8, 12]}
    for name, g in sl.structured(1100):
        for nf in (2, 7, 60):
            yield {"g": g, "nf": nf, "kinds": ["i64", "dti_min"], "emb": [0, 3, 130], "pur": [0, 1, 270]}
    yield {"g": list(range(40000)), "nf": 3, "kinds": ["i64"], "emb": [0, 300], "pur": [33000, 1]}


def settings(case):
    nf = case["nf"]
    if "emb" in case:
        es, ps = case["emb"], case["pur"]
    else:
        es = ps = range(case["maxd"] + 1)
    for kind in case["kinds"]:
        for lf in (False, True):
            for e in es:
                for p in ps:
                    yield kind, nf, e, p, lf


def run(case, ctx):
    g = case["g"]
    n = len(g)
    X = sl.make_X(n, "np")
    for kind, nf, e, p, lf in settings(case):
        groups = sl.make_groups(g, kind)
        if groups is None:
            continue
        kf = TimeAwareKFold(n_folds=nf, n_embargo=e, n_purge=p, look_forward=lf, freq=sl.freq_of(kind))
        out, err = sl.collect(kf.split(X, groups=groups))
        ctx.state(tuple(g), kind, nf, e, p, lf)
        ctx.step(len(out) + 1)
        ctx.trace()
        ctx.outcome("raised" if err is not None else "completed")
        tag = f"kind={kind} folds={nf} embargo={e} purge={p} look_forward={lf}"
        for tr, te in out:
            if not te or not tr or min(tr + te) < 0 or max(tr + te) >= n:
                ctx.fail("bad-index", f"{tag}: train={tr} test={te}")
                continue
            s = set(te)
            gte = {g[i] for i in te}
            lo, hi = min(gte), max(gte)
            for i in tr:
                if i in s:
                    ctx.fail("overlap", f"{tag}: sample {i} in train and test {te}")
                elif g[i] in gte or lo <= g[i] <= hi:
                    ctx.fail("group-leak", f"{tag}: train sample {i} group {g[i]} inside test groups {sorted(gte)}")
                elif lo - e <= g[i] < lo:
                    ctx.fail("embargo-leak", f"{tag}: train group {g[i]} within embargo before {lo}")
                elif hi < g[i] <= hi + p:
                    ctx.fail("purge-leak", f"{tag}: train group {g[i]} within purge after {hi}")
                elif lf and g[i] > lo:
                    ctx.fail("look-ahead", f"{tag}: train group {g[i]} after test group {lo}")
    ctx.sample({"groups": g, "folds": case["nf"]})
