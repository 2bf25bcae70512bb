"""T03: walk-forward splits never train on or after the test window."""
from quantfinlib.train_test_split.walk_forward import WalkForward

from mc import splitlib as sl

ID = "T03"
CASE_LIMIT = 120
ASSUMPTIONS = ["window lengths are positive multiples of the label unit", "a training window without data is rejected with an error"]


def BOUNDS(tier):
    n = 7 if tier == "quick" else 9
    return (f"all groupings of 2..{n} samples with label differences in {{0,1,2}} (and {{0,1,3,6}} up to {n-1}), training windows 1..6, test windows 1..4, "
            "embargo 0..3, rolling and expanding, 14 label containers on the smaller ones, 7 structured groupings of 40, 120 and 1100 samples and one of 40000")


def cases(tier):
    N = 7 if tier == "quick" else 9
    for n in range(2, N + 1):
        for g in sl.groupings(n, (0, 1, 2)):
            yield {"g": g, "kinds": ["i64"], "tw": [1, 2, 3, 4, 6], "w": [1, 2, 3, 4], "emb": [0, 1, 2, 3]}
    for n in range(3, N):
        for g in sl.groupings(n, (0, 1, 3, 6)):
            yield {"g": g, "kinds": ["i64"], "tw": [1, 2, 4, 5], "w": [1, 2, 4], "emb": [0, 1, 3]}
    M = 5 if tier == "quick" else 6
    for n in range(2, M + 1):
        for g in sl.groupings(n, (0, 1, 2)):
            yield {"g": g, "kinds": sl.CONTAINERS[1:], "tw": [1, 2, 3], "w": [1, 2], "emb": [0, 1, 2]}
    for n in (40, 120):
        for name, g in sl.structured(n):
            yield {"g": g, "kinds": ["i64", "dti_D", "series_dt"], "tw": [5, 10, 21, 33], "w": [1, 3, 7, 20], "emb": [0, 1, 4, 10]}
    for name, g in sl.structured(1100):
        yield {"g": g, "kinds": ["i64", "dti_min"], "tw": [140, 300], "w": [9, 131], "emb": [0, 20, 129]}
    yield {"g": list(range(40000)), "kinds": ["i64"], "tw": [300, 33000], "w": [5000], "emb": [0, 257]}


def settings(case):
    for kind in case["kinds"]:
        for st in ("expanding", "rolling"):
            for tw in case["tw"]:
                for w in case["w"]:
                    for e in case["emb"]:
                        yield kind, st, tw, w, e


def run(case, ctx):
    g = case["g"]
    n = len(g)
    X = sl.make_X(n, "np")
    for kind, st, tw, w, e in settings(case):
        groups = sl.make_groups(g, kind)
        if groups is None:
            continue
        wf = WalkForward(n_embargo=e, train_window=tw, test_window=w, split_type=st, freq=sl.freq_of(kind))
        out, err = sl.collect(wf.split(X, groups=groups))
        ref, must = sl.walk_ref(g, e, tw, w, st)
        ctx.state(tuple(g), kind, st, tw, w, e)
        ctx.step(len(out) + 1)
        ctx.trace()
        ctx.outcome("raised" if err is not None else "completed")
        tag = f"kind={kind} {st} train={tw} test={w} embargo={e} groups={g[:20]}"
        if err is not None and not must:
            ctx.fail("rejected", f"{tag}: raised {type(err).__name__}: {err}")
        for k, (tr, te) in enumerate(out):
            if not te or not tr or min(tr + te) < 0 or max(tr + te) >= n:
                ctx.fail("bad-index", f"{tag}: train={tr} test={te}")
                continue
            lo, hi = min(g[i] for i in te), max(g[i] for i in te)
            if max(g[i] for i in tr) >= lo:
                ctx.fail("look-ahead", f"{tag}: split {k} train {tr} test {te}")
            if e and any(lo - e <= g[i] for i in tr):
                ctx.fail("embargo-leak", f"{tag}: split {k} train {tr} test {te}")
            if hi - lo >= w:
                ctx.fail("test-span", f"{tag}: split {k} test {te}")
            if st == "expanding" and tr[0] != 0:
                ctx.fail("expanding-start", f"{tag}: split {k} train {tr}")
            if st == "rolling" and min(g[i] for i in tr) < lo - tw - w + 1:
                ctx.fail("train-span", f"{tag}: split {k} train {tr} test {te}")
            if st == "rolling" and max(g[i] for i in tr) - min(g[i] for i in tr) >= tw:
                ctx.fail("train-span", f"{tag}: split {k} train {tr}")
            if k < len(ref) and te == ref[k][1] and sorted(tr) != ref[k][0]:
                ctx.fail("train-set", f"{tag}: split {k} train {tr}, allowed {ref[k][0]}")
    ctx.sample({"groups": g})
