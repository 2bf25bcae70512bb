"""T02: k-fold test sets partition the data and training sets are exactly the rest."""
from itertools import combinations

import numpy as np

from quantfinlib.train_test_split.kfoldpe import TimeAwareKFold

from mc import splitlib as sl
from mc.checks import t01

ID = "T02"
CASE_LIMIT = 120
ASSUMPTIONS = t01.ASSUMPTIONS + ["settings rejected by the documented size validation may be rejected"]


def BOUNDS(tier):
    return t01.BOUNDS(tier) + "; all interleavings of two passes on one splitter; one splitter reused over all groupings of 4-6 samples in 3 orders; sample containers array/frame, targets none/array/series"


def cases(tier):
    for c in t01.cases(tier):
        yield dict(c, t="exact")
    for n in range(2, 8):
        yield {"t": "nogroups", "n": n}
    for n in (20, 64, 101):
        yield {"t": "nogroups", "n": n}
    for n in (4, 5, 6):
        for g in sl.groupings(n, (0, 1, 3)):
            yield {"t": "history", "g": g}
    for n in (4, 5, 6) if tier == "quick" else (4, 5, 6, 7):
        for nf in (2, 3):
            for kind in ("i64", "dti_D", "inplace"):
                yield {"t": "chain", "n": n, "nf": nf, "kind": kind}


def compare(ctx, tag, out, err, ref, must, may):
    if err is not None and not must and not may:
        ctx.fail("rejected", f"{tag}: valid setting raised {type(err).__name__}: {err}")
        return
    if err is not None and may and not must:
        return
    if must and err is None:
        ctx.fail("not-rejected", f"{tag}: unsatisfiable setting did not raise; got {out}")
        return
    if must:
        if out != ref[:len(out)]:
            ctx.fail("prefix", f"{tag}: {out} before the error, expected a prefix of {ref}")
        return
    if len(out) != len(ref):
        ctx.fail("count", f"{tag}: {len(out)} splits, expected {len(ref)}")
        return
    for k, ((tr, te), (rtr, rte)) in enumerate(zip(out, ref)):
        if te != rte:
            ctx.fail("test-set", f"{tag}: split {k} test {te}, expected {rte}")
        elif sorted(tr) != rtr:
            ctx.fail("train-set", f"{tag}: split {k} train {tr}, expected {rtr}")
        elif tr != rtr:
            ctx.fail("train-order", f"{tag}: split {k} train {tr} not in time order")


def chain(case, ctx):
    """One splitter used on every grouping of a size, one after the other: each pass is judged on its own data."""
    n, nf, kind = case["n"], case["nf"], case["kind"]
    gs = list(sl.groupings(n, (0, 1, 2)))
    X = sl.make_X(n, "np")
    buf = np.zeros(n, dtype=np.int64)
    for e, p, lf in ((0, 0, False), (1, 0, False), (0, 1, True), (1, 1, False)):
        for order in (gs, gs[::-1], sorted(gs, key=lambda g: (g[-1], g[n // 2]))):
            kf = TimeAwareKFold(nf, e, p, lf, sl.freq_of(kind))
            for g in order:
                if kind == "inplace":  # the very same array object, new contents
                    buf[:] = g
                    groups = buf
                else:
                    groups = sl.make_groups(g, kind)
                out, err = sl.collect(kf.split(X, groups=groups))
                ref, must, may = sl.kfold_ref(g, nf, e, p, lf)
                compare(ctx, f"reused splitter kind={kind} folds={nf} embargo={e} purge={p} lf={lf} groups={g}", out, err,
                        ref, must, may)
                ctx.step(len(out) + 1)
                ctx.state("chain", kind, nf, e, p, lf, tuple(g))
            ctx.trace()


def run(case, ctx):
    if case["t"] == "nogroups":
        n = case["n"]
        g = list(range(n))
        for xk in ("np", "df"):
            for yk in ("none", "y", "ys"):
                for nf in sorted({2, 3, 4, 5, min(10, n), n} & set(range(2, n + 1))):
                    for e in (0, 1, 2):
                        for p in (0, 1, 2):
                            for lf in (False, True):
                                for fr in (None, "D"):
                                    kf = TimeAwareKFold(nf, e, p, lf, fr)
                                    out, err = sl.collect(kf.split(sl.make_X(n, xk), sl.make_y(n, yk)))
                                    ref, must, may = sl.kfold_ref(g, nf, e, p, lf)
                                    tag = f"no groups n={n} X={xk} y={yk} folds={nf} embargo={e} purge={p} lf={lf} freq={fr}"
                                    compare(ctx, tag, out, err, ref, must, may)
                                    ctx.state(n, xk, yk, nf, e, p, lf, fr)
                                    ctx.step(len(out) + 1)
                                    ctx.trace()
        return
    if case["t"] == "chain":
        chain(case, ctx)
        return
    g = case["g"]
    n = len(g)
    X = sl.make_X(n, "np")
    if case["t"] == "exact":
        for kind, nf, e, p, lf in t01.settings(case):
            groups = sl.make_groups(g, kind)
            if groups is None:
                continue
            kf = TimeAwareKFold(n_folds=nf, n_embargo=e, n_purge=p, look_forward=lf, freq=sl.freq_of(kind))
            out, err = sl.collect(kf.split(X, groups=groups))
            ref, must, may = sl.kfold_ref(g, nf, e, p, lf)
            tag = f"kind={kind} folds={nf} embargo={e} purge={p} lf={lf} groups={g if n < 20 else case['g'][:20]}"
            compare(ctx, tag, out, err, ref, must, may)
            ann = kf.get_n_splits()
            if err is None and ann != len(out):
                ctx.fail("announced", f"{tag}: announces {ann} splits, yields {len(out)}")
            if ann != (nf - 1 if lf else nf):
                ctx.fail("announced", f"{tag}: announces {ann} splits")
            ctx.outcome("raised" if err is not None else "completed")
            ctx.state(tuple(g), kind, nf, e, p, lf)
            ctx.step(len(out) + 2)
            ctx.trace()
        ctx.sample({"groups": g, "folds": case["nf"]})
        return
    # histories: all merges of two passes over (possibly different) data on one splitter, then a fresh full pass
    g2 = [2 * x + (i > 1) for i, x in enumerate(g)] + [2 * g[-1] + 3]
    for nf in (2, 3):
        for e, p in ((0, 0), (1, 1)):
            for lf in (False, True):
                ra = sl.kfold_ref(g, nf, e, p, lf)
                rb = sl.kfold_ref(g2, nf, e, p, lf)
                if ra[1] or ra[2] or rb[1] or rb[2]:
                    continue
                la, lb = len(ra[0]) + 1, len(rb[0]) + 1
                for pos in combinations(range(la + lb), la):
                    kf = TimeAwareKFold(nf, e, p, lf)
                    ga = kf.split(X, groups=np.array(g))
                    gb = kf.split(sl.make_X(n + 1, "df"), groups=np.array(g2))
                    oa, ob = [], []
                    for s in range(la + lb):
                        src, dst = (ga, oa) if s in pos else (gb, ob)
                        try:
                            a, b = next(src)
                            dst.append((a, b))
                        except StopIteration:
                            dst.append(None)
                        ctx.step()
                    # read the index arrays only now: a pass must not overwrite what it yielded before
                    fa = [(sl.idx(t[0]), sl.idx(t[1])) for t in oa if t]
                    fb = [(sl.idx(t[0]), sl.idx(t[1])) for t in ob if t]
                    ctx.trace()
                    if fa != ra[0] or fb != rb[0]:
                        ctx.fail("interleaved", f"folds={nf} e={e} p={p} lf={lf} order={pos}: {fa} / {fb}")
                    ctx.state(tuple(g), nf, e, p, lf, pos)
