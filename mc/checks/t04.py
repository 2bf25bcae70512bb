"""T04: walk-forward coverage and history independence."""
import warnings
from itertools import product

import numpy as np

from quantfinlib.train_test_split.walk_forward import WalkForward

from mc import splitlib as sl
from mc.checks import t03

ID = "T04"
CASE_LIMIT = 120
ASSUMPTIONS = t03.ASSUMPTIONS + ["a pass is complete when its iterator is exhausted"]

EVENTS = ["fullA", "fullB", "abandonA1", "closeB1", "abandonA0", "zip", "nested", "count"]


def BOUNDS(tier):
    d = 3 if tier == "quick" else 4
    return t03.BOUNDS(tier) + f"; all histories of up to {d} events from {EVENTS} on one splitter for 24 settings; one splitter reused over all groupings of 4-6 samples in 3 orders"


def cases(tier):
    for c in t03.cases(tier):
        yield dict(c, t="exact")
    for n in (2, 3, 5, 8, 33, 100):
        yield {"t": "nogroups", "n": n}
    for n in (4, 5, 6) if tier == "quick" else (4, 5, 6, 7):
        for kind in ("i64", "dti_D", "inplace"):
            yield {"t": "chain", "n": n, "kind": kind}
    d = 3 if tier == "quick" else 4
    for L in range(1, d + 1):
        for h in product(EVENTS, repeat=L):
            yield {"t": "history", "h": list(h)}


def compare(ctx, tag, out, err, ref, must):
    if must:
        if err is None:
            ctx.fail("not-rejected", f"{tag}: did not raise; got {out}")
        elif out != ref[:len(out)]:
            ctx.fail("prefix", f"{tag}: {out} before the error, expected a prefix of {ref}")
        return
    elif err is not None:
        ctx.fail("rejected", f"{tag}: raised {type(err).__name__}: {err}")
        return
    if [te for _, te in out] != [te for _, te in ref]:
        ctx.fail("test-windows", f"{tag}: got {[te for _, te in out]}, expected {[te for _, te in ref]}")
    elif [tr for tr, _ in out] != [tr for tr, _ in ref]:
        ctx.fail("train-windows", f"{tag}: got {[tr for tr, _ in out]}, expected {[tr for tr, _ in ref]}")


def nsplits(wf, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return wf.get_n_splits(*a)


A = [0, 1, 1, 2, 4, 5, 7, 8]
B = [0, 2, 3, 3, 5, 6, 9, 10, 11, 14]


def chain(case, ctx):
    """One splitter used on every grouping of a size, one after the other: each pass is judged on its own data."""
    n, kind = case["n"], case["kind"]
    gs = list(sl.groupings(n, (0, 1, 2)))
    X = sl.make_X(n, "np")
    buf = np.zeros(n, dtype=np.int64)
    for st, tw, w, e in product(("expanding", "rolling"), (1, 3), (1, 2), (0, 1)):
        for order in (gs, gs[::-1], sorted(gs, key=lambda g: (g[-1], g[n // 2]))):
            wf = WalkForward(e, 0, tw, w, st, sl.freq_of(kind))
            for g in order:
                if kind == "inplace":
                    buf[:] = g
                    groups = buf
                else:
                    groups = sl.make_groups(g, kind)
                out, err = sl.collect(wf.split(X, groups=groups))
                ref, must = sl.walk_ref(g, e, tw, w, st)
                tag = f"reused splitter kind={kind} {st} train={tw} test={w} embargo={e} groups={g}"
                compare(ctx, tag, out, err, ref, must)
                if not must and nsplits(wf) != len(ref):
                    ctx.fail("count", f"{tag}: reports {nsplits(wf)} splits, expected {len(ref)}")
                ctx.step(len(out) + 1)
                ctx.state("chain", kind, st, tw, w, e, tuple(g))
            ctx.trace()


def run(case, ctx):
    if case["t"] == "exact":
        g = case["g"]
        n = len(g)
        X = sl.make_X(n, "np")
        for kind, st, tw, w, e in t03.settings(case):
            groups = sl.make_groups(g, kind)
            if groups is None:
                continue
            wf = WalkForward(n_embargo=e, train_window=tw, test_window=w, split_type=st, freq=sl.freq_of(kind))
            out, err = sl.collect(wf.split(X, groups=groups))
            ref, must = sl.walk_ref(g, e, tw, w, st)
            tag = f"kind={kind} {st} train={tw} test={w} embargo={e} groups={g[:20]}"
            compare(ctx, tag, out, err, ref, must)
            c = nsplits(wf)
            want = 0 if must else len(ref)
            if c != want:
                ctx.fail("count", f"{tag}: reports {c} splits, expected {want}")
            ctx.state(tuple(g), kind, st, tw, w, e)
            ctx.outcome("raised" if err is not None else "completed")
            ctx.step(len(out) + 2)
            ctx.trace()
        ctx.sample({"groups": g})
        return
    if case["t"] == "nogroups":
        n = case["n"]
        for xk, yk in product(("np", "df"), ("none", "y", "ys")):
            for st, tw, w, e in product(("expanding", "rolling"), (1, 2, 4, 10), (1, 2, 3, 7), (0, 1, 2)):
                wf = WalkForward(e, 0, tw, w, st)
                out, err = sl.collect(wf.split(sl.make_X(n, xk), sl.make_y(n, yk)))
                ref, must = sl.walk_ref(list(range(n)), e, tw, w, st)
                compare(ctx, f"no groups n={n} X={xk} y={yk} {st} train={tw} test={w} embargo={e}", out, err, ref, must)
                ctx.state(n, xk, yk, st, tw, w, e)
                ctx.step(len(out) + 1)
                ctx.trace()
        return
    if case["t"] == "chain":
        chain(case, ctx)
        return
    XA, XB = sl.make_X(len(A), "np"), sl.make_X(len(B), "df")
    gA, gB = np.array(A), np.array(B)
    for st, tw, w, e in product(("expanding", "rolling"), (4, 5), (1, 2, 3), (0, 1)):
        rA, mA = sl.walk_ref(A, e, tw, w, st)
        rB, mB = sl.walk_ref(B, e, tw, w, st)
        if mA or mB:
            continue
        wf = WalkForward(e, 0, tw, w, st)
        want = 0
        keep = []
        tag = f"{st} train={tw} test={w} embargo={e} history={case['h']}"

        def full(X, g, r, what):
            out, err = sl.collect(wf.split(X, groups=g))
            compare(ctx, f"{tag} {what}", out, err, r, False)
            ctx.step(len(out) + 1)

        for ev in case["h"]:
            if ev == "fullA":
                full(XA, gA, rA, ev)
                want = len(rA)
            elif ev == "fullB":
                full(XB, gB, rB, ev)
                want = len(rB)
            elif ev == "abandonA1":
                it = wf.split(XA, groups=gA)
                tr, te = next(it)
                keep.append((it, tr, te))
                if (sl.idx(tr), sl.idx(te)) != rA[0]:
                    ctx.fail("history", f"{tag}: first split of an abandoned pass {tr} {te}")
                ctx.step()
            elif ev == "closeB1":
                it = wf.split(XB, groups=gB)
                tr, te = next(it)
                if (sl.idx(tr), sl.idx(te)) != rB[0]:
                    ctx.fail("history", f"{tag}: first split of a closed pass {tr} {te}")
                it.close()
                ctx.step()
            elif ev == "abandonA0":
                keep.append((wf.split(XA, groups=gA), None, None))
            elif ev == "zip":  # two passes in lock step, the longer one completes last
                ia, ib = wf.split(XA, groups=gA), wf.split(XB, groups=gB)
                oa, ob, live, last = [], [], [0, 1], None
                for _ in range(sl.CAP):
                    for k, (it, o) in enumerate(((ia, oa), (ib, ob))):
                        if k in live:
                            try:
                                o.append(next(it))
                            except StopIteration:
                                live.remove(k)
                                last = k
                    if not live:
                        break
                if [(sl.idx(a), sl.idx(b)) for a, b in oa] != rA or [(sl.idx(a), sl.idx(b)) for a, b in ob] != rB:
                    ctx.fail("history", f"{tag}: lock-step passes {oa} {ob}")
                want = len(rA) if last == 0 else len(rB)
                ctx.step(len(oa) + len(ob) + 2)
            elif ev == "nested":  # a full pass over B inside each step of A
                oa = []
                for a, b in wf.split(XA, groups=gA):
                    oa.append((sl.idx(a), sl.idx(b)))
                    if len(oa) == 1:
                        full(XB, gB, rB, "inner")
                    if len(oa) > sl.CAP:
                        break
                if oa != rA:
                    ctx.fail("history", f"{tag}: outer pass {oa}")
                want = len(rA)
                ctx.step(len(oa) + 1)
            c = nsplits(wf)
            c2 = nsplits(wf, XA, None, gA)
            if c != want or c2 != want:
                ctx.fail("count", f"{tag} after {ev}: reports {c}/{c2} splits, expected {want}")
            ctx.step(2)
        ctx.state(tuple(case["h"]), st, tw, w, e)
        ctx.trace()
    ctx.sample({"history": case["h"]})
