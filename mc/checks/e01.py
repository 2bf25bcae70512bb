"""E01: rejected calls, and calls interrupted before every library line, leave objects, inputs and later results as they were."""
import warnings

from mc import calls as cl

ID = "E01"
TECHNIQUE = "exhaustive fault injection in the real code: every call interrupted before every library source line, then every follow-up call compared with an undisturbed object"
CHUNK = 1
CASE_LIMIT = 600
G = cl.groups()
ASSUMPTIONS = ["an interruption is an exception raised before a source line of the library (what Ctrl-C, a memory error or a failing callback "
               "produces); numpy, pandas and scipy calls are not interrupted half-way",
               "a rejected fit keeps the previous fit, an interrupted one leaves the previous or the complete new fit; likewise the count of a splitter",
               "the logger configuration is excluded (L01)"]


def BOUNDS(tier):
    return (f"{len(G)} groups of calls ({sum(len(g.pure) + len(g.change) for g in G.values())} calls, {sum(len(g.bad) for g in G.values())} invalid calls); every "
            "call x every library line it executes x " + ("one of 4 exception classes in turn" if tier == "quick" else "4 exception classes, and pairs of interrupted calls")
            + "; afterwards all calls of the group are compared with an undisturbed object")


def cases(tier):
    for n in G:
        yield {"group": n, "tier": tier}


def run(case, ctx):
    warnings.simplefilter("ignore")
    g, tier = G[case["group"]], case["tier"]
    ref = {}
    core = {**g.pure, **{n: f for n, (f, _) in g.change.items()}}

    def whole(n, o):
        return cl.canon(core[n](o)), cl.canon(g.change[n][1](o)) if n in g.change else None

    for n in core:
        o = g.make()
        before = inputs(o)
        ref[n] = whole(n, o)
        if before != inputs(o):
            ctx.fail("input-modified", f"{g.name}: {n} changed its inputs")
    clean = inputs(g.make())
    long = {}

    def outlook(o, n):
        try:
            return whole(n, o)
        except Exception as e:  # noqa
            return f"{type(e).__name__}: {e}"

    completed = {}

    def new(n):
        """results of the pure calls after the complete call of n"""
        if n not in completed:
            o = g.make()
            core[n](o)
            completed[n] = {k: outlook(o, k) for k in g.pure}
        return completed[n]

    def after(o, tag, again=None):
        """all calls on a disturbed object"""
        if inputs(o) != clean:
            ctx.fail("input-modified", f"{tag}: inputs changed")
            return
        got = {}
        for n in g.pure:
            if n in long and n != again and not tag.endswith("rejected"):
                continue
            ctx.step()
            got[n] = outlook(o, n)
        for n in got:
            if got[n] != ref[n]:
                if again in g.change and all(got[k] == new(again)[k] for k in got):
                    ctx.outcome("interrupted after its last effect")
                    break
                ctx.fail("later-call", f"{tag}: afterwards {n} gives {str(got[n])[:400]}, on an undisturbed object {str(ref[n])[:400]}")
                return
        for n in ([again] if again in g.change else list(g.change)[:1]):
            ctx.step()
            r = outlook(o, n)
            if r != ref[n]:
                ctx.fail("later-call", f"{tag}: afterwards {n} gives {str(r)[:400]}, on an undisturbed object {str(ref[n])[:400]}")

    for n, f in g.bad.items():
        o = g.make()
        try:
            f(o)
            ctx.outcome("accepted")
            continue
        except Exception as e:  # noqa
            ctx.outcome("rejected")
            tag = f"{g.name}: {n} ({type(e).__name__}: {str(e)[:80]}) rejected"
        ctx.state(g.name, "bad", n)
        after(o, tag)
        ctx.trace()
    todo = dict(core)
    if "observe" in todo:
        del todo["observe"]
    lines = {}
    for n, f in todo.items():
        o = g.make()
        _, lines[n], _ = cl.trace_run(lambda: f(o))
    for n in lines:
        if lines[n] > 150:
            long[n] = True
    for n, f in todo.items():
        L = lines[n]
        step = 1 + L // (400 if tier == "quick" else 4000)
        if step > 1:
            ctx.outcome("thinned calls")
        for p in range(1, L + 1, step):
            for j, mk in enumerate(cl.EXCS):
                if tier == "quick" and j != p % len(cl.EXCS):
                    continue
                o = g.make()
                e = mk()
                (st, v), _, fired = cl.trace_run(lambda: f(o), p, e)
                tag = f"{g.name}: {n} interrupted by {type(e).__name__} before its library line {p} of {L}"
                if not fired:
                    ctx.outcome("line not reached")   # a repeated call may take a shorter way
                    continue
                if st == "ok":
                    ctx.outcome("handled inside")
                    if cl.canon(v) != ref[n][0]:
                        ctx.fail("swallowed", f"{tag}: returns {str(cl.canon(v))[:400]} instead of {str(ref[n][0])[:400]}")
                    if n in g.change:
                        continue
                else:
                    ctx.outcome("interrupted")
                after(o, tag, n)
                ctx.state(g.name, n, p)
                ctx.trace()
                if len(ctx.fails) > 8:
                    return
        ctx.sample({"group": g.name, "call": n, "lines": L})
    if tier == "thorough":   # two interrupted calls in a row
        for a, b in ((a, b) for a in todo for b in todo):
            if lines[a] * lines[b] > 4000:
                continue
            for p in range(1, lines[a] + 1):
                for q in range(1, lines[b] + 1):
                    o = g.make()
                    (s1, _), _, _ = cl.trace_run(lambda: todo[a](o), p, KeyboardInterrupt())
                    (s2, _), _, _ = cl.trace_run(lambda: todo[b](o), q, MemoryError())
                    if s1 == "ok" or s2 == "ok":
                        continue
                    after(o, f"{g.name}: {a} interrupted before line {p}, then {b} before line {q}", b)
                    ctx.state(g.name, a, b, p, q)
                    ctx.trace()
                    if len(ctx.fails) > 8:
                        return


def inputs(o):
    return cl.canon({k: v for k, v in o.items() if k not in ("m", "cv", "h", "b", "base", "left")})
