"""C01: objects, their copies (deep, shallow, pickled) and other objects of the same kind never influence each other."""
import copy
import pickle
import warnings
from itertools import product

import joblib

from mc import calls as cl

ID = "C01"
TECHNIQUE = "exhaustive exploration of operation histories over pairs of objects on the real code, each compared with the same object alone"
CHUNK = 1
CASE_LIMIT = 600
OBJ = ("m", "cv", "h", "b")     # the keys under which a group keeps its object
ASSUMPTIONS = ["a copy takes over the state at the time of copying; two objects made by equal constructor calls start equal",
               "models with a user's own function and band objects of arrays are copied but not pickled",
               "settings are changed by assigning to public attributes, never by writing into an array two shallow copies share"]


def groups():
    return {n: g for n, g in cl.groups().items() if any(k in g.make() for k in OBJ)}


G = groups()
HOWS = ("other", "deepcopy", "copy", "pickle", "joblib")


def BOUNDS(tier):
    return (f"{len(G)} kinds of objects (models new and fitted, quasi-random models, splitters, clusterings, bands) x {len(HOWS) if tier != "quick" else 4} ways to get a second object x " +
            ("one state-changing call" if tier == "quick" else "one call") + " (or none) before, then all pairs of calls on either object in either order" + ("" if tier == "quick" else ", then all triples"))


def cases(tier):
    for n in G:
        for how in HOWS if tier != "quick" else HOWS[:4]:
            yield {"group": n, "how": how, "tier": tier}


def second(o, how, make):
    """a second set of objects and inputs"""
    if how == "other":
        return make()
    k = next(k for k in OBJ if k in o)
    d = dict(make())
    if how == "deepcopy":
        c = copy.deepcopy(o[k])
    elif how == "copy":
        c = copy.copy(o[k])
    elif how == "pickle":
        c = pickle.loads(pickle.dumps(o[k]))
    else:
        import io
        f = io.BytesIO()
        joblib.dump(o[k], f)
        f.seek(0)
        c = joblib.load(f)
    d[k] = c
    return d


def run(case, ctx):
    warnings.simplefilter("ignore")
    g, how = G[case["group"]], case["how"]
    ops = {**g.pure, **{n: (lambda o, f=f, look=look: (f(o), look(o))) for n, (f, look) in {**g.change, **g.assign}.items()}}
    if how in ("pickle", "joblib"):
        try:
            second(g.make(), how, g.make)
        except (AttributeError, TypeError, pickle.PicklingError):
            if any(x in g.name for x in ("quasi", "bands")):
                ctx.outcome("cannot be pickled")
                return
            raise
    if "observe" in ops and g.change:   # the cheap calls tell as much in a history
        ops = {n: f for n, f in ops.items() if n not in ("bic", "labelled")}
    alone = {}

    def one(o, n):
        ctx.step()
        try:
            return cl.canon(ops[n](o))
        except Exception as e:  # noqa
            return f"{type(e).__name__}: {e}"

    def expected(hist):
        """result of the last of a sequence of calls on one object"""
        if hist not in alone:
            o = g.make()
            r = None
            for n in hist:
                r = one(o, n)
            alone[hist] = r
        return alone[hist]

    names = list(ops)
    heavy = {n for n in names if n == "observe"}
    depth = 2 if case["tier"] == "quick" else 3
    quick = case["tier"] == "quick"
    for first in [None] + (list(g.change) if quick else names):
        for seq in product(product((0, 1), names), repeat=depth):
            if len({w for w, _ in seq}) < 2:   # both objects take part
                continue
            if sum(n in heavy for _, n in seq) > 1:
                continue
            a = g.make()
            h = [(), ()]
            if first is not None:
                one(a, first)
                h[0] = (first,)
                if how != "other":
                    h[1] = (first,)
            pair = (a, second(a, how, g.make))
            for w, n in seq:
                h[w] += (n,)
                r = one(pair[w], n)
                e = expected(h[w])
                if r != e:
                    tag = ("the original", "the " + how)[w]
                    ctx.fail("influenced", f"{g.name}: after {first}, a {how} and {seq}: {n} on {tag} gives {str(r)[:300]}, alone {str(e)[:300]}")
                    return
            ctx.trace()
            ctx.state(g.name, how, first, seq)
    ctx.sample({"group": g.name, "second object": how, "calls": names})
