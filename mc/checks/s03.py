"""S03: reproducible sampling, no state leaks between calls, models, caller data and the global random state."""
import pickle
from itertools import product

import numpy as np
import pandas as pd

from mc import simlib as sl
from quantfinlib.sim import QuasiRandom, BrownianMotion

ID = "S03"
ASSUMPTIONS = [
    "the expected state after a history is that of a new model built from the original parameters and given only the "
    "last fit of the history",
    "two unseeded paths of 6 steps are equal with probability zero",
]
EV = ["seeded", "labelled", "unseeded", "nll", "crit", "fitA", "fitB", "fitD", "mut_params", "mut_fit", "mut_out",
      "other", "grow", "fitbad"]
EVQ = ["seeded", "labelled", "unseeded", "mut_params", "mut_out", "other", "base_sample", "grow"]


def BOUNDS(tier):
    d = 3 if tier == "quick" else 4
    return (f"all histories of up to {d} events from {EV} for 3 models with 1 and 2 series, and from {EVQ} for "
            "quasi-random models; probes after every event")


def cases(tier):
    d = 3 if tier == "quick" else 4
    for L in range(0, d + 1):
        for k, V in product(("bm", "gbm", "ou"), (1, 2)):
            if L == 4 and V == 1:
                continue
            for h in product(EV, repeat=L):
                yield {"k": k, "V": V, "h": list(h)}
        if L == 0:
            for k, V in product(("bm", "gbm", "ou", "qr"), (1, 2)):
                yield {"k": k, "V": V, "seeds": True, "h": []}
        for h in product(EVQ, repeat=L):
            yield {"k": "qr", "V": 1 + L % 2, "h": list(h)}


def rngstate():
    s = np.random.get_state()
    return pickle.dumps((s[0], s[1].tobytes(), s[2], s[3], s[4]))


def pcont(V):
    p = {"drift": np.array([0.3, -0.1][:V]), "vol": np.array([0.2, 0.4][:V]), "mrr": np.array([1.5, 0.4][:V]),
         "cor": None if V == 1 else np.array([[1, 0.4], [0.4, 1]])}
    return p


def ind(x):
    return np.cumsum(np.sin(np.arange(len(x)) * 1.3)) + 0.1 * x


DATA = {}


def data(k, V):
    if (k, V) not in DATA:
        p = pcont(V)
        a = sl.build(k, sl.std_noise(12, V, p["cor"])[:, None, :], [5.0, 7.0][:V], p, 1 / 12)
        p2 = dict(p, vol=p["vol"] * 2, drift=p["drift"] - 1)
        b = sl.build(k, sl.std_noise(15, V, p["cor"], 3)[:, None, :], [4.0, 2.0][:V], p2, 1 / 4)
        DATA[(k, V)] = a, b
    a, b = DATA[(k, V)]
    return a.copy(), b.copy()


def new(k, V, p):
    if k == "qr":
        return QuasiRandom(ind, p["f"], BrownianMotion(drift=p["drift"], vol=p["vol"], cor=p["cor"]))
    return sl.make(k, p)


def fit_args(k, V, which):
    a, b = data(k, V)
    if which == "fitA":
        return a, 1 / 12
    if which == "fitB":
        return (sl.contain(b, "srd" if V == 1 else "dfd", freq="QE"), None)
    return (sl.contain(a, "df"), 0.5)


def probe(m, k, V):
    """Everything observable about a model, deterministic."""
    out = []
    for kw in ({}, {"x0": 3.0, "dt": 0.1, "num_paths": 2}, {"label_start": "2020-01-31", "label_freq": "ME"},
               {"x0": 2, "include_x0": False}):
        r = m.path_sample(num_steps=6, random_state=11, **kw)
        out.append(r)
    if k != "qr":
        a, _ = data(k, V)
        out += [m.nll(a, 0.1), m.aic(a), m.bic(sl.contain(a, "dfd", freq="D"))]
        out += [np.array(getattr(m, "mean" if k == "ou" else "drift")), np.array(m.vol)]
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, pd.DataFrame):
        return list(a.columns) == list(b.columns) and a.index.equals(b.index) and a.index.name == b.index.name and \
            np.array_equal(a.to_numpy(), b.to_numpy(), equal_nan=True)
    if isinstance(a, pd.Series):
        return a.name == b.name and a.index.equals(b.index) and np.array_equal(a.to_numpy(), b.to_numpy(), equal_nan=True)
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


REFS = {}


def reference(k, V, last):
    key = (k, V, last)
    if key not in REFS:
        p = pcont(V)
        if k == "qr":
            p["f"] = 0.2
        m = new(k, V, p)
        if last:
            x, dt = fit_args(k, V, last)
            m.fit(x, dt=dt)
        REFS[key] = probe(m, k, V)
    return REFS[key]


SEEDS = [0, 1, 2, 3, 7, 10, 100, 255, 256, 1000, 12345, 2**15, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53 + 1, 2**63, 2**64, 2**64 + 1]


def run_seeds(case, ctx):
    """every seed of a menu gives one path, its own, for every sampling call, whatever integer type it has"""
    k, V = case["k"], case["V"]
    p = pcont(V)
    if k == "qr":
        p["f"] = 0.2
    st = rngstate()
    for kw in ({"num_steps": 6}, {"num_steps": 5, "num_paths": 3}, {"num_steps": 6, "label_start": "2020-01-31", "label_freq": "ME"}):
        seen = {}
        for s in SEEDS:
            types = [int] + [t for t in (np.int8, np.uint8, np.int16, np.int32, np.uint32, np.int64, np.uint64) if s <= np.iinfo(t).max]
            rs = [np.asarray(new(k, V, p).path_sample(x0=2.0, dt=0.1, random_state=t(s), **kw)) for t in types]
            m = new(k, V, p)
            for s2 in (s, 5, s):
                r = np.asarray(m.path_sample(x0=2.0, dt=0.1, random_state=s2, **kw))
                if s2 == s:
                    rs.append(r)
            ctx.step(len(rs))
            ctx.trace()
            if not all(np.array_equal(r, rs[0]) for r in rs):
                ctx.fail("seed", f"{k} V={V} {kw}: seed {s} gives different paths in different calls or as types {[t.__name__ for t in types]}")
            key = rs[0].tobytes()
            if key in seen:
                ctx.fail("seed", f"{k} V={V} {kw}: seeds {seen[key]} and {s} give the same path")
            seen[key] = s
            ctx.state(k, V, s, tuple(kw))
        r = np.asarray(new(k, V, p).path_sample(x0=2.0, dt=0.1, **kw))
        if r.tobytes() in seen:
            ctx.fail("unseeded", f"{k} V={V} {kw}: without a seed the path is that of seed {seen[r.tobytes()]}")
    if rngstate() != st:
        ctx.fail("global-rng", f"{k} V={V}: seeding changed the global random state")


def run(case, ctx):
    k, V = case["k"], case["V"]
    if case.get("seeds"):
        return run_seeds(case, ctx)
    p = pcont(V)
    if k == "qr":
        p["f"] = 0.2
    m = new(k, V, p)
    last = None
    fits, outs = [], []
    tag = f"{k} V={V} history={case['h']}"
    st = rngstate()
    for n, ev in enumerate(case["h"]):
        a, b = (None, None) if k == "qr" else data(k, V)
        if ev == "seeded":
            r1 = m.path_sample(x0=2.0, dt=0.1, num_steps=6, num_paths=2, random_state=3)
            r2 = m.path_sample(x0=2.0, dt=0.1, num_steps=6, num_paths=2, random_state=3)
            r3 = m.path_sample(x0=2.0, dt=0.1, num_steps=6, num_paths=2, random_state=4)
            if not same(r1, r2):
                ctx.fail("seed", f"{tag}: same seed gives different paths")
            if np.array_equal(np.asarray(r1), np.asarray(r3)):
                ctx.fail("seed", f"{tag}: different seeds give the same path")
            outs += [r1, r2]
        elif ev == "labelled":
            x0 = np.array([2.0] * V)
            c = ["u", "v"][:V]
            r = m.path_sample(x0=x0, num_steps=6, label_start="2021-01-01", label_freq="B", columns=c, random_state=9)
            if x0.tolist() != [2.0] * V or c != ["u", "v"][:V]:
                ctx.fail("input-modified", f"{tag}: path_sample changed its arguments")
            outs.append(r)
        elif ev == "unseeded":
            r1 = m.path_sample(x0=2.0, num_steps=6)
            r2 = m.path_sample(x0=2.0, num_steps=6)
            if np.array_equal(np.asarray(r1), np.asarray(r2)):
                ctx.fail("unseeded", f"{tag}: two unseeded paths are equal")
            outs.append(r1)
        elif ev in ("nll", "crit"):
            x = sl.contain(a, "dfd", freq="ME")
            keep = x.copy(deep=True)
            for f in ((m.nll,) if ev == "nll" else (m.aic, m.bic)):
                r1, r2, r3 = f(x), f(x, 0.3), f(x)
                if r1 != r3:
                    ctx.fail("nll-changes", f"{tag}: {ev} {r1} then {r3}")
                if r1 == r2:
                    ctx.fail("nll-dt", f"{tag}: {ev} ignores dt")
                f(b.copy(), 0.7)
            if not keep.equals(x):
                ctx.fail("input-modified", f"{tag}: {ev} changed its data")
        elif ev in ("fitA", "fitB", "fitD"):
            x, dt = fit_args(k, V, ev)
            keep = x.copy()
            m.fit(x, dt=dt)
            if not np.array_equal(np.asarray(keep), np.asarray(x)):
                ctx.fail("input-modified", f"{tag}: fit changed its data")
            fits.append(x)
            last = ev
        elif ev == "fitbad":  # read-only data must be fine as well
            x, dt = fit_args(k, V, "fitA")
            x.setflags(write=False)
            m.fit(x, dt=dt)
            last = "fitA"
        elif ev == "mut_params":
            for q in ("drift", "vol", "mrr"):
                p[q][...] = 9.0
            if p["cor"] is not None:
                p["cor"][...] = 0.1
        elif ev == "mut_fit":
            for x in fits:
                if isinstance(x, np.ndarray):
                    x[...] = 1e6
                else:
                    x.iloc[:] = 1e6
        elif ev == "mut_out":
            for x in outs:
                if isinstance(x, np.ndarray):
                    x[...] = -77.0
                else:
                    x.iloc[:] = -77.0
        elif ev == "other":
            q = pcont(V)
            if k == "qr":
                o = QuasiRandom(ind, 0.5)
                o2 = QuasiRandom(ind)
                if o.base_model is o2.base_model or o.base_model is m.base_model:
                    ctx.fail("shared-base", f"{tag}: two models share one base model")
                o.base_model.vol = np.array([[55.0]])
                o.base_model.vol[...] = 3.0
                r = QuasiRandom(ind).path_sample(num_steps=6, random_state=1)
                r0 = QuasiRandom(ind, 0.1, BrownianMotion()).path_sample(num_steps=6, random_state=1)
                if not same(r, r0):
                    ctx.fail("shared-base", f"{tag}: changing one model changes a new default model")
            else:
                o = type(m)()
                if V == 2:
                    o.fit(b, 0.25)
                else:
                    o.fit(b[:, 0], 0.25)
                o.path_sample(num_steps=3, random_state=1)
                d = type(m)()
                if d.path_sample(num_steps=3, random_state=1).shape != (4, 1):
                    ctx.fail("shared-default", f"{tag}: a new default model is not the default model")
        elif ev == "base_sample":
            m.base_model.path_sample(x0=1.0, num_steps=4, random_state=8)
        elif ev == "grow":
            m.path_sample(x0=1.0, num_steps=9, num_paths=4, random_state=8)
            m.path_sample(x0=[1.0] * V, dt=2.0, num_steps=4, num_paths=1, random_state=8)
        ctx.step()
        if rngstate() != st:
            ctx.fail("global-rng", f"{tag}: {ev} changed the global random state")
            return
        if n == len(case["h"]) - 1 or ev.startswith("mut"):
            got = probe(m, k, V)
            want = reference(k, V, last)
            ctx.step(len(got))
            for i, (g, w) in enumerate(zip(got, want)):
                if not same(g, w):
                    ctx.fail("state", f"{tag} after {ev}: probe {i} is {np.asarray(g).tolist()}, a new model with the "
                                      f"same last fit gives {np.asarray(w).tolist()}")
                    break
            got2 = probe(m, k, V)
            if not all(same(x, y) for x, y in zip(got, got2)):
                ctx.fail("probe", f"{tag}: repeated probes differ")
    ctx.state(k, V, tuple(case["h"]))
    ctx.trace()
    ctx.sample(case)
