"""V01: acceptance and rejection of arguments, over every position, call style and single bad value."""
import inspect
from itertools import combinations, product

import numpy as np
import pandas as pd

from quantfinlib.clustering import metrics
from quantfinlib.distance import distance_matrix as dm
from quantfinlib.distance import information as inf
from quantfinlib.train_test_split.kfoldpe import TimeAwareKFold
from quantfinlib.train_test_split.walk_forward import WalkForward
from quantfinlib.util import validate_frame_or_2Darray, validate_series_or_1Darray

ID = "V01"
TECHNIQUE = "exhaustive enumeration of argument tuples (position, call style, value menu) against an acceptance predicate"
CHUNK = 8
CASE_LIMIT = 120
ASSUMPTIONS = ["rejection means an exception before the first result is produced; its class is only fixed for the two decorators, "
               "which document ValueError",
               "None passes the decorators, which treat a guarded argument as optional"]

N = 12
DATES = pd.date_range("2024-01-01", periods=N, freq="D")


def BOUNDS(tier):
    return ("decorators: functions of 3 parameters x every subset of guarded names x every value tuple with at most "
            + ("two" if tier == "quick" else "three") + " non-default entries from a menu of 24 (1-D) / 24 (2-D) values x positional, "
            "keyword and mixed calls; 9 library functions x each guarded argument x the menus x call styles; splitters: the product of "
            "good settings, each with every single bad setting; every group sequence of length " + ("6" if tier == "quick" else "8")
            + " over 3 values in 5 containers")


class ArraySub(np.ndarray):
    pass


class SeriesSub(pd.Series):
    pass


class FrameSub(pd.DataFrame):
    pass


def one_d():
    good = [("float array", np.array([1.0, 2.0, 3.0])), ("int array", np.array([1, 2])), ("bool array", np.array([True, False])),
            ("series", pd.Series([1.0, 2.0, 3.0], index=[7, 7, 1])), ("named series", pd.Series([1, 2], name="a")),
            ("nan array", np.array([np.nan, np.nan])), ("array subclass", np.array([1.0, 2.0]).view(ArraySub)),
            ("series subclass", SeriesSub([1.0, 2.0])), ("strided", np.arange(10.0)[::4]), ("None", None)]
    bad = [("list", [1.0, 2.0]), ("tuple", (1.0, 2.0)), ("float", 1.0), ("int", 3), ("str", "ab"), ("dict", {0: 1, 1: 2}),
           ("index", pd.Index([1, 2])), ("dates", DATES), ("pandas array", pd.array([1, 2])), ("0-d", np.array(1.0)),
           ("numpy scalar", np.float64(1.0)), ("column", np.ones((3, 1))), ("row", np.ones((1, 3))), ("3-d", np.ones((2, 2, 2))),
           ("frame", pd.DataFrame({"a": [1.0, 2.0]})), ("one element", np.array([1.0])), ("empty", np.array([])),
           ("series of one", pd.Series([1.0])), ("empty series", pd.Series([], dtype=float)), ("memoryview", memoryview(b"ab")),
           ("range", range(3)), ("nested", [[1.0, 2.0]])]
    return good, bad


def two_d():
    good = [("array", np.arange(6.0).reshape(3, 2)), ("int array", np.arange(4).reshape(2, 2)), ("frame", pd.DataFrame(np.eye(2))),
            ("labelled frame", pd.DataFrame(np.eye(3), index=[1, 1, 2], columns=list("abc"))), ("one row", np.ones((1, 2))),
            ("one row frame", pd.DataFrame([[1.0, 2.0, 3.0]])), ("array subclass", np.eye(2).view(ArraySub)),
            ("frame subclass", FrameSub(np.eye(2))), ("transposed", np.arange(8.0).reshape(2, 4).T), ("None", None)]
    bad = [("list", [[1.0, 2.0], [3.0, 4.0]]), ("tuple", ((1.0, 2.0), (3.0, 4.0))), ("float", 1.0), ("str", "ab"), ("dict", {"a": [1, 2], "b": [1, 2]}),
           ("1-d", np.arange(4.0)), ("series", pd.Series([1.0, 2.0])), ("index", pd.Index([1, 2])), ("multiindex", pd.MultiIndex.from_product([[1, 2], [3, 4]])),
           ("3-d", np.ones((2, 2, 2))), ("0-d", np.array(1.0)), ("one column", np.ones((3, 1))), ("frame of one column", pd.DataFrame({"a": [1.0, 2.0, 3.0]})),
           ("no columns", np.ones((3, 0))), ("frame without columns", pd.DataFrame(index=[0, 1])), ("empty", np.array([])), ("nested list of rows", [np.ones(2), np.ones(2)])]
    return good, bad


def styles(names, values):
    """every way to pass the arguments: k positional, the rest by keyword (in both orders)"""
    for k in range(len(values) + 1):
        kw = list(zip(names[k:], values[k:]))
        yield k, values[:k], dict(kw)
        if len(kw) > 1:
            yield -k, values[:k], dict(reversed(kw))


# ---------------------------------------------------------------- decorators
def run_decorator(case, ctx):
    deco, menu = (validate_series_or_1Darray, one_d) if case["t"] == "1d" else (validate_frame_or_2Darray, two_d)
    good, bad = menu()
    items = [(n, v, True) for n, v in good] + [(n, v, False) for n, v in bad]
    names = ("a", "b", "c")
    guarded = case["guard"]
    calls = []
    token, boom = object(), KeyError("boom")

    def f(a, b=None, c=None, **extra):
        """Doc of f."""
        calls.append((a, b, c, extra))
        if extra.get("fail"):
            raise boom
        return token

    g = deco(*guarded)(f)
    if (g.__name__, g.__doc__, inspect.signature(g)) != (f.__name__, f.__doc__, inspect.signature(f)):
        ctx.fail("metadata", f"guarding {guarded}: {g.__name__}{inspect.signature(g)}: {g.__doc__}")
    base = items[0]
    most = 2 if case["tier"] == "quick" else 3
    for k in range(0, most + 1):
        for pos in combinations(range(3), k):
            for pick in product(items, repeat=k):
                row = [base] * 3
                for i, it in zip(pos, pick):
                    row[i] = it
                ok = all(row[i][2] for i in range(3) if names[i] in guarded)
                vals = [r[1] for r in row]
                for sid, args, kw in styles(names, vals):
                    calls.clear()
                    ctx.step()
                    label = f"guarded {guarded}, arguments {[r[0] for r in row]}, {len(args)} positional"
                    try:
                        r = g(*args, **kw)
                    except ValueError:
                        if ok:
                            ctx.fail("rejects-valid", label)
                        if calls:
                            ctx.fail("computed-before-rejecting", label)
                        continue
                    except Exception as e:  # noqa
                        ctx.fail("wrong-error", f"{label}: {type(e).__name__}: {e}")
                        continue
                    if not ok:
                        ctx.fail("accepts-invalid", label)
                    elif r is not token or len(calls) != 1 or any(x is not y for x, y in zip(calls[0], vals)) or calls[0][3]:
                        ctx.fail("altered-call", f"{label}: result {r!r}, {len(calls)} calls")
                ctx.state(case["t"], tuple(guarded), tuple(r[0] for r in row))
                ctx.trace()
                if len(ctx.fails) > 10:
                    return
    # omitted arguments, extra keywords, exceptions of the function, wrong arity
    v = base[1]
    for kw in ({}, {"b": v}, {"c": v}, {"b": v, "extra": 1}):
        calls.clear()
        if g(v, **kw) is not token or len(calls) != 1 or calls[0][1] is not kw.get("b") or calls[0][2] is not kw.get("c") or calls[0][3] != {k: x for k, x in kw.items() if k == "extra"}:
            ctx.fail("altered-call", f"guarded {guarded}, optional arguments {list(kw)}")
        ctx.step()
    try:
        g(v, fail=True)
        ctx.fail("altered-call", "the exception of the function is swallowed")
    except KeyError as e:
        if e is not boom:
            ctx.fail("altered-call", "the exception of the function is replaced")
    for args, kw in (((), {}), ((v, v, v, v), {}), ((v,), {"a": v})):
        calls.clear()
        try:
            g(*args, **kw)
            ctx.fail("arity", f"{len(args)} arguments {list(kw)} accepted")
        except TypeError:
            pass


# ---------------------------------------------------------------- guarded library functions
EYE3 = np.array([[1.0, 0.5, 0.2], [0.5, 1.0, -0.3], [0.2, -0.3, 1.0]])
DIST = np.array([[0, 1, 4, 5.0], [1, 0, 4, 5], [4, 4, 0, 1], [5, 5, 1, 0]])
SERIES = np.array([0.0, 1.0, 0.5, 2.0, 3.0, 1.5, -1.0, 0.2])
OTHER = np.array([1.0, 0.0, 0.7, 2.5, 2.0, -1.5, 1.0, 0.1])
LABELS = np.array([0, 0, 1, 1])
MAT = np.column_stack([SERIES, OTHER, SERIES * OTHER])


def library():
    xy = {"x": ("1d", SERIES), "y": ("1d", OTHER)}
    return {
        "compute_entropies": (inf.compute_entropies, xy, {"bins": 3}),
        "mutual_info": (inf.mutual_info, xy, {"bins": 3}),
        "var_info": (inf.var_info, xy, {"bins": 3}),
        "kl_divergence_xy": (inf.kl_divergence_xy, xy, {"bins": 3}),
        "get_info_distance_matrix": (dm.get_info_distance_matrix, {"X": ("2d", MAT)}, {}),
        "get_corr_distance_matrix": (dm.get_corr_distance_matrix, {"X": ("2d", MAT)}, {}),
        "corr_to_dist": (dm.corr_to_dist, {"corr": ("2d", EYE3)}, {}),
        "gap_statistic": (metrics.gap_statistic, {"dist": ("2d", DIST), "labels": ("1d", LABELS)}, {"nb": 2, "random_state": 1}),
        "silhouette_tstat": (metrics.silhouette_tstat, {"dist": ("2d", DIST), "labels": ("1d", LABELS)}, {}),
    }


def bad_like(kind, v):
    """values of the wrong kind that carry the very data of a valid argument"""
    if kind == "1d":
        return [("list", list(v)), ("tuple", tuple(v)), ("column", v.reshape(-1, 1)), ("row", v.reshape(1, -1)), ("index", pd.Index(v)),
                ("frame", pd.DataFrame({"a": v})), ("dict", dict(enumerate(v))), ("0-d", np.array(1.0)), ("one element", v[:1]),
                ("series of one", pd.Series(v[:1])), ("empty", v[:0]), ("scalar", 1.0), ("3-d", v.reshape(-1, 1, 1))]
    return [("list", v.tolist()), ("tuple", tuple(map(tuple, v))), ("rows", list(v)), ("1-d", v[:, 0]), ("series", pd.Series(v[:, 0])),
            ("one column", v[:, :1]), ("frame of one column", pd.DataFrame(v[:, :1])), ("1x1", v[:1, :1]), ("frame 1x1", pd.DataFrame(v[:1, :1])),
            ("3-d", v[None]), ("3-d b", v[:, :, None]), ("dict", dict(enumerate(v.T))), ("scalar", 1.0), ("no columns", v[:, :0])]


def good_like(kind, v):
    if kind == "1d":
        return [("array", v), ("series", pd.Series(v)), ("labelled series", pd.Series(v, index=[3] * len(v), name="s")), ("strided", np.repeat(v, 2)[::2]),
                ("array subclass", v.view(ArraySub)), ("series subclass", SeriesSub(v))]
    return [("array", v), ("frame", pd.DataFrame(v)), ("labelled frame", pd.DataFrame(v, columns=list("abcd")[:v.shape[1]])),
            ("fortran", np.asfortranarray(v)), ("frame subclass", FrameSub(v))]


def run_library(case, ctx):
    f, args, rest = library()[case["f"]]
    names = list(args)
    goods = [good_like(*args[n]) for n in names]
    bads = [bad_like(*args[n]) for n in names]
    for combo in product(*goods):
        for sid, pos, kw in styles(names, [c[1] for c in combo]):
            ctx.step()
            try:
                f(*pos, **kw, **rest)
            except Exception as e:  # noqa
                ctx.fail("rejects-valid", f"{case['f']}({[c[0] for c in combo]}), {len(pos)} positional: {type(e).__name__}: {e}")
        ctx.trace()
        ctx.state(case["f"], tuple(c[0] for c in combo))
    for i in range(len(names)):
        for other in product(*[goods[j] if j != i else bads[i] for j in range(len(names))]):
            for sid, pos, kw in styles(names, [c[1] for c in other]):
                ctx.step()
                try:
                    r = f(*pos, **kw, **rest)
                except Exception:
                    ctx.outcome("rejected")
                    continue
                ctx.fail("accepts-invalid", f"{case['f']}({[c[0] for c in other]}), {len(pos)} positional returned {r!r:.200}")
            ctx.trace()
            ctx.state(case["f"], tuple(c[0] for c in other))


# ---------------------------------------------------------------- splitters
def containers(g):
    g = np.asarray(g)
    dates = DATES[0] + pd.to_timedelta(g, unit="D")
    return {"array": g, "float array": g.astype(float), "series": pd.Series(g, index=np.arange(len(g))[::-1]),
            "date series": pd.Series(dates), "dates": pd.DatetimeIndex(dates)}


def x_good():
    return {"array": np.zeros((N, 2)), "frame": pd.DataFrame(np.zeros((N, 2)), index=DATES)}


def settings(kind):
    """parameter -> (good values, bad values)"""
    sp = {"X": (list(x_good().items()), [("list", [[0.0, 0.0]] * N), ("series", pd.Series(np.zeros(N))), ("None", None), ("str", "x" * N), ("index", DATES), ("dict", {"a": [0] * N})]),
          "y": ([("None", None), ("array", np.zeros(N)), ("series", pd.Series(np.zeros(N)))],
                [("list", [0] * N), ("tuple", (0,) * N), ("frame", pd.DataFrame({"y": np.zeros(N)})), ("str", "y"), ("scalar", 1.0), ("index", DATES)])}
    g = containers(np.arange(N))
    up = np.arange(N)
    swapped = up.copy()
    swapped[[3, 4]] = swapped[[4, 3]]
    wrong = [("list", list(range(N))), ("tuple", tuple(range(N))), ("str", "g" * N), ("scalar", 3), ("frame", pd.DataFrame({"g": up})), ("index", pd.Index(up)),
             ("dict", dict(enumerate(up))), ("timedeltas", pd.to_timedelta(up, unit="D")), ("list of dates", list(DATES))]
    for tag, seq in (("descending", up[::-1].copy()), ("swapped", swapped), ("last first", np.r_[N, up[:-1]]), ("last low", np.r_[up[1:], 0])):
        wrong += [(tag + " " + k, v) for k, v in containers(seq).items()]
    for tag, seq in (("short", up[:-1]), ("long", np.arange(N + 1))):
        wrong += [(tag + " " + k, v) for k, v in containers(seq).items()]
    sp["groups"] = ([("None", None)] + list(g.items()), wrong)
    no_int = [("half", 0.5), ("str", "1"), ("None", None), ("list", [1]), ("nan", float("nan")), ("float", 1.0)]
    neg = [("-1", -1), ("-5", -5), ("numpy -1", np.int64(-1)), ("negative timedelta", pd.Timedelta(-1, "D")), ("tiny negative timedelta", pd.Timedelta(-1, "ns"))]
    if kind == "kfold":
        sp["n_folds"] = ([("2", 2), ("numpy 3", np.int64(3)), ("5", 5)],
                         [(str(v), v) for v in (1, 0, -1, -2)] + [("numpy 1", np.int32(1)), ("2.0", 2.0), ("numpy 3.0", np.float64(3.0)), ("2.5", 2.5), ("str", "2"), ("None", None), ("more than samples", N + 1), ("many", 1000)])
        too_large = [("all samples", N), ("more than samples", N + 5), ("most", N - 1)]
        sp["n_embargo"] = ([("0", 0), ("numpy 1", np.int16(1))], no_int + neg + too_large)
        sp["n_purge"] = ([("1", 1), ("0", 0)], no_int + neg + too_large)
        sp["look_forward"] = ([("False", False), ("True", True)], [])
    else:
        sp["n_embargo"] = ([("0", 0), ("numpy 1", np.int16(1))], no_int + neg)
        sp["n_purge"] = ([("0", 0), ("1", 1)], no_int + neg)
        sp["train_window"] = ([("2", 2), ("numpy 5", np.int64(5))], [("0", 0), ("-1", -1), ("-3", -3), ("all data", N), ("beyond", N + 7), ("half", 0.5), ("None", None), ("str", "2 x")])
        sp["test_window"] = ([("1", 1), ("3", 3)], [("0", 0), ("-1", -1), ("-3", -3), ("half", 0.5), ("None", None), ("str", "1 x")])
        sp["split_type"] = ([("expanding", "expanding"), ("rolling", "rolling")], [("Expanding", "Expanding"), ("empty", ""), ("None", None), ("roll", "roll"), ("int", 1), ("sliding", "sliding")])
    return sp


def first_split(kind, row, freq):
    cls = TimeAwareKFold if kind == "kfold" else WalkForward
    kw = {k: v for k, v in row.items() if k not in ("X", "y", "groups")}
    cv = cls(**kw, freq=freq)
    it = iter(cv.split(row["X"], row["y"], row["groups"]))
    tr, te = next(it)
    return np.asarray(tr), np.asarray(te)


def run_splitter(case, ctx):
    kind, bad_name = case["kind"], case["bad"]
    sp = settings(kind)
    names = list(sp)
    menus = [sp[n][0] if n != bad_name else sp[n][1] for n in names]
    for pick in product(*menus):
        row = {n: p[1] for n, p in zip(names, pick)}
        tags = {n: p[0] for n, p in zip(names, pick)}
        dated = tags["groups"] in ("dates", "date series") or tags["groups"].endswith((" dates", " date series")) or tags["groups"] == "list of dates"
        freq = "D" if dated else None
        if kind == "walk" and bad_name not in ("X", "y", "groups") and not dated and isinstance(row["train_window"], str):
            pass
        ctx.step()
        label = f"{kind} {tags} freq={freq}"
        ctx.state(kind, tuple(tags.values()))
        ctx.trace()
        try:
            tr, te = first_split(kind, row, freq)
        except StopIteration:
            ctx.fail("no-result", f"{label}: no split and no error")
            continue
        except Exception as e:  # noqa
            if bad_name is None:
                ctx.fail("rejects-valid", f"{label}: {type(e).__name__}: {e}")
            else:
                ctx.outcome("rejected")
            continue
        if bad_name is not None:
            ctx.fail("accepts-invalid", f"{label}: first split {tr.tolist()} / {te.tolist()}")
        elif not len(tr) or not len(te):
            ctx.fail("empty", f"{label}: {tr.tolist()} / {te.tolist()}")
        if len(ctx.fails) > 10:
            return


def run_groups(case, ctx):
    n = case["n"]
    X = np.zeros((n, 1))
    for seq in product((0, 1, 2), repeat=n):
        if seq[0] != case["g0"] or seq[1] != case["g1"]:
            continue
        up = all(a <= b for a, b in zip(seq, seq[1:]))
        for name, g in containers(seq).items():
            freq = "D" if "date" in name else None
            for kind in ("kfold", "walk"):
                row = {"X": X, "y": None, "groups": g, "n_embargo": 0, "n_purge": 0}
                row.update({"n_folds": 2} if kind == "kfold" else {"train_window": 1, "test_window": 1})
                ctx.step()
                ctx.state(kind, name, seq)
                ctx.trace()
                try:
                    first_split(kind, row, freq)
                    ok = True
                except Exception:
                    ok = False
                if ok and not up:
                    ctx.fail("accepts-unsorted", f"{kind} accepts groups {seq} as {name}")
                if not ok and up and len(set(seq)) > 1 and kind == "walk":
                    ctx.fail("rejects-sorted", f"{kind} rejects groups {seq} as {name}")
                if not ok and up and kind == "kfold" and seq[n // 2 - 1] != seq[n // 2]:
                    ctx.fail("rejects-sorted", f"{kind} rejects groups {seq} as {name}")


def cases(tier):
    for r in range(1, 4):
        for guard in combinations("abc", r):
            for t in ("1d", "2d"):
                yield {"t": t, "guard": list(guard), "tier": tier}
    for f in library():
        yield {"t": "lib", "f": f}
    for kind in ("kfold", "walk"):
        for bad in [None] + list(settings(kind)):
            if bad is None or settings(kind)[bad][1]:
                yield {"t": "split", "kind": kind, "bad": bad}
    for a, b in product(range(3), repeat=2):
        yield {"t": "groups", "n": 6 if tier == "quick" else 8, "g0": a, "g1": b}


def run(case, ctx):
    ctx.sample({"case": case})
    if case["t"] in ("1d", "2d"):
        run_decorator(case, ctx)
    elif case["t"] == "lib":
        run_library(case, ctx)
    elif case["t"] == "split":
        run_splitter(case, ctx)
    else:
        run_groups(case, ctx)
