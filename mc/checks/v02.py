"""V02: the annotated data types accept exactly the data they describe."""
import itertools
import warnings
from typing import Any, Union

import numpy as np
import pandas as pd
from pydantic import ConfigDict, TypeAdapter, ValidationError, validate_call
from typing_extensions import Annotated

from mc import core

from quantfinlib.train_test_split import _dtypes as dt
from quantfinlib.util import _custom_types as ct

ID = "V02"
TECHNIQUE = "exhaustive enumeration of annotation parameters and values on the real code against the documented acceptance rule"
CASE_LIMIT = 120
ASSUMPTIONS = ["python values are validated; validation of JSON text and the JSON schema are outside",
               "data frames with repeated column names and frame shapes mixing numbers with '*' are outside"]
CFG = ConfigDict(arbitrary_types_allowed=True)
DTYPES = ["int8", "int16", "int64", "uint8", "uint64", "float32", "float64", "bool", "object", "complex128", "M8[ns]"]
SHAPES = [(), (0,), (1,), (2,), (3,), (0, 2), (1, 1), (2, 2), (2, 3), (3, 2), (2, 1, 2)]


def BOUNDS(tier):
    return (f"array annotation: {len(DTYPES)}+1 element types x all shape patterns over {{*,1,2,3}} of 1..3 dimensions (in the quick tier 3 for two element types) x arrays of {len(DTYPES)} element types and {len(SHAPES)} shapes; "
            "series and frame annotations: all element types x lengths x column demands x values; 5 published types x every value, alone, in all unions of two annotations, and "
            "as parameters and results of validated functions")


def arrays():
    for d in DTYPES:
        for s in SHAPES:
            yield f"array {d}{list(s)}", np.zeros(s, dtype=d)


def series():
    for d in DTYPES:
        for n in (0, 1, 2, 3):
            if d == "complex128" and not n:
                continue
            yield f"series {d}[{n}]", pd.Series(np.zeros(n, dtype=d), index=[f"k{i}" for i in range(n)])
    yield "series str", pd.Series(["a", "b"])
    yield "series Int64", pd.Series([1, 2], dtype="Int64")


def frames():
    for cols in ([], ["a"], ["b", "a"], ["a", "b", "c"]):
        for ds in itertools.product(("int64", "float64", "bool"), repeat=len(cols)):
            for n in (0, 2):
                yield f"frame {dict(zip(cols, ds))}[{n}]", pd.DataFrame({c: np.zeros(n, dtype=d) for c, d in zip(cols, ds)}, index=range(5, 5 + n))


def others():
    yield "list", [1, 2]
    yield "tuple", (1.0, 2.0)
    yield "None", None
    yield "int", 3
    yield "float", 2.5
    yield "text", "abc"
    yield "dict", {"a": [1]}
    yield "scalar", np.float64(1.0)
    yield "dates", pd.date_range("2020-01-01", periods=3)
    yield "one date", pd.date_range("2020-01-01", periods=1)
    yield "index", pd.Index([1, 2])
    yield "timestamp", pd.Timestamp("2020-01-01")
    yield "type", np.ndarray


def values():
    return list(itertools.chain(arrays(), series(), frames(), others()))


# ---------------------------------------------------------------- what each annotation says
SAFE = {"bool": ("bool", "int8", "int16", "int64", "uint8", "uint64", "float32", "float64", "complex128", "object", "M8[ns]"),
        "int8": ("int8", "int16", "int64", "float32", "float64", "complex128", "object"),
        "int16": ("int16", "int64", "float32", "float64", "complex128", "object"),
        "int64": ("int64", "float64", "complex128", "object"),
        "uint8": ("uint8", "int16", "int64", "uint64", "float32", "float64", "complex128", "object"),
        "uint64": ("uint64", "float64", "complex128", "object"),
        "float32": ("float32", "float64", "complex128", "object"), "float64": ("float64", "complex128", "object"),
        "complex128": ("complex128", "object"), "object": ("object",), "M8[ns]": ("M8[ns]", "object")}


def fits(frm, to):
    """numpy's table of safe conversions; combinations with dates are left to numpy"""
    if "M8[ns]" in (frm, to):
        return bool(np.can_cast(np.dtype(frm), np.dtype(to)))
    return to in SAFE[frm]


def name_of(d):
    return "M8[ns]" if d == np.dtype("M8[ns]") else str(np.dtype(d))


def array_ok(v, dtype, shape):
    if not isinstance(v, np.ndarray):
        return False
    if dtype is not Any and not fits(name_of(v.dtype), name_of(np.dtype(dtype))):
        return False
    if not isinstance(shape, tuple):
        return True
    if len(shape) != len(v.shape):
        return False
    return all(e == "*" or int(e) == n for n, e in zip(v.shape, shape))


def series_ok(v, dtype, shape, kind=pd.Series):
    if not isinstance(v, kind):
        return False
    if dtype is not None and str(v.dtype) != str(np.dtype(dtype)):
        return False
    return shape == "*" or len(v) == shape


def frame_ok(v, columns, dtype, shape):
    if not isinstance(v, pd.DataFrame):
        return False
    if columns is not None:
        if not all(c in list(v.columns) and str(v[c].dtype) == str(np.dtype(d)) for c, d in columns.items()):
            return False
    elif dtype is not None and not all(str(v[c].dtype) == str(np.dtype(dtype)) for c in v.columns):
        return False
    return shape == "*" or tuple(v.shape) == tuple(shape)


A = ct._CustomNumpyArrayPydanticAnnotation
S = ct._CustomPandasSeriesPydanticAnnotation
F = ct._CustomPandasDataFramePydanticAnnotation
I64, F64, B8 = np.int_, np.float64, np.bool_


def is_y(v):
    return any(array_ok(v, d, ("*",)) or series_ok(v, d, "*") for d in (I64, F64, B8))


PUBLISHED = {"IndexType": lambda v: array_ok(v, I64, ("*",)), "YTypeArray": lambda v: any(array_ok(v, d, ("*",)) for d in (I64, F64, B8)),
             "YTypeSeries": lambda v: any(series_ok(v, d, "*") for d in (I64, F64, B8)), "YType": is_y,
             "GroupType": lambda v: array_ok(v, I64, ("*",)) or series_ok(v, I64, "*") or isinstance(v, pd.DatetimeIndex),
             "BoundPerFoldType": lambda v: array_ok(v, I64, ("*", 2)),
             "XType": lambda v: array_ok(v, Any, ("*", "*")) or isinstance(v, pd.DataFrame)}


def patterns():
    yield "*"
    for n in (1, 2, 3):
        yield from itertools.product(("*", 1, 2, 3), repeat=n)
    yield ("2",)
    yield ("*", "3")


def annotations(kind, tier):
    """(name, type, rule)"""
    if kind == "array":
        for d in [Any] + DTYPES:
            for s in patterns():
                if len(s) == 3 and tier == "quick" and d not in (Any, "int64"):
                    continue
                yield f"array {d} {s}", Annotated[np.ndarray, A(shape=s, dtype=d if d is Any else np.dtype(d))], (lambda v, d=d, s=s: array_ok(v, d, s))
    elif kind == "series":
        for d in [None, "int64", "float64", "bool", "uint8", "float32", "object"]:
            for n in ("*", 0, 1, 2, 3):
                yield f"series {d} {n}", Annotated[pd.Series, S(dtype=d and np.dtype(d), shape=n)], (lambda v, d=d, n=n: series_ok(v, d, n))
        yield "dates", Annotated[pd.DatetimeIndex, S()], lambda v: isinstance(v, pd.DatetimeIndex)
        yield "dates 3", Annotated[pd.DatetimeIndex, S(shape=3)], lambda v: isinstance(v, pd.DatetimeIndex) and len(v) == 3
    else:
        for c in (None, {}, {"a": "int64"}, {"a": "float64"}, {"a": "int64", "b": "float64"}, {"c": "bool"}, {"b": "bool", "a": "bool"}):
            for d in (None, "int64", "float64"):
                for s in ("*", (0, 0), (2, 1), (2, 2), (0, 2), (2, 3)):
                    yield (f"frame {c} {d} {s}", Annotated[pd.DataFrame, F(columns=None if c is None else {k: np.dtype(t) for k, t in c.items()}, dtype=d and np.dtype(d), shape=s)],
                           lambda v, c=c, d=d, s=s: frame_ok(v, c, d, s))


UNIONS = [("array int64 1", Annotated[np.ndarray, A(shape=("*",), dtype=np.int64)], lambda v: array_ok(v, I64, ("*",))),
          ("array any 2", Annotated[np.ndarray, A(shape=("*", "*"), dtype=Any)], lambda v: array_ok(v, Any, ("*", "*"))),
          ("array float 3", Annotated[np.ndarray, A(shape=(3,), dtype=np.float64)], lambda v: array_ok(v, F64, (3,))),
          ("series int", Annotated[pd.Series, S(dtype=np.int64)], lambda v: series_ok(v, I64, "*")),
          ("series 2", Annotated[pd.Series, S(shape=2)], lambda v: series_ok(v, None, 2)),
          ("dates", Annotated[pd.DatetimeIndex, S()], lambda v: isinstance(v, pd.DatetimeIndex)),
          ("frame a", Annotated[pd.DataFrame, F(columns={"a": np.dtype("float64")})], lambda v: frame_ok(v, {"a": "float64"}, None, "*")),
          ("frame bool", Annotated[pd.DataFrame, F(dtype=np.dtype("bool"))], lambda v: frame_ok(v, None, "bool", "*")),
          ("None", None, lambda v: v is None)]


def cases(tier):
    for k in ("array", "series", "frame"):
        n = sum(1 for _ in annotations(k, tier))
        for i in range(0, n, 40):
            yield {"kind": k, "at": i, "tier": tier}
    for n in PUBLISHED:
        yield {"kind": "published", "name": n}
    for i in range(len(UNIONS)):
        yield {"kind": "union", "i": i}
    for x, y in itertools.product(("XType", "YType", "GroupType"), repeat=2):
        yield {"kind": "call", "names": [x, y]}


def judge(ctx, tag, take, v, ok, err=ValidationError):
    ctx.step()
    before = repr(v) if ok else None
    try:
        r, e = take(v), None
    except err as x:
        r, e = None, x
    except Exception as x:  # noqa
        ctx.fail("error", f"{tag}: {type(x).__name__} instead of a validation error: {str(x)[:200]}")
        return
    ctx.outcome("accepted" if e is None else "rejected")
    if ok and e is not None:
        ctx.fail("rejected", f"{tag}: valid value rejected: {str(e)[:300]}")
    elif not ok and e is None:
        ctx.fail("accepted", f"{tag}: invalid value accepted")
    elif e is None and r is not v:
        ctx.fail("changed", f"{tag}: the value came back as another object")
    elif ok and repr(v) != before:
        ctx.fail("changed", f"{tag}: the value was changed")


def run(case, ctx):
    warnings.simplefilter("ignore")
    vs = values()
    k, tier = case["kind"], case.get("tier")
    if k in ("array", "series", "frame"):
        for n, t, rule in itertools.islice(annotations(k, tier), case["at"], case["at"] + 40):
            ad = TypeAdapter(t, config=CFG)
            for vn, v in vs:
                judge(ctx, f"{n} given {vn}", ad.validate_python, v, rule(v))
                ctx.state(n, vn)
            ctx.trace()
            if k == "array":
                for _, v in vs:
                    if rule(v) and v.dtype != np.dtype("M8[ns]") and v.dtype != complex and ad.dump_python(v) != v.tolist():
                        ctx.fail("dump", f"{n}: dumped {ad.dump_python(v)} for {v.tolist()}")
        ctx.sample({"first annotation": next(itertools.islice(annotations(k, tier), case["at"], None))[0]})
        return
    if k == "published":
        n = case["name"]
        for t, pre in ((getattr(dt, n), ""), (Union[getattr(dt, n), None], "optional ")):
            ad = TypeAdapter(t, config=CFG)
            for vn, v in vs:
                judge(ctx, f"{pre}{n} given {vn}", ad.validate_python, v, PUBLISHED[n](v) or (pre and v is None))
                ctx.state(n, pre, vn)
            ctx.trace()
        ctx.sample({"type": n})
        return
    if k == "union":
        n1, t1, r1 = UNIONS[case["i"]]
        for n2, t2, r2 in UNIONS:
            ad = TypeAdapter(Union[t1, t2], config=CFG)
            for vn, v in vs:
                judge(ctx, f"{n1} or {n2} given {vn}", ad.validate_python, v, r1(v) or r2(v))
                ctx.state(n1, n2, vn)
            ctx.trace()
        ctx.sample({"type": n1})
        return
    x, y = case["names"]

    def f(X, Y=None):
        return Y
    f.__annotations__ = {"X": getattr(dt, x), "Y": getattr(dt, y)}
    g = validate_call(f, config=CFG)
    f.__annotations__ = {"X": getattr(dt, x), "Y": Any, "return": getattr(dt, y)}
    h = validate_call(f, config=CFG, validate_return=True)
    good = {"XType": np.zeros((2, 2)), "YType": np.array([1.5, 2.5]), "GroupType": pd.date_range("2020-01-01", periods=2)}
    for vn, v in vs:
        ok = PUBLISHED[y](v)
        for name, take in (("positional", lambda u: g(good[x], u)), ("keyword", lambda u: g(Y=u, X=good[x])), ("result", lambda u: h(good[x], u))):
            judge(ctx, f"{name} {x}, {y} given {vn}", take, v, ok)
            ctx.state(x, y, vn, name)
        judge(ctx, f"first {x}, {y} given {vn}", lambda u: (g(u, good[y]), u)[1], v, PUBLISHED[x](v))
    ctx.trace()
    ctx.sample({"types": [x, y]})
