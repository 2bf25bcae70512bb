"""R01: dataset loaders over histories of load, mutate, remove and restore events."""
import csv
import gzip
import io
import math
import os
import shutil
import sys
import tempfile
from itertools import product

import numpy as np
import pandas as pd

from mc.core import REPO

ID = "R01"
CASE_LIMIT = 280
CHUNK = 1
ASSUMPTIONS = ["histories run on a scratch copy of the package whose data files are shortened (first 40 and last 20 rows of the bundled "
               "files), so that removing a file touches nothing real; the full bundled files are compared cell by cell",
               "'missing file' is reported by FileNotFoundError"]
FILES = {"vix": ("load_vix", "vix_ohlc.csv.gz"), "rates": ("load_treasury_rates", "daily_treasury_rates.csv.gz"),
         "equity": ("load_equity_indices", "multi_index_close.csv.gz")}
COLS = {"vix": ["OPEN", "HIGH", "LOW", "CLOSE"],
        "rates": ["1m", "2m", "3m", "4m", "6m", "1y", "2y", "3y", "5y", "7y", "10y", "20y", "30y"],
        "equity": ["GSPC", "IXIC", "DJI", "NYA", "XAX", "BUK100P", "RUT", "VIX", "GDAXI", "FCHI", "STOXX50E", "N100", "BFX", "IMOEX.ME",
                   "N225", "HSI", "000001.SS", "399001.SZ", "AXJO", "AORD", "BSESN", "JKSE", "NZ50", "KS11", "TWII", "GSPTSE", "BVSP",
                   "MXX", "IPSA", "MERV", "TA125.TA", "CASE30", "JN0U.JO"]}
RES = "quantfinlib/datasets/resources"
MUT = ("values", "columns", "drop", "order")
EV = [("load", f) for f in FILES] + [("remove", f) for f in FILES] + [("restore", f) for f in FILES] + [("mutate", m) for m in MUT]


def BOUNDS(tier):
    return ("the three bundled files cell by cell; all histories of length 1-3 (1-4 in thorough) over load, remove, restore (per dataset) "
            "and 4 mutations of the latest result, closed by loading everything")


def cases(tier):
    yield {"t": "full"}
    for a in range(len(EV)):
        for b in range(len(EV)):
            yield {"t": "hist", "a": a, "b": b, "n": 3 if tier == "quick" else 4}


def parse(raw):
    rows = list(csv.reader(io.StringIO(gzip.decompress(raw).decode("utf-8"))))
    head = rows[0][1:]
    idx, val = [], []
    for r in rows[1:]:
        if not r:
            continue
        idx.append(r[0])
        val.append([math.nan if v.strip() in ("", "NaN", "nan", "N/A", "NA", "null") else float(v) for v in r[1:]])
    return head, pd.to_datetime(idx), np.array(val, float)


def load_copy(root):
    for m in [m for m in sys.modules if m == "quantfinlib" or m.startswith("quantfinlib.")]:
        del sys.modules[m]
    sys.path.insert(0, root)
    try:
        import quantfinlib.datasets as ds
    finally:
        sys.path.remove(root)
    assert os.path.realpath(ds.__file__).startswith(os.path.realpath(root)), ds.__file__
    return ds


def compare(ctx, name, df, want, tag):
    head, idx, val = want
    ctx.trace()
    if not isinstance(df, pd.DataFrame):
        ctx.fail("type", f"{tag}: {name} gives {type(df).__name__}")
        return
    if list(df.columns) != COLS[name]:
        ctx.fail("columns", f"{tag}: {name} columns {list(df.columns)}")
        return
    if not isinstance(df.index, pd.DatetimeIndex) or not df.index.is_monotonic_increasing or not df.index.is_unique:
        ctx.fail("index", f"{tag}: {name} index is not a strictly increasing date index")
        return
    if len(df) != len(idx) or not (df.index == idx).all():
        ctx.fail("rows", f"{tag}: {name} has {len(df)} rows instead of the {len(idx)} of its file")
        return
    g = df.to_numpy(float)
    if g.shape != val.shape or not ((g == val) | (np.isnan(g) & np.isnan(val)) | (np.abs(g - val) <= 1e-12 * np.abs(val))).all():
        bad = np.argwhere(~((g == val) | (np.isnan(g) & np.isnan(val)))) if g.shape == val.shape else []
        ctx.fail("values", f"{tag}: {name} differs from its file at {bad[:3].tolist() if len(bad) else g.shape}")


def shorten(raw):
    lines = gzip.decompress(raw).decode("utf-8").splitlines()
    return gzip.compress(("\n".join(lines[:41] + lines[-20:]) + "\n").encode())


def run(case, ctx):
    root = tempfile.mkdtemp(prefix="mcds", dir=os.environ.get("MC_SCRATCH"))
    try:
        shutil.copytree(os.path.join(REPO, "quantfinlib"), os.path.join(root, "quantfinlib"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        res = os.path.join(root, RES)
        raw = {n: open(os.path.join(res, f), "rb").read() for n, (_, f) in FILES.items()}
        if case["t"] == "full":
            ds = load_copy(root)
            want = {n: parse(raw[n]) for n in FILES}
            for n, (fn, _) in FILES.items():
                for k in range(2):
                    df = getattr(ds, fn)()
                    ctx.step()
                    compare(ctx, n, df, want[n], f"bundled file, load {k + 1}")
                    df.iloc[:, :] = -1.0
                ctx.state("full", n)
            ctx.sample({n: [len(w[1]), len(w[0])] for n, w in want.items()})
            return
        raw = {n: shorten(r) for n, r in raw.items()}
        want = {n: parse(raw[n]) for n in FILES}

        def put(n):
            with open(os.path.join(res, FILES[n][1]), "wb") as fh:
                fh.write(raw[n])

        for tail in [t for m in range(case["n"] - 1) for t in product(range(len(EV)), repeat=m)]:
            hist = [EV[case["a"]], EV[case["b"]]] + [EV[i] for i in tail]
            if case["b"] and not tail and case["n"] == 1:
                continue
            for n in FILES:
                put(n)
            ds = load_copy(root)
            there = dict.fromkeys(FILES, True)
            last = None
            for op, arg in hist + [("load", n) for n in FILES] + [("restore", n) for n in FILES] + [("load", n) for n in FILES]:
                ctx.step()
                if op == "remove":
                    if there[arg]:
                        os.remove(os.path.join(res, FILES[arg][1]))
                    there[arg] = False
                elif op == "restore":
                    put(arg)
                    there[arg] = True
                elif op == "mutate":
                    if last is None or not len(last):
                        continue
                    if arg == "values":
                        last.iloc[:, :] = 0.0
                    elif arg == "columns":
                        last.columns = [f"x{i}" for i in range(last.shape[1])]
                    elif arg == "drop":
                        last.drop(last.index[:5], inplace=True)
                    else:
                        last.sort_index(ascending=False, inplace=True)
                else:
                    try:
                        df = getattr(ds, FILES[arg][0])()
                    except FileNotFoundError:
                        if there[arg]:
                            ctx.fail("missing-reported", f"{hist}: {arg} exists but is reported missing")
                        continue
                    if not there[arg]:
                        ctx.fail("missing-unreported", f"{hist}: {arg} was removed but load returned a frame")
                        continue
                    compare(ctx, arg, df, want[arg], str(hist))
                    last = df
            ctx.state(tuple(hist))
            if len(ctx.fails) > 5:
                return
        ctx.sample({"history": hist})
    finally:
        shutil.rmtree(root, ignore_errors=True)
