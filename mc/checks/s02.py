"""S02: labels and containers never change the simulated numbers."""
from itertools import product

import numpy as np
import pandas as pd

from mc import simlib as sl
from quantfinlib.sim import QuasiRandom, BrownianMotion

ID = "S02"
ASSUMPTIONS = [
    "a label start needs a label frequency (given or known from the fit), as the implementation insists",
    "fitted date indexes are increasing",
    "the expected index is pandas.date_range(start, freq) with the name of the fitted index",
]
FREQS = ["D", "B", "W", "W-WED", "ME", "MS", "QE", "QS", "YE", "YS"]
STARTS = ["2020-01-01", "2024-02-29", "2021-05-15"]
FITS = ["none", "nd", "nd1", "df", "dfd", "sr", "srd", "sr_noname", "df_multi_noindexname"]


def BOUNDS(tier):
    return ("3 models + quasi-random x fitted containers (none, array, 1-D array, frame, series, with/without dates) x "
            "variates 1..3 x paths 1..3 and 12 (past the first two-digit path number; 11 and 23 too when thorough) x steps {1,4} x label start x label frequency x column names x start row "
            "kept/dropped x start value default/explicit/first/last x fitted frequencies; and 7 families of unusual labels (repeated, integer, "
            "empty, tuple and mixed column names, timed and zoned starts, index names that are not text, sub-daily and multiple-day frequencies, 420 steps)")


def cases(tier):
    kinds = ["bm", "gbm", "ou", "qr"]
    ffreq = ["D", "B", "ME"] if tier == "quick" else FREQS
    for k in kinds:
        for fit in FITS:
            if k == "qr" and fit != "none":
                continue
            for V in (1, 2, 3):
                if fit in ("nd1", "sr", "srd", "sr_noname") and V > 1:
                    continue
                for P in ((1, 2, 3, 12) if tier == "quick" else (1, 2, 3, 4, 11, 12, 23)):
                    for ff in (ffreq if fit in ("dfd", "srd") else ["-"]):
                        yield {"k": k, "fit": fit, "V": V, "P": P, "ff": ff, "tier": tier}
    # unusual labels: column names that repeat, are integers, tuples or empty; zoned or timed starts; names of the index that are not text; long runs
    for k in kinds[:3]:
        for fit in ("none", "df", "dfd", "srd"):
            for V in (1,) if fit == "srd" else (2, 3):
                for odd in range(len(ODD_COLUMNS)):
                    yield {"k": k, "fit": fit, "V": V, "P": 1 + odd % 3, "ff": "D" if fit in ("dfd", "srd") else "-", "tier": tier, "odd": odd}
            yield {"k": k, "fit": fit, "V": 1, "P": 2, "ff": "D" if fit in ("dfd", "srd") else "-", "tier": tier, "odd": 0, "N": 420}


ODD_COLUMNS = [["x", "x", "x"], [0, 1, 2], [2, 1, 0], ["", "b", ""], [("a", 1), ("a", 2), ("b", 1)], ["b", "a", "b"], [1.5, "1.5", None]]
ODD_START = ["2021-03-01 13:45", pd.Timestamp("2021-03-27 22:30", tz="Europe/Amsterdam"), "2021-03-01", pd.Timestamp("1969-12-30 00:00:01"),
             pd.Timestamp("2260-01-01"), pd.Timestamp("2021-11-06", tz="America/New_York"), "2021-03-01 00:00:00.000001"]
ODD_INAME = [0, ("a", "b"), None, "", 1.5, False, "date"]
ODD_FREQS = ["D", "h", "15min", "B", "2D", "ME", "W-WED", "-1D"]


def ind(x):
    return np.cumsum(np.sin(np.arange(len(x)) * 1.3)) + 0.1 * x


def same(a, b):
    return a == b or (a is None or a != a) and (b is None or b != b)


def run(case, ctx):
    k, fit, V, P, ff = case["k"], case["fit"], case["V"], case["P"], case["ff"]
    odd = case.get("odd")
    cor = sl.cors(V)[-1]
    p = {"drift": [0.3, -0.1, 0.2][:V], "vol": [0.2, 0.4, 0.1][:V], "mrr": [1.5, 0.4, 6.0][:V], "cor": cor}
    iname, fcols, fmin, fmax, ffreq_ = None, None, None, None, None
    if k == "qr":
        model = QuasiRandom(ind, 0.2, BrownianMotion(drift=p["drift"], vol=p["vol"], cor=cor))
    else:
        model = sl.make(k, p)
    fitted = fit != "none"
    dateidx = fit in ("dfd", "srd")
    if fitted:
        z = sl.std_noise(14, V, cor)[:, None, :]
        data = sl.build(k, z, [5.0, 7.0, 2.0][:V], p, 1 / 12)
        cont = fit if fit in sl.CONTAINERS else {"sr_noname": "sr", "df_multi_noindexname": "dfd"}[fit]
        dateidx = cont in ("dfd", "srd")
        if odd is None:
            x = sl.contain(data, cont, freq=ff if ff != "-" else "D", name=None if fit == "sr_noname" else "px",
                           iname=None if fit == "df_multi_noindexname" else "date")
        else:
            x = sl.contain(data, cont, freq=ODD_FREQS[(odd + V) % 7], start=ODD_START[odd] if odd != 4 else "2021-03-01",
                           name=ODD_COLUMNS[odd][1], iname=ODD_INAME[odd])
            if cont in ("df", "dfd"):
                x.columns = pd.Index(ODD_COLUMNS[odd][:V], tupleize_cols=odd % 2 == 0)
        if dateidx:
            iname, fmin, fmax = x.index.name, x.index[0], x.index[-1]
            ffreq_ = x.index.inferred_freq
        fcols = list(x.columns) if isinstance(x, pd.DataFrame) else [x.name] if isinstance(x, pd.Series) else None
        model.fit(x, dt=1 / 12)
        ctx.step()
    is_series_fit = fit in ("sr", "srd", "sr_noname")
    steps = (case["N"],) if "N" in case else (5,) if k == "qr" else (1, 4)
    ex = 4.0
    for N, x0 in product(steps, (None, ex, "first", "last") if fitted else (None, ex)):
        # the numbers: same model parameters, never fitted, no labels at all
        if k == "qr":
            plain = QuasiRandom(ind, 0.2, BrownianMotion(drift=p["drift"], vol=p["vol"], cor=cor))
            xs = 0.0 if x0 is None else x0
        else:
            q = {"drift": np.array(model.mean if k == "ou" else model.drift), "vol": np.array(model.vol),
                 "cor": None if model.cor is None else np.array(model.cor)}
            if k == "ou":
                q["mrr"] = np.array(model.mrr)
            plain = sl.make(k, q)
            xs = x0
            if x0 is None:
                xs = (data[0] if fitted else (100.0 if k == "gbm" else 0.0))
            elif x0 == "first":
                xs = data[0]
            elif x0 == "last":
                xs = data[-1]
        ref = plain.path_sample(x0=xs, dt=0.05, num_steps=N, num_paths=P, random_state=5)
        if not isinstance(ref, np.ndarray) or ref.shape != (N + 1, V * P):
            ctx.fail("plain", f"unlabelled sample of an unfitted model is {type(ref)} {getattr(ref, 'shape', None)}")
            return
        ctx.step()
        colsets = [None, ["a", "b", "c"][:V]]
        freqs, starts = [None] + FREQS, [None] + STARTS
        if odd is not None:
            colsets = [None, ODD_COLUMNS[odd][:V], ODD_COLUMNS[(odd + 2) % 7][:V]]
            freqs, starts = [None] + ODD_FREQS, [None] + ODD_START
            if N > 100:
                freqs, starts = [None, "D", "-1D", "B"], [None] + ODD_START[:4] + ODD_START[5:]
        for lf, ls, cols, inc in product(freqs, starts, colsets, (True, False)):
            if lf is None and ls is not None and not dateidx:
                continue
            if lf is not None and ls is None and not dateidx:
                continue
            if odd is None and (lf not in (None, "D", "ME") or x0 in ("first",)) and (N == 1 or cols is None) and case["tier"] == "quick":
                continue
            tag = f"{case} steps={N} x0={x0} label_start={ls} label_freq={lf} columns={cols} include_x0={inc}"
            start = ls if ls is None or odd is not None or (len(lf or '') + N) % 2 else pd.Timestamp(ls)
            got = model.path_sample(x0=x0, dt=0.05, num_steps=N, num_paths=P, random_state=5, label_start=start,
                                    label_freq=lf, columns=cols, include_x0=inc)
            ctx.step()
            ctx.trace()
            lo = 0 if inc else 1
            want = ref[lo:]
            need_idx = dateidx or ls is not None or lf is not None
            need_pd = need_idx or cols is not None or fit in ("df", "dfd", "sr", "srd", "sr_noname",
                                                              "df_multi_noindexname")
            if not need_pd:
                if not isinstance(got, np.ndarray) or not sl.close(got, want):
                    ctx.fail("array", f"{tag}: {type(got).__name__} {np.asarray(got).tolist()} expected {want.tolist()}")
                continue
            base = cols or fcols or (["S"] if V == 1 else [f"S{i}" for i in range(V)])
            names = base if P == 1 else [f"{c}_{i}" for i in range(P) for c in base]
            series = V * P == 1 and (not fitted or is_series_fit)
            if series:
                if not isinstance(got, pd.Series) or not same(got.name, names[0]) or got.ndim != 1:
                    ctx.fail("container", f"{tag}: expected a Series named {names[0]}, got {type(got).__name__} "
                                          f"{getattr(got, 'name', '')}")
                    continue
                vals = got.to_numpy().reshape(-1, 1)
            else:
                if not isinstance(got, pd.DataFrame) or len(got.columns) != len(names) or not all(map(same, got.columns, names)):
                    ctx.fail("container", f"{tag}: expected a frame with columns {names}, got {type(got).__name__} "
                                          f"{list(getattr(got, 'columns', []))}")
                    continue
                vals = got.to_numpy()
            if not sl.close(vals, want):
                ctx.fail("numbers", f"{tag}: {vals.tolist()} expected {want.tolist()}")
            if need_idx:
                st = ls if ls is not None else (fmax if x0 == "last" else fmin)
                idx = pd.date_range(st, periods=N + 1, freq=lf if lf is not None else ffreq_)[lo:]
                if not isinstance(got.index, pd.DatetimeIndex) or not got.index.equals(idx):
                    ctx.fail("index", f"{tag}: index {list(got.index)[:3]} expected {list(idx)[:3]}")
                elif got.index.name != iname:
                    ctx.fail("index-name", f"{tag}: index name {got.index.name} expected {iname}")
            ctx.state(k, fit, V, P, ff, N, str(x0), lf, ls, bool(cols), inc)
    ctx.sample(case)
