"""S07: step sizes and frequency detection."""
from itertools import product

import numpy as np
import pandas as pd

from mc import simlib as sl
from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration

ID = "S07"
ASSUMPTIONS = [
    "the step size in force is read off the numbers: the path must equal the path of an explicit step size",
    "calendars have at least 3 dates when complete and 6 when a date is missing (16 for business days, of which fewer cannot be told from a "
    "daily calendar with two gaps)",
    "detection reports month/quarter/year calendars by the calendar boundary they sit on (month-end dates of a quarter "
    "anchored elsewhere than on calendar quarters are month-end dates, which is what the implementation reports)",
]
DUR = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "ME": 1 / 12, "MS": 1 / 12, "M": 1 / 12, "Q": 0.25, "QE": 0.25, "QS": 0.25,
       "Y": 1.0, "YE": 1.0, "YS": 1.0}
DAYS = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"]
MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]


def codes():
    out = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "ME": 1 / 12, "MS": 1 / 12}
    for d in DAYS:
        out["W-" + d] = 7 / 365
    for q in ("QE", "QS"):
        out[q] = 0.25
        for m in MONTHS:
            out[f"{q}-{m}"] = 0.25
    for y in ("YE", "YS"):
        out[y] = 1.0
        for m in MONTHS:
            out[f"{y}-{m}"] = 1.0
    return out


CODES = codes()


def BOUNDS(tier):
    return (f"all {len(CODES)} pandas frequency codes with anchors x phases (start dates over 62 days, 400 for months and longer, or 800) x lengths "
            "from 3 (business days 16) up complete, from 6 (16) up with any one date missing, for detection; all codes for label, fit and likelihood step sizes x explicit/missing dt x fitted or not x "
            "containers x 3 models")


def cases(tier):
    for code in CODES:
        for n in ((3, 4, 5, 6, 7, 8, 9, 11, 14, 16, 20, 41) if tier == "quick" else list(range(3, 24)) + [41, 80, 150]):
            if code == "B" and n < 16:
                continue
            yield {"t": "detect", "code": code, "n": n, "tier": tier}
        yield {"t": "dt", "code": code}
    yield {"t": "duration"}
    yield {"t": "none"}


def expected(code):
    base, _, anchor = code.partition("-")
    if base in ("D", "B", "W", "ME", "MS"):
        return base
    if base in ("QE", "YE"):
        if base == "YE" and anchor in ("", "DEC"):
            return "YE"
        if base == "YE" and anchor in ("MAR", "JUN", "SEP"):
            return "QE"      # quarter-end dates a year apart
        if base == "QE" and anchor in ("", "MAR", "JUN", "SEP", "DEC"):
            return "QE"
        return "ME"
    if base == "YS" and anchor in ("", "JAN"):
        return "YS"
    if base == "YS" and anchor in ("APR", "JUL", "OCT"):
        return "QS"
    if base == "QS" and anchor in ("", "JAN", "APR", "JUL", "OCT"):
        return "QS"
    return "MS"


def twin(idx, base):
    """Irregular dates with the first and last date and the length of idx."""
    n = len(idx)
    if n < 6 or base == "D":
        return None
    span = (idx[-1] - idx[0]).days
    if base == "B":
        two = span - (n - 1)
        if not 4 <= two <= n - 5:
            return None
        d = np.cumsum([0] + [2] * two + [1] * (n - 1 - two))
    else:
        d = np.round(span * (np.arange(n) / (n - 1)) ** 1.5).astype(int)
    return idx[0] + pd.to_timedelta(d, unit="D")


def run(case, ctx):
    if case["t"] == "detect":
        code, n = case["code"], case["n"]
        base, _, anchor = code.partition("-")
        # off-calendar anchors are outside the claim
        regular = expected(code) == base
        days = 800 if case["tier"] != "quick" else 62 if base in "DBW" else 400
        seen = set()
        for off in range(days):
            idx = pd.date_range(pd.Timestamp("1999-11-20") + pd.Timedelta(days=off), periods=n, freq=code)
            if idx[0] in seen:
                continue
            seen.add(idx[0])
            if not regular:
                ctx.outcome("off-calendar-anchor")
                continue
            # day-of-month effects: daily data is 'D' unless too short to tell from month ends
            objs = [idx, pd.Series(np.arange(n), index=idx), pd.DataFrame({"a": np.arange(n)}, index=idx),
                    idx + pd.Timedelta(0)]
            for o in objs:
                got = time_series_freq(o)
                ctx.step()
                if got != base:
                    ctx.fail("detect", f"{code} from {idx[0].date()} n={n} ({type(o).__name__}): got {got}, expected {base}")
            t = twin(idx, base)
            if t is not None:  # what was detected before for dates with the same ends and length does not matter
                ctx.step()
                if time_series_freq(t) is not None:
                    ctx.fail("history", f"irregular dates {t[:6].date.tolist()}... judged {time_series_freq(t)} after {code} n={n}")
                if time_series_freq(idx) != base:
                    ctx.fail("history", f"{code} from {idx[0].date()} n={n} after irregular dates: got {time_series_freq(idx)}")
            if n > 5 and n < 41 and (base not in "DB" or off % 4 == 0) or n > 5 and (off % 31 == 0 or case["tier"] != "quick"):  # one date missing, anywhere
                for j in range(1, n - 1):
                    got = time_series_freq(idx.delete(j))
                    ctx.step()
                    if got != base:
                        ctx.fail("detect-gap", f"{code} from {idx[0].date()} n={n} without {idx[j].date()}: got {got}")
            if code in ("D", "B", "ME", "QE", "W") and time_series_freq(objs[1]) is not None:
                d = time_series_freq_to_duration(time_series_freq(objs[1]))
                if not np.isclose(d, CODES[code]):
                    ctx.fail("duration", f"{code}: {d}")
            ctx.state("detect", code, n, off)
            ctx.trace()
        return
    if case["t"] == "duration":
        for c, d in list(CODES.items()) + list(DUR.items()):
            got = time_series_freq_to_duration(c)
            ctx.step()
            ctx.state("dur", c)
            if got is None or not np.isclose(got, d, rtol=1e-12):
                ctx.fail("duration", f"{c}: {got}, expected {d}")
        for c in ("XYZ", "", "d", "QQ", "5", "DE", "WW", "MEE", "S", "E", "2D", "2W", "3ME", "12ME", "2QE-DEC", "-1D", "D2", "W2", "5B"):
            if time_series_freq_to_duration(c) is not None:
                ctx.fail("duration", f"unknown code {c!r} has a duration")
            ctx.step()
        ctx.trace()
        return
    if case["t"] == "none":
        d = pd.date_range("2020-01-01", periods=5)
        objs = [np.arange(10), [1, 2, 3], None, "x", pd.Series(np.arange(30)), pd.DataFrame({"a": np.arange(30)}),
                d[:0], d[:1], d[:2], pd.DatetimeIndex(["2020-01-03", "2020-01-10", "2020-02-19"]), d[[0, 2, 4]],
                pd.date_range("2020-01-06", periods=3, freq="5D"), pd.date_range("2020-01-06", periods=3, freq="h"), pd.Series(np.arange(30), index=np.arange(30) * 86400),
                pd.DatetimeIndex(["2020-01-03", "2020-01-10", "2020-02-19", "2020-03-02", "2020-05-06", "2020-08-12",
                                  "2020-08-14", "2020-12-22"]),
                pd.date_range("2020-01-06", periods=30, freq="14D"), pd.date_range("2020-01-06", periods=30, freq="5D"),
                pd.date_range("2020-01-06", periods=60, freq="2D")]
        for o in objs:
            g = time_series_freq(o)
            ctx.step()
            if g is not None:
                ctx.fail("none", f"{type(o).__name__} {o if not hasattr(o, 'shape') else ''}: {g}")
            ctx.state("none", str(o)[:40])
        ctx.trace()
        return
    code, d = case["code"], CODES[case["code"]]
    for k in sl.CLS:
        p = {"drift": 0.3, "vol": 0.4, "mrr": 2.0}
        ref = sl.make(k, p)

        def sample(m, **kw):
            ctx.step()
            return np.asarray(m.path_sample(x0=5.0, num_steps=6, random_state=2, **kw), float).reshape(7, -1)

        def must(what, got, m, dt):
            ctx.trace()
            ctx.state(k, code, what)
            want = sample(m, dt=dt)
            if not sl.close(got, want):
                ctx.fail("dt", f"{k} {code}: {what} does not use step size {dt}")

        must("label_freq", sample(ref, label_start="2020-01-01", label_freq=code), ref, d)
        must("label_freq and dt", sample(ref, label_start="2020-01-01", label_freq=code, dt=0.07), ref, 0.07)
        must("nothing", sample(ref), ref, 1 / 252)
        for un in ("h", "min", "7D", "2W", "SME", "QE-FEB" if code == "D" else "2ME"):
            if time_series_freq_to_duration(un) is None:   # labels of a frequency without known duration do not set the step size
                must(f"label_freq {un}", sample(ref, label_start="2020-01-01", label_freq=un), ref, 1 / 252)
        # fit: the step size shows in the parameters and in later samples
        x = sl.build(k, sl.std_noise(24, 1)[:, None, :], [5.0], p, 0.25)
        for cont in ("srd", "dfd"):
            X = sl.contain(x, cont, freq=code)
            for explicit in (None, 0.11, 3.0):
                m = sl.CLS[k]()
                m.fit(X, dt=explicit)
                dt = d if explicit is None else explicit
                m2 = sl.CLS[k]()
                m2.fit(x, dt=dt)
                ctx.step(2)
                q = {"drift": m2.mean if k == "ou" else m2.drift, "vol": m2.vol, "mrr": getattr(m2, "mrr", None)}
                bad = sl.params_close(k, m, q, 1)
                if bad:
                    ctx.fail("fit-dt", f"{k} {code} {cont} dt={explicit}: {bad}")
                must(f"fit {cont} {explicit}", sample(m), m, dt)
                must(f"fit {cont} {explicit} label", sample(m, label_freq="ME"), m, 1 / 12)
                must(f"fit {cont} {explicit} hourly label", sample(m, label_freq="h"), m, dt)
                must(f"fit {cont} {explicit} label start", sample(m, label_start="2020-01-05"), m, dt)
                must(f"fit {cont} {explicit} dt", sample(m, dt=0.4), m, 0.4)
                must(f"fit {cont} {explicit} dt label", sample(m, dt=0.4, label_freq="W"), m, 0.4)
                for f in ("nll", "aic", "bic"):
                    a = getattr(m, f)(X, explicit) if explicit is not None else getattr(m, f)(X)
                    b = getattr(m, f)(x, dt)
                    c = getattr(m, f)(X, 0.9)
                    e = getattr(m, f)(x, 0.9)
                    ctx.step(4)
                    if not np.isclose(a, b, rtol=1e-9) or not np.isclose(c, e, rtol=1e-9):
                        ctx.fail("nll-dt", f"{k} {code} {f} dt={explicit}: {a} expected {b}; {c} expected {e}")
        for cont in ("nd", "df", "sr"):
            m, m2 = sl.CLS[k](), sl.CLS[k]()
            m.fit(sl.contain(x, cont))
            m2.fit(x, dt=1 / 252)
            q = {"drift": m2.mean if k == "ou" else m2.drift, "vol": m2.vol, "mrr": getattr(m2, "mrr", None)}
            bad = sl.params_close(k, m, q, 1)
            if bad:
                ctx.fail("fit-dt", f"{k} {cont} without dates: {bad}")
            must(f"fit {cont}", sample(m), m, 1 / 252)
            m.fit(sl.contain(x, cont), dt=0.6)
            must(f"fit {cont} 0.6", sample(m), m, 0.6)
            must(f"fit {cont} 0.6 hourly label", sample(m, label_start="2020-01-01", label_freq="h"), m, 0.6)
            m.fit(sl.contain(x, cont))
            must(f"fit {cont} label", sample(m, label_start="2020-01-01", label_freq=code), m, d)
            if not np.isclose(m.nll(sl.contain(x, cont)), m.nll(x, 1 / 252)):
                ctx.fail("nll-dt", f"{k} {cont}: default step size")
            ctx.step(4)
    ctx.sample(case)
