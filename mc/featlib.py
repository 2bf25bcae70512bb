"""All features of quantfinlib.feature, with direct reference evaluations and their contracts.

Every feature is called through its public name.  A reference takes plain lists and evaluates the definition at each
time on its own (no incremental state); nan marks 'no value'.
"""
import math
from itertools import product

import joblib
import numpy as np
import pandas as pd
from scipy.special import betainc

from quantfinlib.feature import indicators as fi
from quantfinlib.feature import micro_structure as fm
from quantfinlib.feature.structural_breaks.cusumtest import chu_stinchcombe_white_cusum_test

NAN = float("nan")


def isnan(x):
    return x != x


def div(a, b):
    if isnan(a) or isnan(b) or b == 0:
        return NAN
    return a / b


# ---------------------------------------------------------------- building blocks
def win(x, w, f):
    out = []
    for t in range(len(x)):
        s = x[t - w + 1:t + 1] if t >= w - 1 else None
        out.append(NAN if s is None or any(isnan(v) for v in s) else f(s))
    return out


def mean(s):
    return math.fsum(s) / len(s)


def var(s):
    if len(s) < 2:
        return NAN
    m = mean(s)
    return math.fsum((v - m) ** 2 for v in s) / (len(s) - 1)


def sd(s):
    v = var(s)
    return NAN if isnan(v) else math.sqrt(v)


def ewm(x, alpha, min_periods=1):
    out = []
    for t in range(len(x)):
        vals = {v for v in x[:t + 1] if not isnan(v)}
        if len(vals) == 1 and not isnan(x[t]):
            out.append(x[t] if sum(not isnan(v) for v in x[:t + 1]) >= max(1, min_periods) else NAN)
            continue
        num = den = 0.0
        n = 0
        for i in range(t + 1):
            if not isnan(x[t - i]):
                w = (1 - alpha) ** i
                num += w * x[t - i]
                den += w
                n += 1
        out.append(NAN if n < max(1, min_periods) or isnan(x[t]) else num / den)
    return out


def ewmsd(x, alpha):
    out = []
    for t in range(len(x)):
        ws = [(1 - alpha) ** i for i in range(t + 1)]
        xs = [x[t - i] for i in range(t + 1)]
        if t and alpha < 1 and len(set(xs)) == 1:
            out.append(0.0)
            continue
        s1 = math.fsum(ws)
        s2 = math.fsum(w * w for w in ws)
        m = math.fsum(w * v for w, v in zip(ws, xs)) / s1
        d = s1 * s1 - s2
        if t == 0 or d <= 1e-14 * s1 * s1:
            out.append(NAN)
            continue
        v = math.fsum(w * (u - m) ** 2 for w, u in zip(ws, xs)) / s1
        out.append(math.sqrt(v * s1 * s1 / d))
    return out


def diff(x, k=1):
    return [NAN if t < k else x[t] - x[t - k] for t in range(len(x))]


def lag(x, k=1):
    return [NAN if t < k else x[t - k] for t in range(len(x))]


def sp(span):
    return 2.0 / (span + 1.0)


# ---------------------------------------------------------------- references
def r_atr(h, l, c, window=14):
    tr = [h[t] - l[t] if t == 0 else max(h[t] - l[t], abs(h[t] - c[t - 1]), abs(l[t] - c[t - 1])) for t in range(len(c))]
    return ewm(tr, 1.0 / window)


def ud(x):
    up, dn = [0.0], [0.0]
    for t in range(1, len(x)):
        d = x[t] - x[t - 1]
        up.append(max(d, 0.0))
        dn.append(max(-d, 0.0))
    return up[:len(x)], dn[:len(x)]


def r_rsi(x, period=14):
    up, dn = ud(x)
    u, d = win(up, period, mean), win(dn, period, mean)
    return [NAN if isnan(a) else 100 * div(a, a + b) for a, b in zip(u, d)]


def r_ewm_rsi(x, period=14):
    up, dn = ud(x)
    u, d = ewm(up, sp(period)), ewm(dn, sp(period))
    return [100 * div(a, a + b) for a, b in zip(u, d)]


def r_macd(x, fast=12, slow=26):
    return [a - b for a, b in zip(ewm(x, sp(fast)), ewm(x, sp(slow)))]


def r_macd_signal(x, fast=12, slow=26, signal=9):
    m = r_macd(x, fast, slow)
    return [a - b for a, b in zip(m, ewm(m, sp(signal)))]


def bands(ts, mid, dev, mult):
    up = [m + d * mult for m, d in zip(mid, dev)]
    lo = [m - d * mult for m, d in zip(mid, dev)]
    return {"upper": up, "lower": lo, "middle": list(mid),
            "bandwidth": [div(2 * d * mult, m) for m, d in zip(mid, dev)],
            "percent_b": [div(x - b, 2 * d * mult) for x, b, d in zip(ts, lo, dev)]}


def r_boll(x, window=20, multiplier=2):
    return bands(x, win(x, window, mean), win(x, window, sd), multiplier)


def r_eboll(x, window=20, multiplier=2):
    return bands(x, ewm(x, sp(window)), ewmsd(x, sp(window)), multiplier)


def r_kelt(h, l, c, window_atr=10, window=20, multiplier=2):
    return bands(c, ewm(c, sp(window)), r_atr(h, l, c, window_atr), multiplier)


def r_donch(x, window=20):
    u, d = win(x, window, max), win(x, window, min)
    return bands(x, [(a + b) / 2 for a, b in zip(u, d)], [(a - b) / 2 for a, b in zip(u, d)], 1)


def r_cc(c, window):
    return win([NAN if t == 0 else c[t] / c[t - 1] for t in range(len(c))], window, var)


def r_hl(h, l, window):
    return win([math.log(a / b) ** 2 for a, b in zip(h, l)], window, lambda s: mean(s) / (4 * math.log(2)))


def r_gk(h, l, o, c, window):
    return win([0.5 * math.log(a / b) ** 2 - (2 * math.log(2) - 1) * math.log(y / x) ** 2
                for a, b, x, y in zip(h, l, o, c)], window, mean)


def r_rs(h, l, o, c, window):
    return win([math.log(a / y) * math.log(a / x) + math.log(b / y) * math.log(b / x)
                for a, b, x, y in zip(h, l, o, c)], window, mean)


def r_yz(h, l, o, c, window):
    k = 0.34 / (1.34 + (window + 1) / (window - 1))
    on = [NAN if t == 0 else math.log(o[t] / c[t - 1]) ** 2 for t in range(len(c))]
    oc = [NAN if t == 0 else math.log(c[t] / o[t - 1]) ** 2 for t in range(len(c))]
    a, b, r = win(on, window, mean), win(oc, window, mean), r_rs(h, l, o, c, window)
    return [x + k * y + (1 - k) * z for x, y, z in zip(a, b, r)]


def _bg(h, l, window):
    hl = [math.log(a / b) ** 2 for a, b in zip(h, l)]
    b2 = [NAN if t == 0 else hl[t] + hl[t - 1] for t in range(len(h))]
    beta = win(b2, window, mean)
    gamma = [NAN if t == 0 else math.log(max(h[t], h[t - 1]) / min(l[t], l[t - 1])) ** 2 for t in range(len(h))]
    return beta, gamma


DEN = 3 - 2 * math.sqrt(2)


def r_bp(h, l, window):
    k2 = math.sqrt(8 / math.pi)
    out = []
    for b, g in zip(*_bg(h, l, window)):
        s = (1 / math.sqrt(2) - 1) * math.sqrt(b) / (k2 * DEN) + math.sqrt(g / (k2 ** 2 * DEN)) if not isnan(b) else NAN
        out.append(s if isnan(s) else max(s, 0.0))
    return out


def r_cs(h, l, window):
    out = []
    for b, g in zip(*_bg(h, l, window)):
        if isnan(b) or isnan(g):
            out.append(NAN)
            continue
        a = max((math.sqrt(2) - 1) * math.sqrt(b) / DEN - math.sqrt(g / DEN), 0.0)
        out.append(2 * (math.exp(a) - 1) / (1 + math.exp(a)))
    return out


ILL = object()


def edge_one(h, l, o, c, sign=False):
    """Ardia, Guidotti & Kroencke (2024), one window. ILL: numerically undetermined."""
    n = len(c)
    if n < 2:
        return NAN
    H, L, O, C = ([math.log(v) for v in s] for s in (h, l, o, c))
    M = [(a + b) / 2 for a, b in zip(H, L)]
    tau, p1, p2, p3, p4 = [], [], [], [], []
    for t in range(1, n):
        k = (h[t] != l[t]) or (l[t] != c[t - 1])
        tau.append(float(k))
        p1.append(float(k and o[t] != h[t]))
        p2.append(float(k and o[t] != l[t]))
        p3.append(float(k and c[t - 1] != h[t - 1]))
        p4.append(float(k and c[t - 1] != l[t - 1]))
    pt, po, pc = mean(tau), mean(p1) + mean(p2), mean(p3) + mean(p4)
    if pt == 0 or po == 0 or pc == 0:
        return NAN
    r1 = [M[t] - O[t] for t in range(1, n)]
    r2 = [O[t] - M[t - 1] for t in range(1, n)]
    r3 = [M[t] - C[t - 1] for t in range(1, n)]
    r4 = [C[t - 1] - M[t - 1] for t in range(1, n)]
    r5 = [O[t] - C[t - 1] for t in range(1, n)]

    def dm(r):
        m = mean(r) / pt
        return [a - k * m for a, k in zip(r, tau)]

    d1, d3, d5 = dm(r1), dm(r3), dm(r5)
    x1 = [-4 / po * a * b - 4 / pc * x * y for a, b, x, y in zip(d1, r2, d3, r4)]
    x2 = [-4 / po * a * b - 4 / pc * x * y for a, b, x, y in zip(d1, r5, d5, r4)]
    e1, e2 = mean(x1), mean(x2)
    v1, v2 = mean([(a - e1) ** 2 for a in x1]), mean([(a - e2) ** 2 for a in x2])
    sc = max(1e-300, max(abs(v) for v in x1 + x2)) ** 2
    if v1 + v2 <= 1e-20 * max(sc, 1e-12):
        return ILL
    s2 = (v2 * e1 + v1 * e2) / (v1 + v2)
    if sign and abs(s2) < 1e-15:
        return ILL
    s = math.sqrt(abs(s2))
    return -s if sign and s2 < 0 else s


def r_edge(h, l, o, c, window, sign=False):
    return [NAN if t < window - 1 else edge_one(*(x[t - window + 1:t + 1] for x in (h, l, o, c)), sign=sign)
            for t in range(len(c))]


def r_roll(c, window):
    d = diff([math.log(v) for v in c])
    out = []
    for t in range(len(c)):
        if t < window + 1:
            out.append(NAN)
            continue
        a, b = d[t - window + 1:t + 1], d[t - window:t]
        ma, mb = mean(a), mean(b)
        cov = math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / (window - 1) if window > 1 else NAN
        out.append(2 * math.sqrt(abs(cov)) if not isnan(cov) else NAN)
    return out


def r_roll_impact(c, v, window):
    return [a / (x * y) for a, x, y in zip(r_roll(c, window), c, v)]


def r_vpin(v, b, window):
    return win([abs(2 * y - x) / x for x, y in zip(v, b)], window, mean)


def t_cdf(x, df):
    p = 0.5 * betainc(df / 2, 0.5, df / (df + x * x))
    return float(1 - p if x > 0 else p)


def r_bv(c, v, s):
    return [NAN if t == 0 else v[t] * t_cdf((c[t] - c[t - 1]) / s[t], 0.25) for t in range(len(c))]


def r_kyle(c, v, window=10):
    d = diff(c)
    return win([NAN if isnan(x) or x == 0 else abs(x) / y for x, y in zip(d, v)], window, mean)


def r_amihud(c, v, window=10):
    return win([NAN if t == 0 else abs(c[t] / c[t - 1] - 1) / (v[t] * c[t]) for t in range(len(c))], window, mean)


def r_hasb(c, v, window=20):
    return win([NAN if t == 0 or c[t] == c[t - 1] else abs(math.log(c[t] / c[t - 1])) / math.sqrt(v[t] * c[t])
                for t in range(len(c))], window, mean)


def r_cusum(y):
    """S, and the set of admissible critical values (ties between maximisers)."""
    n = len(y)
    ly = [math.log(v) for v in y]
    S, C = [0.0], [[0.0]]
    ss = 0.0
    for t in range(1, n):
        ss += (ly[t] - ly[t - 1]) ** 2
        sig = math.sqrt(ss / t)
        if sig == 0:
            S.append(NAN)
            C.append(None)
            continue
        q = [(ly[t] - ly[j]) / (sig * math.sqrt(t - j)) for j in range(t)]
        m = max(q)
        S.append(m)
        C.append([math.sqrt(4.6 + math.log(t - j)) for j in range(t) if q[j] >= m - 1e-9])
    return S, C


# ---------------------------------------------------------------- registry
class Feature:
    def __init__(self, name, fn, ins, ref, params, mem=None, dp=0, dv=0, shift=None, mirror=None, sq=False,
                 multi=False, default=None):
        self.name, self.fn, self.ins, self.ref = name, fn, ins, ref
        self.params = params          # list of keyword dicts (small windows)
        self.default = default or {}  # keyword dict for long data
        self.mem = mem                # function(params) -> rows of input the value depends on, or None
        self.dp, self.dv = dp, dv     # degree in price / volume unit (dict per output for bands)
        self.shift = shift            # 'shift', 'inv' or None (no claim); dict per output for bands
        self.mirror = mirror
        self.sq = sq                  # compare squares (value is the root of something that may cancel to 0)
        self.multi = multi

    def call(self, inputs, prm):
        """-> dict of outputs"""
        with joblib.parallel_config(backend="sequential"):
            r = self.fn(*inputs, **prm)
        if self.multi:
            return {k: getattr(r, k)() for k in ("upper", "lower", "middle", "bandwidth", "percent_b")}
        return {"value": r}

    def reference(self, inputs, prm):
        r = self.ref(*[list(map(float, x)) for x in inputs], **prm)
        return r if self.multi else {"value": r}

    def deg(self, out):
        return self.dp[out] if isinstance(self.dp, dict) else self.dp

    def sh(self, out):
        return self.shift[out] if isinstance(self.shift, dict) else self.shift


W = [{"window": w} for w in (1, 2, 3)]
W2 = [{"window": w} for w in (2, 3)]
BD = {"upper": 1, "lower": 1, "middle": 1, "bandwidth": 0, "percent_b": 0}
BS = {"upper": "shift", "lower": "shift", "middle": "shift", "bandwidth": None, "percent_b": "inv"}
BM = {"upper": "lower", "lower": "upper", "middle": "middle", "bandwidth": None, "percent_b": "one-minus"}


def w_(k=0):
    return lambda p: p["window"] + k


FEATURES = [
    Feature("rolling_mean", fi.rolling_mean, "c", lambda x, window=20: win(x, window, mean), W, w_(), 1, 0, "shift", "level"),
    Feature("rolling_std", fi.rolling_std, "c", lambda x, window=20: win(x, window, sd), W, w_(), 1, 0, "inv", "same", sq=True),
    Feature("rolling_max", fi.rolling_max, "c", lambda x, window=20: win(x, window, max), W, w_(), 1, 0, "shift", None),
    Feature("rolling_min", fi.rolling_min, "c", lambda x, window=20: win(x, window, min), W, w_(), 1, 0, "shift", None),
    Feature("ewm_mean", fi.ewm_mean, "c", lambda x, span=20: ewm(x, sp(span)), [{"span": s} for s in (1, 2, 5)], None, 1, 0,
            "shift", "level"),
    Feature("ewm_std", fi.ewm_std, "c", lambda x, span=20: ewmsd(x, sp(span)), [{"span": s} for s in (2, 5)], None, 1, 0,
            "inv", "same", sq=True),
    Feature("rolling_mom", fi.rolling_mom, "c", lambda x, window=20: [v / window for v in diff(x, window)], W, w_(1), 1, 0,
            "inv", "neg"),
    Feature("ewm_mom", fi.ewm_mom, "c", lambda x, span=20, min_periods=0: ewm(diff(x), sp(span), min_periods),
            [{"span": 3}, {"span": 2, "min_periods": 2}, {"span": 5, "min_periods": 3}], None, 1, 0, "inv", "neg"),
    Feature("average_true_range", fi.average_true_range, "hlc", r_atr, W, None, 1, 0, "inv", None),
    Feature("rsi", fi.rsi, "c", r_rsi, [{"period": w} for w in (1, 2, 3)], lambda p: p["period"] + 1, 0, 0, "inv", "hundred"),
    Feature("ewm_rsi", fi.ewm_rsi, "c", r_ewm_rsi, [{"period": w} for w in (2, 3, 7)], None, 0, 0, "inv", "hundred"),
    Feature("macd", fi.macd, "c", r_macd, [{"fast": 2, "slow": 4}, {"fast": 1, "slow": 3}], None, 1, 0, "inv", "neg"),
    Feature("macd_signal", fi.macd_signal, "c", r_macd_signal, [{"fast": 2, "slow": 4, "signal": 3},
                                                              {"fast": 1, "slow": 5, "signal": 2}], None, 1, 0, "inv", "neg"),
    Feature("BollingerBands", fi.BollingerBands, "c", r_boll, [{"window": 2}, {"window": 3, "multiplier": 1}], w_(), BD, 0, BS,
            BM, multi=True),
    Feature("EwmBollingerBands", fi.EwmBollingerBands, "c", r_eboll, [{"window": 2}, {"window": 4, "multiplier": 3}], None, BD, 0,
            BS, BM, multi=True),
    Feature("KeltnerBands", fi.KeltnerBands, "hlc", r_kelt, [{"window_atr": 2, "window": 3},
                                                           {"window_atr": 4, "window": 2, "multiplier": 1}], None, BD, 0, BS,
            None, multi=True),
    Feature("DonchianBands", fi.DonchianBands, "c", r_donch, [{"window": 2}, {"window": 3}], w_(), BD, 0, BS, BM, multi=True),
    Feature("get_close_close_volatility", fm.get_close_close_volatility, "c", r_cc, W2, w_(1), 0, 0, None, None,
            default={"window": 14}),
    Feature("get_high_low_volatility", fm.get_high_low_volatility, "hl", r_hl, W, w_(), default={"window": 14}),
    Feature("get_garman_klass_volatility", fm.get_garman_klass_volatility, "hloc", r_gk, W, w_(), default={"window": 14}),
    Feature("get_rogers_satchell_volatility", fm.get_rogers_satchell_volatility, "hloc", r_rs, W, w_(), default={"window": 14}),
    Feature("get_yang_zhang_volatility", fm.get_yang_zhang_volatility, "hloc", r_yz, W2, w_(1), default={"window": 14}),
    Feature("get_becker_parkinson_volatility", fm.get_becker_parkinson_volatility, "hl", r_bp, W, w_(1), sq=True,
            default={"window": 14}),
    Feature("get_cowrin_schultz_spread", fm.get_cowrin_schultz_spread, "hl", r_cs, W, w_(1), sq=True, default={"window": 14}),
    Feature("get_edge_spread", fm.get_edge_spread, "hloc", r_edge, [{"window": 3}, {"window": 4, "sign": True}], w_(), sq=True,
            default={"window": 14}),
    Feature("get_roll_measure", fm.get_roll_measure, "c", r_roll, W2, w_(2), sq=True, default={"window": 14}),
    Feature("get_roll_impact", fm.get_roll_impact, "cv", r_roll_impact, W2, w_(2), -1, -1, sq=True, default={"window": 14}),
    Feature("get_vpin", fm.get_vpin, "vb", r_vpin, W, w_(), 0, 0, default={"window": 14}),
    Feature("estimate_buy_volume", fm.estimate_buy_volume, "cvs", r_bv, [{}], lambda p: 2, 0, 1, "inv"),
    Feature("get_kyle_lambda", fm.get_kyle_lambda, "cv", r_kyle, W, w_(1), 1, -1, "inv"),
    Feature("get_amihud_lambda", fm.get_amihud_lambda, "cv", r_amihud, W, w_(1), -1, -1),
    Feature("get_hasbrouck_lambda", fm.get_hasbrouck_lambda, "cv", r_hasb, W, w_(1), -0.5, -0.5),
]
WINDOWS = ("window", "window_atr", "span", "period", "fast", "slow", "signal", "min_periods")
BY = {f.name: f for f in FEATURES}
PRICE = "ohlcs"
VOLUME = "vb"


def compare(got, want, sq=False, rtol=1e-7, scale=1.0):
    """None or a message; want may contain ILL (skipped)."""
    got = np.asarray(got, float).reshape(-1)
    if len(got) != len(want):
        return f"{len(got)} values for {len(want)} rows"
    for t, (g, w) in enumerate(zip(got.tolist(), want)):
        if w is ILL:
            continue
        if isnan(w) or isnan(g):
            if not (isnan(w) and isnan(g)):
                return f"at {t}: got {g}, expected {w}"
            continue
        if sq:
            ok = abs(g * abs(g) - w * abs(w)) <= 1e-10 * scale * scale + rtol * w * w
        else:
            ok = abs(g - w) <= 1e-9 * scale + rtol * abs(w)
        if not ok:
            return f"at {t}: got {g}, expected {w}"
    return None


# ---------------------------------------------------------------- data
def bars(levels):
    """All valid (o, h, l, c) over the levels."""
    return [(o, h, l, c) for h in levels for l in levels if l <= h for o in levels if l <= o <= h
            for c in levels if l <= c <= h]


def cols_from_close(c):
    """OHLC(V) arrays around a close series, deterministic and valid."""
    n = len(c)
    i = np.arange(n)
    c = np.asarray(c, float)
    o = np.concatenate([[c[0]], c[:-1]]) * (1 + 0.003 * np.sin(2.1 * i))
    h = np.maximum(o, c) * (1 + 0.004 * (1 + np.sin(1.7 * i)))
    l = np.minimum(o, c) * (1 - 0.003 * (1 + np.cos(0.9 * i)))
    v = 1000 * (1.2 + np.sin(0.37 * i * i))
    b = v * (0.5 + 0.45 * np.sin(1.1 * i))
    s = 0.01 * c * (1.5 + np.sin(0.3 * i))
    return {"o": o, "h": h, "l": l, "c": c, "v": v, "b": b, "s": s}


def long_series(n=60):
    """Structured close series: name -> array."""
    i = np.arange(n)
    walk = np.exp(np.cumsum(0.01 * (np.sin(3.3 * i) + np.cos(0.7 * i * i))))
    out = {"walk": 100 * walk, "big": 3e6 * walk, "small": 2e-4 * walk,
           "trend": 10 + 0.5 * i, "down": 100 * 0.97 ** i,
           "flat-then-walk": np.where(i < n // 3, 50.0, 50 * walk / walk[n // 3]),
           "walk-then-flat": np.where(i > 2 * n // 3, 70.0, 70 * walk),
           "saw": 20 + (i % 4) * 1.0, "alternate": 20 + (i % 2) * 0.5,
           "spike": np.where(i == n // 2, 400.0, 100 * walk), "steps": 10.0 + np.floor(i / 7)}
    return out


def get_cols(d, ins):
    return [d[k] for k in ins]
