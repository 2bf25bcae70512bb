"""F06: the rolling edge spread under every order of task execution, worker count and interleaving."""
import os
import pickle
from itertools import product

import cloudpickle
import joblib
import numpy as np
import pandas as pd
from joblib.parallel import ParallelBackendBase

from mc import featlib as fl
from mc import sched

ID = "F06"
CHUNK = 1
CASE_LIMIT = 240
ASSUMPTIONS = ["window tasks are submitted through joblib and therefore run under a substituted, fully controlled backend; an "
               "implementation without joblib has a single schedule, which is still compared",
               "real loky process pools and thread pools are run on top for the sampled worker counts (not part of the bound)"]


def BOUNDS(tier):
    return ("9 bar series x 2 signs x 2 containers; every execution order of up to 4 (5) window tasks for 1-4 workers with the "
            "dispatch-ahead rule of joblib, tasks sharing memory or isolated by pickling; every single-preemption line "
            "interleaving of adjacent tasks on two threads; worker counts 1-4 seen through joblib, os and multiprocessing")


N_FULL = {"quick": 6, "thorough": 7}


def series(name, n):
    if name == "walk":
        d = fl.cols_from_close(fl.long_series(60)["walk"])
        return {k: d[k][10:10 + n] for k in "ohlc"}
    B = fl.bars([1.0, 2.0, 3.0])
    k = int(name)
    seq = [B[(k * 7 + 3 * i * i + k * i) % 20] for i in range(n)]
    return {x: np.array([b[j] for b in seq]) for j, x in enumerate("ohlc")}


def cases(tier):
    n = N_FULL[tier]
    for s in ["walk"] + [str(k) for k in range(1, 9)]:
        for sign in (False, True):
            for w in (3, 2, 4):
                for jobs in (1, 2, 3, 4):
                    yield {"t": "order", "s": s, "n": n, "w": w, "sign": sign, "jobs": jobs}
    for s in ["walk", "1", "4"]:
        for w in (3, 4):
            yield {"t": "threads", "s": s, "n": w + 2, "w": w, "sign": True}
    for w in (2, 3, 5, 9):
        yield {"t": "real", "w": w}
    yield {"t": "short"}


class Sched:
    """choice sequence explored depth first"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.width = []

    def choose(self, n):
        i = self.prefix[len(self.taken)] if len(self.taken) < len(self.prefix) else 0
        i = min(i, n - 1)
        self.taken.append(i)
        self.width.append(n)
        return i


class Job:
    def __init__(self, fn, cb):
        self.fn, self.cb, self.done, self.res, self.err = fn, cb, False, None, None

    def get(self, timeout=None):
        if self.err is not None:
            raise self.err
        return self.res


class Controlled(ParallelBackendBase):
    supports_sharedmem = True
    uses_threads = True
    supports_retrieve_callback = False

    def __init__(self, jobs=2, choose=None, isolate=False, pair=None, nesting_level=None, **kw):
        super().__init__(nesting_level=nesting_level)
        self.jobs, self.choose, self.isolate, self.pair = jobs, choose, isolate, pair
        self.pending = []
        self.executed = 0

    def effective_n_jobs(self, n_jobs):
        if n_jobs is None or n_jobs < 0:
            return self.jobs
        return max(1, min(n_jobs, self.jobs))

    def submit(self, func, callback=None):
        j = Job(func, callback)
        self.pending.append(j)
        return j

    apply_async = submit

    def _finish(self, j, status, val):
        j.done = True
        if status == "ok":
            j.res = val
        else:
            j.err = val
        self.executed += 1
        if j.cb:
            j.cb(val if status == "ok" else None)

    def _run_one(self):
        if self.pair is not None and len(self.pending) >= 2:
            a, b = self.pending.pop(0), self.pending.pop(0)
            out, total, pts = sched.run([a.fn, b.fn], *self.pair)
            self.total = max(getattr(self, "total", 0), total)
            for j, (st, v) in zip((a, b), out):
                self._finish(j, st, v)
            return
        k = self.choose(len(self.pending)) if self.choose else 0
        j = self.pending.pop(k)
        try:
            if self.isolate:
                fn = pickle.loads(cloudpickle.dumps(j.fn))
                r = ("ok", pickle.loads(cloudpickle.dumps(fn())))
            else:
                r = ("ok", j.fn())
        except Exception as e:  # noqa
            r = ("err", e)
        self._finish(j, *r)

    def retrieve_result(self, out, timeout=None):
        while not out.done:
            self._run_one()
        return out.get()


class Cpus:
    """make the machine look as if it had k processors"""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        import multiprocessing
        self.saved = [(o, n, getattr(o, n)) for o, n in ((os, "cpu_count"), (os, "sched_getaffinity"), (joblib, "cpu_count"),
                                                          (multiprocessing, "cpu_count"))]
        for o, n, f in self.saved:
            setattr(o, n, (lambda pid: set(range(self.k))) if n == "sched_getaffinity" else (lambda *a, **kw: self.k))
        self.env = os.environ.get("LOKY_MAX_CPU_COUNT")
        os.environ["LOKY_MAX_CPU_COUNT"] = str(self.k)

    def __exit__(self, *a):
        for o, n, f in self.saved:
            setattr(o, n, f)
        if self.env is None:
            os.environ.pop("LOKY_MAX_CPU_COUNT", None)
        else:
            os.environ["LOKY_MAX_CPU_COUNT"] = self.env


def call(d, w, sign, frame, **kw):
    h, l, o, c = (d[k] for k in "hloc")
    if frame:
        idx = pd.Index([5, 5, 1, 9, 9, 2, 7, 8, 3, 4][:len(c)] + list(range(20, 20 + max(0, len(c) - 10))))
        h, l, o, c = (pd.Series(x, index=idx) for x in (h, l, o, c))
    return fl.fm.get_edge_spread(h, l, o, c, w, sign)


def single(d, w, sign):
    n = len(d["c"])
    out = np.full(n, np.nan)
    with joblib.parallel_config(backend="sequential"):
        for t in range(w - 1, n):
            out[t] = np.asarray(call({k: d[k][t - w + 1:t + 1] for k in "ohlc"}, w, sign, False))[-1]
    return out


def same(a, b):
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * (1 + np.abs(b)))))


def expect(ctx, tag, got, want, d, copy):
    ctx.trace()
    g = np.asarray(got, float)
    if not same(g, want):
        ctx.fail("value", f"{tag}: {g.tolist()} instead of {want.tolist()}")
    if any(not np.array_equal(d[k], copy[k]) for k in d):
        ctx.fail("input", f"{tag}: input modified")


def run(case, ctx):
    if case["t"] == "short":
        for n in (2, 3, 4):
            d = series("walk", n)
            copy = {k: v.copy() for k, v in d.items()}
            for jobs in (1, 3):
                with joblib.parallel_config(backend=Controlled(jobs=jobs)):
                    got = call(d, n, False, False)
                ctx.step()
                expect(ctx, f"{n} rows, window {n}, {jobs} workers", got, single(d, n, False), d, copy)
                ctx.state("short", n, jobs)
        return
    if case["t"] == "real":
        d = series("walk", 14)
        copy = {k: v.copy() for k, v in d.items()}
        want = single(d, case["w"], True)
        for backend in ("threading", "loky", "sequential"):
            for n in (2, 3):
                with joblib.parallel_config(backend=backend), Cpus(n):
                    got = call(d, case["w"], True, True)
                ctx.step()
                expect(ctx, f"{backend} pool of {n}, window {case['w']}", got, want, d, copy)
                ctx.state(backend, n, case["w"])
        try:
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)
        except Exception:
            pass
        return
    d = series(case["s"], case["n"])
    copy = {k: v.copy() for k, v in d.items()}
    w, sign = case["w"], case["sign"]
    want = single(d, w, sign)
    ctx.sample({"case": case, "expected": [None if v != v else round(v, 6) for v in want.tolist()]})
    if case["t"] == "threads":
        p, top = 0, 1
        while p <= top:
            for first in (0, 1):
                be = Controlled(jobs=2, pair=([p] if p else [], first))
                with joblib.parallel_config(backend=be):
                    got = call(d, w, sign, bool(p % 2))
                top = max(top, getattr(be, "total", 0))
                ctx.step()
                ctx.state("threads", case["s"], w, p, first)
                expect(ctx, f"series {case['s']} window {w}: two threads, switch at line step {p}, starting with {first}", got, want,
                       d, copy)
            p += 1
        return
    for isolate in (False, True):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            s = Sched(prefix)
            be = Controlled(jobs=case["jobs"], choose=s.choose, isolate=isolate)
            with joblib.parallel_config(backend=be), Cpus(case["jobs"]):
                got = call(d, w, sign, (len(prefix) + isolate) % 2 == 0)
            ctx.step()
            ctx.state(case["s"], w, sign, case["jobs"], isolate, tuple(s.taken))
            expect(ctx, f"series {case['s']} window {w} sign {sign}, {case['jobs']} workers, isolated {isolate}, choices {s.taken}",
                   got, want, d, copy)
            for i in range(len(prefix), len(s.taken)):
                for alt in range(1, s.width[i]):
                    stack.append(s.taken[:i] + [alt])
            if len(ctx.fails) > 5:
                return
