"""G01: no call, complete, rejected or interrupted, and no import changes process-wide settings, prints or leaves files, threads or handles."""
import decimal
import gc
import json
import locale
import logging
import multiprocessing
import os
import random
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import numpy as np
import pandas as pd
import scipy.cluster.hierarchy  # noqa  (third-party packages are loaded before anything is observed)
import scipy.optimize  # noqa
import scipy.stats  # noqa
import sklearn.metrics  # noqa
import sklearn.model_selection  # noqa

from mc import calls as cl
from mc.core import REPO

ID = "G01"
TECHNIQUE = "exhaustive fault injection in the real code: every call complete, rejected and interrupted before every library source line, with a monitor over the process-wide state"
CHUNK = 1
CASE_LIMIT = 600
G = {**cl.groups(), **cl.special_groups()}
ASSUMPTIONS = ["'process-wide state': the random states of numpy and random; numpy error and print settings; pandas options; warning filters; root "
               "logger and levels of existing loggers; environment, working directory, module path, locale, recursion limit, signal handlers, hooks, "
               "collector, default time-out, decimal context; threads, child processes, open files, files in the working and temporary directory; text on standard output",
               "the logger of the library itself is configured by an explicit request and judged by L01"]


def modules():
    out = []
    base = os.path.join(REPO, "quantfinlib")
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return sorted(out)


def BOUNDS(tier):
    return (f"{len(G)} groups of calls ({sum(len(g.pure) + len(g.change) for g in G.values())} calls, {sum(len(g.bad) for g in G.values())} invalid calls, degenerate data included); every call "
            "complete, rejected and interrupted before every library line" + (" (at most 60 per call, evenly spread)" if tier == "quick" else "")
            + f"; every one of the {len(modules())} modules imported first in a fresh interpreter" + ("" if tier == "quick" else ", and every ordered pair of modules"))


def cases(tier):
    ms = modules()
    k = 6
    for i in range(0, len(ms), k):
        yield {"import": ms[i:i + k]}
    for n in G:
        yield {"group": n, "tier": tier}
    if tier == "thorough":
        for a in ms:
            yield {"import": ms, "first": a}


class Out:
    """stands in for standard output"""

    def __init__(self):
        self.n = []

    def write(self, s):
        self.n.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writelines(self, x):
        self.n += list(x)


SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD, signal.SIGPIPE, signal.SIGFPE]


def snapshot():
    st = np.random.get_state()
    d = {"numpy random": (st[0], st[1].tobytes(), st[2:]), "random": random.getstate(), "numpy errors": tuple(sorted(np.geterr().items())),
         "numpy error call": id(np.geterrcall()), "numpy print": repr(np.get_printoptions()),
         "warnings": tuple(map(repr, warnings.filters)), "showwarning": id(warnings.showwarning),
         "logging": (logging.root.level, tuple(map(id, logging.root.handlers)), tuple(map(id, logging.root.filters)), logging.root.manager.disable,
                     logging.getLoggerClass()),
         "levels": {n: (lg.level, lg.disabled, lg.propagate, len(lg.handlers)) for n, lg in list(logging.root.manager.loggerDict.items())
                    if isinstance(lg, logging.Logger)},
         "environment": tuple(sorted(os.environ.items())), "directory": os.getcwd(), "path": tuple(sys.path), "recursion": sys.getrecursionlimit(),
         "switch": sys.getswitchinterval(), "signals": tuple(signal.getsignal(s) for s in SIGS), "collector": (gc.isenabled(), gc.get_threshold()),
         "locale": locale.setlocale(locale.LC_ALL), "decimal": repr(decimal.getcontext()), "time zone": time.tzname, "time-out": socket.getdefaulttimeout(),
         "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
         "threads": tuple(t.name for t in threading.enumerate()), "children": tuple(p.pid for p in multiprocessing.active_children()),
         "descriptors": fds(),
         "start method": multiprocessing.get_start_method(allow_none=True)}
    try:
        d["pandas"] = repr(pd._config.config._global_config)
    except AttributeError:
        d["pandas"] = repr({k: pd.get_option(k) for k in ("display.max_rows", "display.precision", "mode.copy_on_write", "compute.use_numexpr")})
    return d


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return {f: t for f, t in out.items() if not t.endswith("/fd")}


def diff(a, b):
    for k in a:
        if k == "levels":
            for n in a[k]:
                if b[k].get(n) != a[k][n]:
                    return f"logger {n}: {a[k][n]} -> {b[k].get(n)}"
        elif a[k] != b[k]:
            return f"{k}: {str(a[k])[:200]} -> {str(b[k])[:200]}"
    return None


def run(case, ctx):
    if "import" in case:
        return imports(case, ctx)
    warnings.simplefilter("ignore")
    g, tier = G[case["group"]], case["tier"]
    work = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
    old = os.getcwd(), sys.stdout, tempfile.tempdir
    out = Out()
    try:
        os.chdir(work)
        tempfile.tempdir = work
        sys.stdout = out
        explore(g, tier, ctx, out, work)
    finally:
        os.chdir(old[0])
        sys.stdout, tempfile.tempdir = old[1:]


def explore(g, tier, ctx, out, work):
    np.random.seed(4321)
    random.seed(99)
    # settings that differ from the defaults and from what a library might prefer, so that setting, resetting or silencing shows
    np.seterr(divide="warn", over="ignore", under="warn", invalid="warn")
    np.set_printoptions(precision=5, threshold=321)
    pd.set_option("display.max_rows", 33, "display.precision", 4)
    warnings.filterwarnings("ignore", module="no_such_module")
    warnings.filterwarnings("ignore")
    warnings.filterwarnings("error", message="no such message")
    logging.root.setLevel(logging.ERROR)
    ref = snapshot()

    def look(tag):
        ctx.trace()
        w = diff(ref, snapshot())
        if w:
            gc.collect()   # handles kept alive by the traceback of an interruption
            w = diff(ref, snapshot())
        if w:
            ctx.fail("process-wide", f"{tag}: {w}")
        if out.n:
            ctx.fail("printed", f"{tag}: wrote to standard output: {''.join(out.n)[:200]!r}")
            out.n.clear()
        left = os.listdir(work)
        if left:
            ctx.fail("files", f"{tag}: left {left}")
        return not (w or left)

    o = g.make()
    if not look(f"{g.name}: creating"):
        return
    core = {**g.pure, **{n: f for n, (f, _) in g.change.items()}}
    lines = {}
    for n, f in core.items():
        o = g.make()
        look(f"{g.name}: creating")
        _, lines[n], _ = cl.trace_run(lambda: f(o))
        ctx.step()
        ctx.state(g.name, n)
        ctx.outcome("complete")
        if not look(f"{g.name}: {n}"):
            return
    for n, f in g.bad.items():
        o = g.make()
        try:
            f(o)
            ctx.outcome("accepted")
        except Exception:  # noqa
            ctx.outcome("rejected")
        ctx.step()
        ctx.state(g.name, "bad", n)
        if not look(f"{g.name}: {n}"):
            return
    for n, f in core.items():
        L = lines[n]
        step = 1 + L // 60 if tier == "quick" else 1
        if g.name.startswith("special"):   # the interruption points are those of the plain groups
            continue
        for p in range(1, L + 1, step):
            o = g.make()
            cl.trace_run(lambda: f(o), p, cl.EXCS[p % len(cl.EXCS)]())
            ctx.step()
            ctx.state(g.name, n, p)
            ctx.outcome("interrupted")
            if not look(f"{g.name}: {n} interrupted before its library line {p} of {L}"):
                return


CHILD = r"""
import sys, os, json, io
sys.path[:0] = json.loads(os.environ["MC_PATHS"])
import numpy, pandas, joblib, scipy.stats, scipy.optimize, scipy.cluster.hierarchy, scipy.spatial.distance, scipy.linalg, scipy.integrate
import sklearn.metrics, sklearn.model_selection, sklearn.neighbors, sklearn.covariance, pydantic, importlib
from mc.checks import g01
numpy.random.seed(1); 
import random; random.seed(1)
for m in [m for m in sys.modules if m == "quantfinlib" or m.startswith("quantfinlib.")]:
    del sys.modules[m]
res = {}
out = g01.Out(); real = sys.stdout; sys.stdout = out
a = g01.snapshot()
for m in json.loads(os.environ["MC_MODS"]):
    for old in [x for x in sys.modules if x == "quantfinlib" or x.startswith("quantfinlib.")]:
        if not os.environ.get("MC_KEEP"):
            del sys.modules[old]
    try:
        importlib.import_module(m)
        ns = {}
        exec("from %s import *" % m, ns)
        for n in getattr(sys.modules[m], "__all__", []):
            if n not in ns: res[m] = "does not define " + n
        w = g01.diff(a, g01.snapshot())
        if w: res[m] = "import changes " + w
    except BaseException as e:
        res[m] = "import fails: %s: %s" % (type(e).__name__, e)
    if out.n: res[m] = "import prints " + "".join(out.n)[:200]
    a = g01.snapshot()
sys.stdout = real
print(json.dumps(res))
"""


def imports(case, ctx):
    ms = case["import"]
    if "first" in case:
        ms = [case["first"]] + [m for m in ms if m != case["first"]]
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, MC_PATHS=json.dumps([REPO, here]), MC_MODS=json.dumps(ms))
    if "first" in case:
        env["MC_KEEP"] = "1"
    r = subprocess.run([sys.executable, "-c", CHILD], env=env, capture_output=True, text=True, timeout=300, cwd=os.environ.get("MC_SCRATCH") or "/")
    try:
        res = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:  # noqa
        raise RuntimeError(f"import probe failed: {r.stderr[-500:]}")
    for m in ms:
        ctx.state("import", case.get("first"), m)
        ctx.step()
        ctx.trace()
    for m, w in res.items():
        ctx.fail("import", f"{m}: {w}")
