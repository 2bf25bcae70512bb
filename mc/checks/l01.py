"""L01: histories of logger configurations, imports and library calls, each in a fresh interpreter state (fork)."""
import itertools
import json
import logging
import os
import shutil
import signal
import sys
import tempfile

# third-party modules are loaded before forking; quantfinlib itself is imported only inside the histories
import joblib  # noqa
import numpy as np
import pandas as pd  # noqa
import scipy.cluster.hierarchy  # noqa
import scipy.linalg  # noqa
import scipy.stats  # noqa
import sklearn.metrics  # noqa

ID = "L01"
CASE_LIMIT = 280
CHUNK = 1
ASSUMPTIONS = ["a fresh interpreter state is a fork of a process that has loaded third-party modules but not quantfinlib",
               "the console is standard output and standard error together",
               "delivery is claimed from the first configuration on"]
CONF = {"c10": (10, None), "c20": (20, None), "c30": (30, None), "c5": (5, None), "cWARN": ("WARNING", None), "cdef": (None, None),
        "f10A": (10, "A.log"), "f30A": (30, "A.log"), "f20B": (20, "B.log"), "f40B": (40, "B.log"), "fdef": (30, "quantfinlib.log")}
IMPORTS = ["distance", "clustering", "sim", "feature.indicators", "feature.micro_structure", "train_test_split", "datasets", "math.cov"]
CALLS = ["mi", "corr", "vix", "hc"]
ALPHA = list(CONF) + IMPORTS + CALLS + ["root"]


def BOUNDS(tier):
    return (f"all histories of length {'1-2, and 3 over 17 events,' if tier == 'quick' else '1-3, and 4 over 10 events,'} over {len(ALPHA)} "
            "events (11 configurations, 8 imports, 4 library calls, user configuration of the root logger) with at least one "
            "configuration; after every event 7 levels are probed")


def histories(first, tier):
    rest = [h for n in (0, 1) for h in itertools.product(ALPHA, repeat=n)]
    mid = ALPHA if tier == "thorough" else [e for e in ALPHA if e not in ("cWARN", "feature.indicators", "feature.micro_structure",
                                                                          "train_test_split", "math.cov", "corr", "hc")]
    if first in mid:
        rest += list(itertools.product(mid, repeat=2))
    if tier == "thorough":
        small = ["c5", "c10", "c30", "f10A", "f40B", "distance", "clustering", "datasets", "mi", "root"]
        if first in small:
            rest += list(itertools.product(small, repeat=3))
    for h in rest:
        if any(e in CONF for e in (first,) + h):
            yield (first,) + h


def cases(tier):
    for e in ALPHA:
        for part in range(4):
            yield {"first": e, "part": part, "tier": tier}


LEVELS = (5, 10, 15, 20, 30, 35, 40)


def child(hist, d, out):
    """runs in a forked process"""
    signal.alarm(60)
    os.chdir(d)
    con = os.open(os.path.join(d, "console.txt"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(con, 1)
    os.dup2(con, 2)
    sys.stdout = os.fdopen(1, "w", closefd=False)
    sys.stderr = os.fdopen(2, "w", closefd=False)
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)
    rep = []

    def rootstate():
        return (root.level, [id(h) for h in root.handlers], [h.level for h in root.handlers], root.disabled, logging.root.manager.disable,
                logging.raiseExceptions, logging.lastResort is None)

    for i, e in enumerate(hist):
        before = rootstate()
        if e in CONF:
            from quantfinlib.util import configure_logger
            v, f = CONF[e]
            if e == "cdef":
                configure_logger()
            elif f is None:
                configure_logger(verbosity=v)
            elif e == "fdef":
                configure_logger(v, True)
            else:
                configure_logger(verbosity=v, log_to_file=True, log_file_path=os.path.join(d, f))
        elif e in IMPORTS:
            importlib.import_module("quantfinlib." + e)
        elif e == "mi":
            from quantfinlib.distance import get_info_distance_matrix
            get_info_distance_matrix(np.array([[1.0, 2], [2, 1], [4, 0], [0, 7]]), method="mutual_info", bins=2)
        elif e == "corr":
            from quantfinlib.distance import get_corr_distance_matrix
            get_corr_distance_matrix(np.array([[1.0, 2], [2, 1], [4, 0], [0, 7]]))
        elif e == "vix":
            from quantfinlib.datasets import load_vix
            load_vix()
        elif e == "hc":
            from quantfinlib.clustering import HC
            HC(X=np.array([[1.0, 2, 3, 1], [2, 1, 0, 2], [4, 0, 1, 3], [0, 7, 5, 1]])).get_optimal_nclusters(3, "silhouette")
        else:
            h = logging.FileHandler(os.path.join(d, "root.txt"))
            h.setLevel(25)
            root.addHandler(h)
            root.setLevel(35)
            before = rootstate()
        changed = rootstate() != before
        names = ["quantfinlib"]
        for n in names:
            for lv in LEVELS:
                logging.getLogger(n).log(lv, "probe-%s-%s-end %s \u20ac \u4e2d", i, lv, "x" * 300 if i == 1 else "\n")
        if "quantfinlib.util" in sys.modules:
            sys.modules["quantfinlib.util"].logger.log(40, f"probe-{i}-lib-end 100%")
        fds = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                p = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if p.endswith(".log"):
                fds.append(os.path.basename(p))
        rep.append({"root": changed, "fds": sorted(fds)})
    sys.stdout.flush()
    sys.stderr.flush()
    logging.shutdown()
    with open(out, "w") as fh:
        json.dump(rep, fh)


def play(hist):
    d = tempfile.mkdtemp(prefix="mclog", dir=os.environ.get("MC_SCRATCH"))
    out = os.path.join(d, "report.json")
    try:
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                child(hist, d, out)
                code = 0
            except BaseException as e:  # noqa
                with open(os.path.join(d, "error.txt"), "w") as fh:
                    fh.write(f"{type(e).__name__}: {e}")
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        files = {}
        for f in os.listdir(d):
            with open(os.path.join(d, f), errors="replace") as fh:
                files[f] = fh.read()
        return status, files
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ctx, hist):
    status, files = play(hist)
    ctx.step(len(hist))
    ctx.trace()
    if status != 0:
        ctx.fail("error", f"{hist}: status {status} {files.get('error.txt', '')} {files.get('console.txt', '')[-300:]}")
        return
    rep = json.loads(files["report.json"])
    logs = ["A.log", "B.log", "quantfinlib.log"]
    conf = None
    for i, e in enumerate(hist):
        if e in CONF:
            v, f = CONF[e]
            conf = ({None: 30, "WARNING": 30}.get(v, v), f)
        if rep[i]["root"]:
            ctx.fail("root", f"{hist}: event {i} changed the root logger")
        for lv in LEVELS + ("lib",):
            m = f"probe-{i}-{lv}-end"
            if lv == "lib" and "quantfinlib" not in str(hist[:i + 1]) and conf is None:
                continue
            where = {n: files.get(n, "").count(m) for n in ["console.txt"] + logs}
            if conf is None:
                want = dict(where, **{n: 0 for n in logs})
            else:
                up = (40 if lv == "lib" else lv) >= conf[0]
                want = {n: int(up and n == conf[1]) for n in logs}
                want["console.txt"] = int(up)
            if where != want:
                ctx.fail("delivery", f"{hist}: after event {i} ({e}), in force {conf}, a level {lv} message reached {where} instead of {want}")
                return
        if rep[i]["fds"] != ([conf[1]] if conf and conf[1] else []):
            ctx.fail("superseded-open", f"{hist}: after event {i} open log files are {rep[i]['fds']}")
    ctx.state(hist)


def run(case, ctx):
    for k, h in enumerate(histories(case["first"], case["tier"])):
        if k % 4 == case["part"]:
            judge(ctx, h)
            if len(ctx.fails) > 5:
                break
    ctx.sample({"history": h})
