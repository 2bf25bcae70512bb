"""Bounded-exhaustive exploration core.

A check module (mc/checks/<id>.py, lower case) provides

    ID, TECHNIQUE, BOUNDS(tier) -> str, ASSUMPTIONS -> list[str]
    cases(tier)      -> iterable of JSON-serialisable cases, simplest first
    run(case, ctx)   -> None; reports through ctx

ctx.state(key)   a distinct configuration / observed state was visited (hashed, counted distinct)
ctx.step(n)      n transitions (calls into the real implementation) were executed
ctx.trace(n)     n complete executions / histories were compared with the reference
ctx.fail(sig, msg)  the property is violated in this case
Any exception that escapes run() is itself a violation (the implementation raised, or returned something
that cannot be compared), and so is a case that does not finish within CASE_LIMIT seconds.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("MC_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
MAX_REPORT = 5


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Ctx:
    def __init__(self, case, sample=False):
        self.case = case
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.fails = []
        self.sample_on = sample
        self.samples = []
        self.outcomes = {}

    def state(self, *key):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big"))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def fail(self, sig, msg=""):
        if len(self.fails) < 50:
            self.fails.append((str(sig), str(msg)[:2000]))

    def sample(self, obj):
        if self.sample_on and len(self.samples) < 1:
            self.samples.append(obj)


def load_check(pid):
    return importlib.import_module("mc.checks." + pid.lower())


def run_case(mod, case, sample=False, limit=None):
    ctx = Ctx(case, sample)
    limit = limit or getattr(mod, "CASE_LIMIT", 60)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(case, ctx)
    except CaseTimeout:
        ctx.fail("hang", f"case did not finish within {limit} s")
    except MemoryError:
        ctx.fail("memory", "MemoryError")
    except RecursionError as e:
        ctx.fail("exception:RecursionError", str(e))
    except Exception as e:  # noqa
        tb = traceback.format_exc().strip().splitlines()
        ctx.fail("exception:" + type(e).__name__, " | ".join(tb[-6:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ctx


_MOD = None
_CASES = None


def _work(lo, hi):
    states, steps, traces, fails, samples, outcomes = set(), 0, 0, [], [], {}
    for i in range(lo, hi):
        c = run_case(_MOD, _CASES[i], sample=(i == lo))
        states |= c.states
        steps += c.steps
        traces += c.traces
        samples += c.samples
        for k, v in c.outcomes.items():
            outcomes[k] = outcomes.get(k, 0) + v
        for f in c.fails:
            fails.append((i, f[0], f[1]))
        if len(fails) >= 200:
            break
    return lo, hi, states, steps, traces, fails, samples, outcomes


def _init_worker():
    import warnings
    warnings.simplefilter("ignore")
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    import numpy as np
    np.seterr(all="ignore")


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fh:
        data = json.load(fh)
    return [f for f in data.get("findings", []) if f["property"] == pid]


def _finding_matches(f, case, sig, msg):
    if f.get("sig") is not None and f["sig"] != sig:
        return False
    if "case" in f and f["case"] != case:
        return False
    if "case_subset" in f:
        if not isinstance(case, dict):
            return False
        for k, v in f["case_subset"].items():
            if case.get(k) != v:
                return False
    return True


def main(pid, tier):
    global _MOD, _CASES
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    import warnings
    warnings.simplefilter("ignore")
    try:
        mod = load_check(pid)
        import_error = None
    except Exception:
        mod, import_error = None, traceback.format_exc()
    viols = []  # (index, case, sig, msg)
    states, steps, traces, samples, outcomes, done = set(), 0, 0, [], {}, 0
    ncases = 0
    complete = False
    if mod is None:
        sys.stderr.write(import_error)
        viols.append((-1, None, "import", import_error[-1500:]))
    else:
        import numpy as np
        np.seterr(all="ignore")
        _MOD = mod
        _CASES = list(mod.cases(tier))
        ncases = len(_CASES)
        jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
        jobs = getattr(mod, "JOBS", jobs)
        chunk = getattr(mod, "CHUNK", None) or max(1, min(200, ncases // (jobs * 8) or 1))
        spans = [(i, min(ncases, i + chunk)) for i in range(0, ncases, chunk)]
        complete = True
        sys.stdout.flush()
        pool = ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"), initializer=_init_worker)
        futs = {pool.submit(_work, lo, hi): (lo, hi) for lo, hi in spans}
        try:
            for fu in as_completed(futs):
                lo, hi = futs[fu]
                try:
                    _, _, st, sp, tr, fl, sm, oc = fu.result()
                except BrokenProcessPool:
                    viols.append((lo, _CASES[lo], "worker-died", "worker process died in this block of cases"))
                    complete = False
                    break
                states |= st
                steps += sp
                traces += tr
                for k, v in oc.items():
                    outcomes[k] = outcomes.get(k, 0) + v
                if len(samples) < 3:
                    samples += sm
                done += hi - lo
                for i, sig, msg in fl:
                    viols.append((i, _CASES[i], sig, msg))
                if len(viols) > (0 if os.environ.get("MC_FAILFAST") else 400):
                    complete = False
                    break
        finally:
            for fu in futs:
                fu.cancel()
            procs = list(getattr(pool, "_processes", {}).values()) if not complete else []
            pool.shutdown(wait=complete, cancel_futures=True)
            for p in procs:
                try:
                    p.kill()
                except Exception:
                    pass
        # a check may also do work over the union of everything
        if hasattr(mod, "finish"):
            for sig, msg in mod.finish(tier, states, outcomes):
                viols.append((ncases, None, sig, msg))
    viols.sort(key=lambda v: v[0])
    kf = known_findings(pid)
    real, known_hit = [], set()
    for v in viols:
        hit = None
        for n, f in enumerate(kf):
            if _finding_matches(f, v[1], v[2], v[3]):
                hit = n
                break
        if hit is None:
            real.append(v)
        else:
            known_hit.add(hit)
    for n in sorted(known_hit):
        print(f"KNOWN-FINDING: property={pid} {kf[n]['what']}")
    seen_sig = set()
    out = []
    for v in real:
        if v[2] in seen_sig:
            continue
        seen_sig.add(v[2])
        out.append(v)
        if len(out) >= MAX_REPORT:
            break
    paths = []
    for n, (i, case, sig, msg) in enumerate(out):
        p = os.path.join(EVID, "replays", f"{pid}_{n}.json")
        with open(p, "w") as fh:
            json.dump({"property": pid, "tier": tier, "index": i, "case": case, "sig": sig, "message": msg,
                       "replay": f"cd {VERIF} && ./check replay {p}"}, fh, indent=1, default=str)
        paths.append(p)
    cov = {"states": len(states), "transitions": steps, "traces_validated_against_impl": traces,
           "samples": samples[:3] or ["(none)"], "exhaustive": bool(complete),
           "cases_enumerated": ncases}
    if outcomes:
        cov["outcomes"] = outcomes
    if mod is not None:
        cov["bounds"] = mod.BOUNDS(tier) if callable(getattr(mod, "BOUNDS", None)) else getattr(mod, "BOUNDS", "")
    ev = {"property": pid, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", []) or []) if mod else [],
          "wall_s": round(time.time() - t0, 3), "violations": len(real)}
    with open(os.path.join(EVID, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{pid} [{tier}] cases={ncases} states={len(states)} transitions={steps} traces={traces} "
          f"violations={len(real)} known={len(known_hit)} wall={ev['wall_s']}s outcomes={outcomes}")
    for (i, case, sig, msg), p in zip(out, paths):
        print(f"  case {i}: {sig}: {msg[:600]}")
        print(f"  {json.dumps(case, default=str)[:600]}")
        print(f"VIOLATION property={pid} replay={p}")
    sys.stdout.flush()
    return 1 if real else 0


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    mod = load_check(d["property"])
    ctx = run_case(mod, d["case"])
    for sig, msg in ctx.fails:
        print(f"reproduced {sig}: {msg}")
    if not ctx.fails:
        print("not reproduced")
    return 1 if ctx.fails else 0
