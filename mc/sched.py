"""Controlled thread scheduler.

Runs closures on real threads of which exactly one moves at a time.  A scheduling point is every line executed inside the
library (files below REPO/quantfinlib); the schedule is a list of points (counted over the whole run) at which control moves
to the other unfinished thread.  With no switch left a thread runs to its end, then the next unfinished one runs.
Threads that do not come back within BLOCK seconds (waiting for a lock the other thread holds) are parked and the other one runs;
BLOCKED counts those occasions.
"""
import os
import sys
import threading

from mc.core import REPO

LIB = os.path.join(os.path.realpath(REPO), "quantfinlib") + os.sep
BLOCK = 2.0
BLOCKED = 0


_IN = {}


def _inside(path):
    r = _IN.get(path)
    if r is None:
        r = _IN[path] = os.path.realpath(path).startswith(LIB)
    return r


class _T:
    def __init__(self, fn):
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.at = threading.Semaphore(0)
        self.moving = False
        self.done = False
        self.result = None
        self.error = None
        self.points = 0


def run(fns, switches=(), first=0):
    """-> (list of ('ok', value) | ('err', exception), total points, points per thread)"""
    global BLOCKED
    ts = [_T(f) for f in fns]

    def body(t):
        def local(frame, event, arg):
            if event == "line":
                t.points += 1
                t.at.release()
                t.go.acquire()
            return local

        def tr(frame, event, arg):
            return local if event == "call" and _inside(frame.f_code.co_filename) else None

        t.go.acquire()
        sys.settrace(tr)
        try:
            t.result = t.fn()
        except BaseException as e:  # noqa
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            t.at.release()

    threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in ts]
    for th in threads:
        th.start()
    cur, total, misses = first % len(ts), 0, 0
    sw = list(switches)
    while True:
        live = [i for k in range(len(ts)) for i in [(cur + k) % len(ts)] if not ts[i].done]
        if not live:
            break
        cur = live[0]
        t = ts[cur]
        if not t.moving:
            t.moving = True
            t.go.release()
        if not t.at.acquire(timeout=BLOCK):
            misses += 1
            BLOCKED += 1
            if misses > 20:
                raise RuntimeError("threads are deadlocked")
            cur = live[1 % len(live)]
            continue
        t.moving = False
        misses = 0
        total += 1
        if sw and total >= sw[0]:
            sw.pop(0)
            cur = (cur + 1) % len(ts)
    for th in threads:
        th.join(5)
    return [("err", t.error) if t.error is not None else ("ok", t.result) for t in ts], total, [t.points for t in ts]
