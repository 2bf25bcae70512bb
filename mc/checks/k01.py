"""K01: the splitters serve as cross-validators of scikit-learn: every procedure trains and tests on exactly the documented splits."""
import warnings
from itertools import product

import joblib
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, RegressorMixin, clone
from sklearn.linear_model import Lasso, LassoCV
from sklearn.model_selection import (GridSearchCV, check_cv, cross_val_predict, cross_val_score, cross_validate, learning_curve, permutation_test_score,
                                     validation_curve)

from quantfinlib.train_test_split.kfoldpe import TimeAwareKFold
from quantfinlib.train_test_split.walk_forward import WalkForward

from mc import splitlib as sl

ID = "K01"
TECHNIQUE = "exhaustive enumeration of splitters, data and scikit-learn procedures on the real code against reference splits"
CASE_LIMIT = 300
ASSUMPTIONS = ["scikit-learn as installed, metadata routing off (groups are passed as groups=)",
               "a grid search asks a splitter for its number of splits first, which a walk-forward splitter only knows after a pass (documented); it is given one"]
PROCS = ["check_cv", "validate", "score", "predict", "threads", "grid", "clone", "iterable", "curve", "learning", "permutation", "nested", "lasso"]


def BOUNDS(tier):
    n = (5, 7, 9) if tier == "quick" else (4, 5, 6, 7, 8, 9, 12)
    return (f"procedures {PROCS} x k-fold (2-3 folds, both directions, embargo and purge 0-1) and walk-forward (both kinds, windows 1-3, embargo 0-1) x data of {n} samples in "
            "arrays and frames, targets in arrays and series, continuous, in constant blocks and in two classes, x labels none, integers with repeats and gaps, series, dates")


def labels(n):
    yield "none", None, None
    yield "i64", "i64", [i // 2 for i in range(n)]
    yield "i64 gap", "i64", [i + 2 * (i // 3) for i in range(n)]
    yield "series_i", "series_i", list(range(n))
    yield "dti_D", "dti_D", [i // 5 * 7 + i % 5 for i in range(n)]
    yield "series_dt", "series_dt", [i + (i > n // 2) for i in range(n)]


def splitters():
    for nf, lf, e, p in product((2, 3), (False, True), (0, 1), (0, 1)):
        yield {"k": nf, "lf": lf, "e": e, "p": p}
    for st, tw, w, e in product(("expanding", "rolling"), (2, 3), (1, 2, 3), (0, 1)):
        yield {"w": st, "tw": tw, "tst": w, "e": e}


def cases(tier):
    for n in (5, 7, 9) if tier == "quick" else (4, 5, 6, 7, 8, 9, 12):
        for name, kind, g in labels(n):
            for xk, yk in (("np", "y"), ("df", "ys"), ("np", "blocks"), ("df", "classes")) if tier == "quick" else product(("np", "df"), ("y", "ys", "blocks", "classes", "constant")):
                yield {"n": n, "label": name, "kind": kind, "g": g, "X": xk, "y": yk}


class Sum(RegressorMixin, BaseEstimator):
    """predicts from the training rows it saw, so a prediction tells training and test set"""

    def __init__(self, a=1.0):
        self.a = a

    def fit(self, X, y):
        X = np.asarray(X)
        self.rows_ = [int(v) for v in X[:, 0]]
        self.s_ = self.a * float(sum((i + 1) ** 2 * 3 for i in self.rows_)) + float(np.sum(y))
        return self

    def predict(self, X):
        return self.s_ + np.asarray(X)[:, 0]


def data(case):
    n = case["n"]
    X = np.column_stack([np.arange(n), np.cos(np.arange(n))]).astype(float)
    y = np.sin(np.arange(n) * 1.7) + np.arange(n)
    if case["X"] == "df":
        X = pd.DataFrame(X, columns=["a", "b"], index=[(i * 5) % 97 for i in range(n)])
    if case["y"] in ("blocks", "classes", "constant"):
        y = np.array([{"blocks": i // 4, "classes": i % 2, "constant": 3}[case["y"]] for i in range(n)], dtype=float if case["X"] == "np" else int)
    if case["y"] == "ys" or case["X"] == "df":
        y = pd.Series(y, index=np.arange(n)[::-1])
    return X, y


def make(s, freq):
    if "k" in s:
        return TimeAwareKFold(n_folds=s["k"], n_embargo=s["e"], n_purge=s["p"], look_forward=s["lf"], freq=freq)
    return WalkForward(n_embargo=s["e"], train_window=s["tw"], test_window=s["tst"], split_type=s["w"], freq=freq)


def reference(s, g, ):
    if "k" in s:
        r, must, may = sl.kfold_ref(g, s["k"], s["e"], s["p"], s["lf"])
        return r, must, may and not must
    r, must = sl.walk_ref(g, s["e"], s["tw"], s["tst"], s["w"])
    return r, must, False


def scorer(est, X, y):
    """tells the split apart"""
    return float(sum((i + 1) ** 2 for i in est.rows_)) * 1e4 + float(np.sum((np.asarray(X)[:, 0] + 1) ** 3)) + est.a + float(np.sum(y)) / 64


def run(case, ctx):
    warnings.simplefilter("ignore")
    n = case["n"]
    X, y = data(case)
    A, b = np.asarray(X), np.asarray(y)
    groups = sl.make_groups(case["g"], case["kind"]) if case["kind"] else None
    g = case["g"] if case["g"] is not None else list(range(n))
    freq = sl.freq_of(case["kind"]) if case["kind"] else None
    for s in splitters():
        ref, must, may = reference(s, g)
        if may:
            continue
        sizes = [len(tr) for tr, _ in ref]

        def sc(tr, te, a=1.0):
            return float(sum((i + 1) ** 2 for i in tr)) * 1e4 + float(np.sum((A[te, 0] + 1) ** 3)) + a + float(np.sum(b[te])) / 64

        def primed():
            cv = make(s, freq)
            for _ in cv.split(X, y, groups):
                pass
            return cv

        scores = [sc(tr, te) for tr, te in ref]
        partition = "k" in s and not s["lf"]
        want = {}
        for proc in PROCS:
            tag = f"{proc} with {s}, labels {case['label']}, n={n}"
            ctx.step()
            ctx.state(n, case["label"], case["X"], case["y"], repr(s), proc)
            try:
                if proc == "check_cv":
                    cv = make(s, freq)
                    if check_cv(cv) is not cv or check_cv(cv, y, classifier=True) is not cv:
                        ctx.fail("check_cv", f"{tag}: not accepted as it is")
                    continue
                if proc in ("validate", "threads"):
                    kw = dict(cv=make(s, freq), groups=groups, return_indices=True, return_estimator=True, return_train_score=True, scoring=scorer)
                    if proc == "threads":
                        with joblib.parallel_config("threading", n_jobs=2):
                            r = cross_validate(Sum(), X, y, n_jobs=2, **kw)
                    else:
                        r = cross_validate(Sum(), X, y, **kw)
                    got = ([[int(i) for i in t] for t in r["indices"]["train"]], [[int(i) for i in t] for t in r["indices"]["test"]], [e.rows_ for e in r["estimator"]],
                           list(r["test_score"]), list(r["train_score"]))
                    want = ([tr for tr, _ in ref], [te for _, te in ref], [tr for tr, _ in ref], scores, [sc(tr, tr) for tr, _ in ref])
                elif proc == "score":
                    got, want = list(cross_val_score(Sum(), X, y, groups=groups, cv=make(s, freq), scoring=scorer)), scores
                elif proc == "predict":
                    try:
                        got = list(cross_val_predict(Sum(), X, y, groups=groups, cv=make(s, freq)))
                    except ValueError as e:
                        if "partition" in str(e) and not partition and not must:
                            continue
                        raise
                    want = [0.0] * n
                    for tr, te in ref:
                        m = Sum().fit(A[tr], b[tr])
                        for i, v in zip(te, m.predict(A[te])):
                            want[i] = float(v)
                    if not partition and not must:
                        ctx.fail("predict", f"{tag}: accepted although the test sets do not cover the data")
                        continue
                elif proc in ("grid", "clone"):
                    gs = GridSearchCV(Sum(), {"a": [1.0, 2.0, 0.5]}, cv=primed() if "w" in s else make(s, freq), scoring=scorer, error_score="raise")
                    if proc == "clone":
                        gs = clone(gs)
                    gs.fit(X, y, groups=groups)
                    got = (gs.n_splits_, [[float(gs.cv_results_[f"split{k}_test_score"][j]) for k in range(gs.n_splits_)] for j in range(3)], gs.best_params_)
                    want = (len(ref), [[sc(tr, te, a) for tr, te in ref] for a in (1.0, 2.0, 0.5)], {"a": 2.0})
                elif proc == "iterable":
                    cv = make(s, freq)
                    it = [list(cv.split(X, y, groups)), cv.split(X=X, groups=groups), cv.split(X, y=y, groups=groups)]
                    got, want = [list(cross_val_score(Sum(), X, y, cv=i, scoring=scorer)) for i in it], [scores] * 3
                elif proc == "curve":
                    tr_s, te_s = validation_curve(Sum(), X, y, param_name="a", param_range=[1.0, 3.0], groups=groups, cv=make(s, freq), scoring=scorer)
                    got = (tr_s.tolist(), te_s.tolist())
                    want = ([[sc(tr, tr, a) for tr, _ in ref] for a in (1.0, 3.0)], [[sc(tr, te, a) for tr, te in ref] for a in (1.0, 3.0)])
                elif proc == "learning":
                    at, tr_s, te_s = learning_curve(Sum(), X, y, groups=groups, cv=make(s, freq), train_sizes=[1], scoring=scorer)
                    got = (at.tolist(), te_s.tolist())
                    want = ([1], [[sc(tr[:1], te) for tr, te in ref]])
                elif proc == "permutation":
                    v, _, _ = permutation_test_score(Sum(), X, y, groups=None, cv=list(make(s, freq).split(X, y, groups)), n_permutations=1, scoring=scorer, random_state=0)
                    w, _, _ = permutation_test_score(Sum(), X, y, groups=None, cv=make(s, freq), n_permutations=1, scoring=scorer, random_state=0) if groups is None else (v, 0, 0)
                    got, want = (float(v), float(w)), (float(np.mean(scores)),) * 2 if scores else None
                elif proc == "nested":
                    if min(sizes, default=0) < 4 or must:
                        continue
                    inner = TimeAwareKFold(2, 0, 0)
                    r = cross_validate(GridSearchCV(Sum(), {"a": [1.0, 2.0]}, cv=inner, scoring=scorer), X, y, groups=groups, cv=make(s, freq), return_estimator=True,
                                       scoring=lambda est, X, y: scorer(est.best_estimator_, X, y))
                    got = [[float(e.cv_results_[f"split{k}_test_score"][0]) for k in (0, 1)] for e in r["estimator"]]
                    want = []
                    for tr, _ in ref:
                        h = (len(tr) + 1) // 2
                        want.append([sc(tr[h:], tr[:h]), sc(tr[:h], tr[h:])])
                elif proc == "lasso":
                    if groups is not None or min(sizes, default=0) < 2 or must:
                        continue
                    cv = primed()
                    got = LassoCV(alphas=[0.1, 1.0], cv=cv).fit(A, b).mse_path_.T.round(9).tolist()
                    want = [[round(float(np.mean((Lasso(alpha=a).fit(A[tr], b[tr]).predict(A[te]) - b[te]) ** 2)), 9) for a in (1.0, 0.1)] for tr, te in ref]
                    ok = np.allclose(np.array(got), np.array(want), rtol=1e-4, atol=1e-4)
                    got = want if ok else got
            except ValueError as e:
                ctx.outcome("rejected")
                if not must:
                    ctx.fail("rejected", f"{tag}: {type(e).__name__}: {str(e)[:300]}")
                continue
            except Exception as e:  # noqa
                ctx.fail("error", f"{tag}: {type(e).__name__}: {str(e)[:300]}")
                continue
            ctx.outcome("evaluated")
            if must:
                ctx.fail("not-rejected", f"{tag}: an unsatisfiable setting was evaluated: {str(got)[:200]}")
            elif not same(got, want):
                ctx.fail(proc, f"{tag}: got {str(got)[:400]}, documented splits give {str(want)[:400]}")
        ctx.trace()
    ctx.sample({"n": n, "labels": case["label"], "procedures": PROCS})


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b
