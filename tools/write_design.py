"""Writes /verif/DESIGN.md: hand-written text plus what the check modules say about their bounds and assumptions."""
import glob
import importlib
import json
import os
import sys
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get("VERIF_REPO", "/repo")]

# how each execution is judged, and why that reaches what the tests cannot
ORACLE = {
    "T01": "Leak predicate evaluated sample by sample on every yielded split (no reference implementation involved): overlap, shared groups, embargo and purge distance, look-ahead.",
    "T02": "`splitlib.kfold_ref`, a pure-Python transcription of the documented rule (equal folds, cut moved to the end of its group, exact complement). Histories: all interleavings of two generators on one splitter, one splitter reused over every grouping in three orders, one label array rewritten in place.",
    "T03": "Leak predicate per split plus the maximality of the training set, evaluated from the labels.",
    "T04": "`splitlib.walk_ref` (tiling of the time axis). Histories of complete, abandoned, closed, zipped and nested passes on one splitter; the reported count is that of the last completed pass.",
    "S01": "The noise of a seed is extracted once per (class, shape, seed) from a unit run, its law is tested deterministically, and every other parameter set must be the closed-form transition applied to that same noise: exact, step by step, for every variate and path.",
    "S02": "The same call without labels gives the numbers; labels, index, names and rows are predicted from pandas alone.",
    "S03": "After every event of every history the model is compared with a new model given only the last fit of the history; the caller's arrays and the global random states are snapshots.",
    "S04": "Data generated with noise of exactly zero mean and unit variance must be recovered; on small alphabets every series is its own generator, so closed-form regression parameters are the oracle.",
    "S05": "Transition densities written out with numpy only (log density of a multivariate normal through its Cholesky factor), parameter counts from the number of series.",
    "S06": "Base path of the same seed plus signal formula, evaluated column by column.",
    "S07": "Path with an explicit step size must equal the path with the inferred one; frequencies are enumerated from pandas' own list, the expected detection comes from the calendar.",
    "F01": "Differential: the value at t for a series and for the same series with any other future (and, for windows, any other distant past) must agree.",
    "F02": "Series result must carry the input's index and equal the array result; inputs are compared byte for byte afterwards; returned objects are overwritten and the call repeated.",
    "F03": "Bounds from the documentation evaluated on every value.",
    "F04": "`featlib`: every feature written as a plain loop from its published formula.",
    "F05": "Metamorphic: result for scaled / shifted / mirrored inputs against the transformed result.",
    "F06": "Controlled joblib backend: every order of task execution for every worker count, tasks sharing memory or isolated; line-level interleavings of adjacent tasks; compared with the sequential result.",
    "D01": "Closed forms on a dense grid and its float neighbours, metric axioms on every matrix, agreement of every route (scalar, pair, matrix, dataset).",
    "D02": "Contingency tables counted in Python; identities (symmetry, chain rule, triangle, invariances) on every pair and triple.",
    "D03": "Formulas through an eigen-decomposition in the reference, axioms and change of basis on every pair.",
    "H01": "Naive agglomeration on the distance matrix; partition, nesting, route and order invariance on every input; histories of cluster requests.",
    "H02": "Silhouette and gap formulas as loops, reference matrices drawn as documented, recommended number re-derived; global random state observed.",
    "M01": "Round trips and defining equations (A v = lambda v, orthonormality, trace) on every matrix and every k.",
    "M02": "Denoised matrix re-derived from the eigen-decomposition; density integrated by quadrature; likelihood recomputed on the whole grid.",
    "L01": "A five-line model (last verbosity, last file) predicts what every destination receives after every event of a history; each history runs in a fresh fork.",
    "R01": "The compressed files are parsed cell by cell with the csv module; histories run on a scratch copy of the package.",
    "V01": "Acceptance predicate per argument; every position, call style and single bad value.",
    "X01": "Line-level cooperative scheduler over two real threads; every schedule within the preemption bound is executed and compared with the sequential results.",
    "E01": "Fault injector raising before every library line a call executes; afterwards every call of the group is compared with an undisturbed twin.",
    "G01": "Monitor over process-wide state before and after every complete, rejected and interrupted call, and every import order of two modules.",
    "N01": "The result for plain float64 arrays is the oracle for every storage variant of the same numbers.",
    "C01": "Each call in a history over two objects is compared with the same history on that object alone.",
    "K01": "Recording estimators report the rows they were fitted and scored on; expected rows, scores and predictions come from the reference splits.",
    "A01": "The documented signature (names, order, defaults) is a table in the check; the reference for a call is the call that names every argument.",
    "V02": "Acceptance predicate of each annotation written from its documentation (numpy's safe-cast table spelled out).",
}
COST = {"X01": "3-4 min", "E01": "1.5-3 min", "D02": "1-1.5 min", "F05": "1-1.5 min", "F01": "1 min", "F03": "1 min", "F04": "1 min", "S03": "1 min", "L01": "1 min", "C01": "0.5-1 min", "T02": "0.5-1 min"}
HEAD = """\
# Model checking quantfinlib

Generated by `tools/write_design.py` (bounds and assumptions are read from the check modules).

Every property is decided by **bounded-exhaustive exploration of the real code**: a finite alphabet of inputs,
configurations, call histories, schedules or fault points is enumerated completely, every member is executed on
/repo's current working tree, and every execution is compared with a reference model (naive, independent
re-implementation of the documented definition) or checked against an invariant. Nothing is sampled: the seed
(VERIF_SEED) only shifts numeric constants that do not matter to coverage, and is recorded. Where there is a model
(`splitlib`, `featlib`, `simlib` and the references inside the checks) it is bound to the code by construction: each
explored model trace is replayed on the implementation and compared step by step (`traces_validated_against_impl`
in the evidence), so no property is ever decided on the model alone.

quantfinlib is a sequential numeric library, so the nondeterminism to own is: inputs and configurations (enumerated
over small alphabets, plus larger structured instances so size thresholds are crossed), call histories (enumerated
to a depth), generator interleavings, the joblib worker schedule (enumerated through a controlled backend), thread
interleavings (enumerated with a bounded number of preemptions by a line-level cooperative scheduler), interruption
points (every library line a call executes), storage of numbers, and random draws (pinned by seed, extracted, and
used as the driving noise of the reference).

* `mc/core.py` - explorer: enumeration, 8 forked workers, per-case watchdog, distinct-state hashing, replay files,
  known findings, evidence. A check that cannot import the library, loses a worker or hangs reports a violation.
* `mc/checks/<id>.py` - one property each: alphabet (`cases`), execution and oracle (`run`), bounds.
* `mc/calls.py` - catalogue of calls (valid and invalid) of every public object and function, used by E01, G01, C01;
  `mc/sched.py` - the cooperative scheduler; `mc/splitlib.py`, `simlib.py`, `featlib.py` - reference models.
* `./check <ID> quick|thorough`, `./check replay <file>`.
* The checks import /repo's working tree directly (pure Python, nothing to build) and write no byte code into it.
* No hooks in /repo. No property is listed as not applicable: all of them are decided by enumeration on the code.

The tests sample a handful of inputs per function on one object in one process; the checks below enumerate whole
neighbourhoods of inputs, orders and fault points, which is where the defects listed at the end were found.

## Properties
"""
TAIL = """\
## Defects found and repaired

All findings so far were genuine and small enough to repair (`fix:` commits in /repo, `known_findings.json`); the
list of open findings is empty.

{fixed}

## Alarms judged false, and what was corrected

* Asking a walk-forward splitter for its number of splits in the middle of a pass, and fitting one shared model from
  two threads, have no documented meaning: excluded from T04/X01 instead of being given one.
* A scalar drift combined with a vector volatility is not supported by the models (documented shapes): S01 uses the
  documented forms only.
* E01 first demanded the old state after every interrupted fit. An interruption after the last effective line of
  `fit` leaves the complete new fit, which is as good: accepted, mixtures are not. A call that no longer reaches the
  chosen line on its second run is not an alarm either.
* N01: swapped byte order is rejected by parts of scipy/pandas, and half, extended and object precision are not
  processed by them at all: a rejection of the former is accepted, the latter are outside.
* G01: file descriptors are compared after garbage collection.
* D01/D03/M01: tolerances are relative to the terms of the formula; ill-conditioned inputs are cut off (see the
  assumptions) because two correct evaluation orders differ there.
* M02: where two eigenvalues coincide at the cut only validity is claimed, since which vector is kept is arbitrary.
* H01: with ties between merges only the number of clusters and nesting are claimed.
* T02: settings the documented size validation rejects may be rejected even where splits would exist.
* S07: month-end dates spaced by a quarter anchored off the calendar are reported as quarters only if they sit on
  calendar quarters; that is what the calendar boundary says, so the property was narrowed.

## Planted bugs

Each lies in `seeded/<id>` (patch, demonstration, meta). All build, pass the repository's tests, and are caught by the
quick check of their property{extra}:

{seeds}

Further evidence: a mutation campaign over the library source (4,881 first-order mutants, of which 1,700 survive the
repository's own tests) was run against the checks; survivors that were not equivalent led to the wider alphabets in
F04, S01, S07, D02, M02 and the extra label containers of T01-T04.

## Limits

* Bounds are those listed per property; nothing is claimed beyond them. Floating-point equality is up to the
  tolerances listed under the assumptions.
* Schedules switch threads only between library source lines; numpy, pandas and scipy calls are atomic.
* Interruptions are exceptions raised before library lines; the process is not killed, since the library keeps no
  state outside the process except log files (L01) and reads only bundled files (R01).
"""


def wrap(t, ind="  "):
    return textwrap.fill(t, 118, initial_indent="", subsequent_indent=ind)


def main():
    out = [HEAD]
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("mc.checks." + p["id"].lower())
        q, t = m.BOUNDS("quick"), m.BOUNDS("thorough")
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(wrap("* Specified: " + p["statement"]))
        out.append(wrap("* Enumerated (quick): " + q))
        if t != q:
            out.append(wrap("* Enumerated (thorough): " + t))
        out.append(wrap("* Oracle: " + ORACLE[p["id"]]))
        out.append(wrap("* Assumptions: " + "; ".join(m.ASSUMPTIONS) + "."))
        out.append(wrap(f"* Beyond the tests: {p['why_tests_cant']}. Cost (quick, 8 cores): {COST.get(p['id'], 'under half a minute')}."))
        out.append("")
    kf = json.load(open(os.path.join(V, "known_findings.json")))
    fixed = "\n".join(wrap("* " + x[len("fixed: property="):]) for x in kf["fixed"])
    seeds = []
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        s = json.load(open(os.path.join(d, "meta.json")))
        seeds.append(wrap(f"* `{os.path.basename(d)}` ({s['property']}): {s['what_it_breaks']}; needs {s['needs']}. Caught by {s.get('caught_by', s['property'])}."))
    out.append(TAIL.format(fixed=fixed, seeds="\n".join(seeds), extra=""))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    main()
