"""Writes /verif/properties.jsonl (kept in git; rerun after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe}})
TS = "quantfinlib/train_test_split/"
p("T01", "K-fold splits never leak test information into training",
  "In every split of the time-aware k-fold, no training sample is a test sample or shares a group with one, no training group lies within the embargo distance before the first test group or within the purge distance after the last test group, and in look-forward mode every training group precedes the test groups. This holds for every sorted grouping (repeated, gapped, integer or date labels, array, series or index) and every fold count, embargo and purge; a setting that cannot be met is rejected with an error instead of yielding a leaking split.",
  ["inputs", "configurations"], "all sorted groupings, group containers, fold counts, embargo and purge lengths, both directions",
  "tests draw a few random groupings with consecutive integers; leakage shows only for particular group shapes at fold boundaries",
  [TS+"kfoldpe.py", TS+"_base.py"], [("fold bound adjustment to group edges", TS+"kfoldpe.py:_modify_fold_bounds"), ("purge and embargo filters", TS+"_base.py:_purge,_embargo")],
  ["pairs yielded by TimeAwareKFold.split"])
p("T02", "K-fold test sets partition the data and training sets are exactly the rest",
  "One pass of the time-aware k-fold cuts the samples into equal-size consecutive folds, moves each cut forward to the end of the group it would split, and yields them in time order so that every sample is tested exactly once (all but the first fold in look-forward mode), with as many splits as announced. Each training set is exactly the samples that the no-leak rules allow, nothing less, and the result is the same for any container of the same data and group values and however many passes run before, after or interleaved.",
  ["inputs", "configurations", "histories"], "all small groupings and settings, all containers, all interleavings of two passes",
  "dropping an allowed sample or skipping one fold passes every no-overlap assertion in the tests",
  [TS+"kfoldpe.py", TS+"_base.py"], [("fold construction", TS+"kfoldpe.py:TimeAwareKFold.split")],
  ["pairs yielded by TimeAwareKFold.split", "get_n_splits"])
p("T03", "Walk-forward splits never train on or after the test window",
  "In every walk-forward split all training groups are strictly earlier than all test groups and none lies within the embargo distance before the first test group; test groups span less than the test window, rolling training groups lie within one training window before the test window, and expanding training always starts at the first sample. This holds for every sorted grouping including gaps and repeats, integer or date labels, and the training set is every sample these rules allow.",
  ["inputs", "configurations"], "all sorted groupings (gapped, repeated), containers, window lengths, embargoes, both window types",
  "tests only use groupings without gaps, where snapping a window edge to an existing group changes nothing",
  [TS+"walk_forward.py", TS+"_base.py"], [("window boundary advance", TS+"walk_forward.py:WalkForward.split"), ("embargo filter", TS+"_base.py:_embargo")],
  ["pairs yielded by WalkForward.split"])
p("T04", "Walk-forward tests every later sample once, independent of history",
  "The test windows of one walk-forward pass tile the time axis after the initial training window in order, so every later sample is tested exactly once and every earlier one never. A pass on a splitter object yields the same splits whatever passes were run, abandoned or interleaved on it before, and the reported number of splits is the number yielded by the most recently completed pass.",
  ["inputs", "histories"], "all small groupings and settings; all histories of complete, abandoned and interleaved passes up to a depth",
  "state accumulated on the splitter shows only after a second or an abandoned pass",
  [TS+"walk_forward.py"], [("split counter and completion flag", TS+"walk_forward.py:WalkForward.split,get_n_splits")],
  ["pairs yielded by WalkForward.split", "get_n_splits"])
SI = "quantfinlib/sim/"
p("S01", "Sampled paths are the exact discretised solution of the model",
  "For every parameter set, correlation matrix, start value, step size, number of steps and number of paths, a sampled Brownian, geometric Brownian or Ornstein-Uhlenbeck path starts at the requested value and each step is the documented exact solution (drift, volatility, mean reversion and correlation as given) applied to its own independent standard normal draws. Column layout is path by path, and changing a parameter changes the path only through that formula.",
  ["inputs", "configurations"], "all models x parameter grids x number of variates, paths, steps x start values x step sizes",
  "tests check shapes; the value of a step is compared with the formula for none of the multi-variate multi-path configurations",
  [SI+"_bm.py", SI+"_gbm.py", SI+"_ou.py", SI+"_base.py"], [("noise and compounding", SI+"_bm.py:_path_sample_np"), ("correlated noise", SI+"_base.py:_fill_with_correlated_noise"), ("start row", SI+"_base.py:set_x0")],
  ["values returned by path_sample"])
p("S02", "Output labels and containers never change the simulated numbers",
  "For the same model, seed, start and step size, every combination of label start, label frequency, column names, dropping the start row, and having been fitted on an array, series or frame (with or without a date index) returns the same numbers; only the container, index, column names and the dropped first row differ, exactly as documented. Columns are named per variate and path in the order of the numbers, and the index starts at the requested label (else at the date of the fitted observation it starts from) and has the requested frequency.",
  ["configurations", "inputs"], "full product of presentation options x fit containers x number of variates and paths",
  "the options interact (columns without index, series without start row, several paths) in a product tests do not cover",
  [SI+"_base.py"], [("answer formatting", SI+"_base.py:_format_ans,_make_columns_names,_make_date_time_index"), ("argument defaults", SI+"_base.py:_preprocess_sim_path_args")],
  ["container, index, columns and values returned by path_sample"])
p("S03", "Sampling is reproducible and calls do not disturb models, data or globals",
  "The same seed and arguments always give the same path, whatever calls preceded, and unseeded calls give different paths. Sampling and likelihood or criterion calls never change any later result of the model, a model never shares state with another model or with the caller's arrays (changing data after construction or fitting has no effect, inputs are never modified), and the global random state is untouched.",
  ["histories"], "all sequences of construct, fit, sample, likelihood, criterion and external-mutation events up to a depth on one or two models",
  "the effect of a hidden write appears only in a later call of a particular sequence",
  [SI+"_base.py", SI+"_bm.py", SI+"_gbm.py", SI+"_ou.py", SI+"_quasi_random.py"], [("fit metadata", SI+"_base.py:_preprocess_fit_x_and_dt"), ("default base model", SI+"_quasi_random.py:QuasiRandom.__init__")],
  ["path_sample, nll, aic, bic results over a history", "numpy global random state", "caller arrays"])
p("S04", "Fitting recovers exactly the parameters that generated the data",
  "Fitting any of the three models to a path generated by the documented equation from noise with exactly zero mean, unit variance and the model's correlation (and, for mean reversion, orthogonal to the level) returns exactly the generating parameters, per column, for every step size, container and number of series. A fitted model can immediately be sampled, and fitting again discards the previous fit completely.",
  ["inputs", "configurations"], "all models x parameter grids x step sizes x number of series x containers",
  "tests fit constant paths where most estimates vanish, so a wrong factor or a wrong column is invisible",
  [SI+"_bm.py", SI+"_gbm.py", SI+"_ou.py", SI+"_base.py"], [("calibration", SI+"_bm.py:_fit_np"), ("calibration", SI+"_gbm.py:_fit_np"), ("calibration", SI+"_ou.py:_fit_np")],
  ["drift, vol, mean, mrr, cor after fit", "path_sample after fit"])
p("S05", "Likelihood and information criteria match the transition density",
  "The negative log-likelihood of a path equals minus the sum of the logarithms of the exact Gaussian transition densities implied by the sampling equation (in log-price increments for the geometric model), for every parameter set, step size, correlation and container. The Akaike and Bayesian criteria are twice that plus two, respectively the log of the number of observed rows, times the number of free parameters.",
  ["inputs", "configurations"], "all models x parameter grids x paths over a small alphabet x step sizes x variates",
  "tests only call these functions without looking at the value",
  [SI+"_bm.py", SI+"_gbm.py", SI+"_ou.py", SI+"_base.py"], [("transition density", SI+"_bm.py:_nll"), ("transition density", SI+"_gbm.py:_nll"), ("transition density", SI+"_ou.py:_nll"), ("criteria", SI+"_base.py:SimNllMixin")],
  ["nll, aic, bic"])
p("S06", "A quasi-random path is the base path plus the lagged scaled signal",
  "A quasi-random path equals the path of its base model under the same seed plus the running sum of the indicator evaluated on that base path, lagged by one step with undefined values counted as zero, and scaled per column to the requested fraction of that column's per-step base volatility. With a zero factor it is the base path, the deviation is proportional to the factor, and the value at any step never uses base values at or after that step except through the one per-path scale.",
  ["inputs", "configurations"], "all base models x factors x indicators x variates, paths, steps, step sizes and seeds in the grid",
  "tests check one mean-reverting indicator up to coarse tolerances on long paths",
  [SI+"_quasi_random.py"], [("signal construction", SI+"_quasi_random.py:_path_sample_np")],
  ["path_sample of QuasiRandom and of its base model"])
p("S07", "Step size follows label frequency, then fitted data, then 1/252",
  "When no step size is given, sampling uses the duration of the label frequency if one with a known duration is given, else the step size used in fitting, else 1/252 year; fitting and likelihoods use the duration of the data's date-index frequency, else 1/252; an explicit step size always wins. Frequency detection returns the right code, and the code the right duration (day 1/365, business day 1/252, week 7/365, month 1/12, quarter 1/4, year 1), for every regular calendar, anchor and phase, even with a date missing.",
  ["inputs", "configurations"], "all frequencies, anchors, start days over several years, lengths; all combinations of given and omitted step size, label frequency and fit data",
  "tests sample a few calendars at one phase; anchored weekly, quarterly and yearly codes are not covered",
  [SI+"_base.py", "quantfinlib/_datatypes/timeseries.py"], [("step size fall-backs", SI+"_base.py:_preprocess_sim_path_args,_preprocess_fit_x_and_dt"), ("frequency detection", "quantfinlib/_datatypes/timeseries.py:time_series_freq"), ("durations", "quantfinlib/_datatypes/timeseries.py:time_series_freq_to_duration")],
  ["path increments", "fitted parameters", "time_series_freq, time_series_freq_to_duration"])
FI = "quantfinlib/feature/indicators/"; FM = "quantfinlib/feature/micro_structure/"; FC = "quantfinlib/feature/structural_breaks/cusumtest.py"
FALL = [FI+"_base.py", FI+"_bands.py", FI+"_macd.py", FI+"_rsi.py", FM+"_price_sequences.py", FM+"_sequential_trade_models.py", FM+"_strategic_trade_models.py", FC]
p("F01", "No feature ever uses future data",
  "For every indicator, band, volatility or spread estimator, trade-model feature and the structural-break statistic, the value at any time depends only on inputs up to that time: cutting the series after that time, or replacing everything after it by arbitrary values (including missing ones), leaves it unchanged. Window features further ignore everything older than the window they are defined on.",
  ["inputs", "histories"], "all series over a small alphabet, every cut point, every replacement of the future, all windows in the grid",
  "look-ahead shows only when a future value differs; tests compute each feature once on one series",
  FALL, [("rolling and exponential windows", FI+"_base.py"), ("edge spread window", FM+"_price_sequences.py:get_edge_spread"), ("running maximum", FC)],
  ["feature values at each index"])
p("F02", "Features treat arrays and series alike and never touch their inputs",
  "Every feature gives the same numbers for arrays as for series with any index, returns an array for arrays and a series on exactly the input's index for series, with one value per input row. Mixing arrays and series, or passing anything else, is rejected; arguments may be passed by position or keyword; inputs are never modified and results never share memory with inputs or with other results.",
  ["inputs", "configurations"], "all features x containers x index kinds x positional/keyword calls x all mixes of containers",
  "index alignment errors need a non-default, duplicate-free but unsorted or offset index that tests do not use",
  FALL, [("container adapter", FI+"_base.py:numpy_io_support"), ("bands", FI+"_bands.py:GenericBands")],
  ["container, index, values of results", "inputs after the call"])
p("F03", "Bounded features stay within their bounds for all valid inputs",
  "For all valid inputs (positive prices with low <= open, close <= high, positive volume) the relative strength index lies in 0..100, lower <= middle <= upper for all bands with a channel of maxima and minima containing the series, the informed-trading probability lies in 0..1, the estimated buy volume in 0..volume, true ranges, volatility estimates, price-impact measures and unsigned spreads are non-negative, and the high-low spread is below 2. Degenerate flat windows give the limiting or an undefined value, never an out-of-range one.",
  ["inputs"], "all valid OHLC/volume series over a small alphabet up to a length, all windows in the grid",
  "tests use random walks in which extremes such as flat, monotone or gapping windows do not occur",
  FALL, [("relative strength", FI+"_rsi.py"), ("bands", FI+"_bands.py"), ("estimators", FM+"_price_sequences.py")],
  ["feature values"])
p("F04", "Every feature equals its published formula evaluated directly",
  "The value of every feature at every time equals the direct evaluation of its documented (or cited) definition on the trailing window, and it is undefined exactly where the definition has no value (incomplete window, zero denominator). This covers means, deviations, extremes, momentum, exponential averages, relative strength, convergence-divergence, all bands, true range, all volatility and spread estimators, informed trading, buy volume, price impact measures and the structural-break statistic with its critical values.",
  ["inputs"], "all series over a small alphabet up to a length x all windows, spans and multipliers in the grid, plus long structured series",
  "tests check most estimators only for being finite and non-negative",
  FALL, [("definitions", FI+"_base.py"), ("definitions", FM+"_price_sequences.py"), ("definitions", FM+"_strategic_trade_models.py")],
  ["feature values"])
p("F05", "Features transform correctly when prices or volumes change unit",
  "Rescaling all prices by any positive constant leaves every return-based feature (relative strength, %B, bandwidth, volatilities, spreads, structural-break statistic) unchanged and multiplies every price-valued feature (averages, deviations, bands, momentum, true range, convergence-divergence) by that constant; adding a constant to prices shifts averages and bands and leaves differences unchanged. Volume features scale with the volume unit by their degree, and price mirroring about a level turns relative strength r into 100 - r.",
  ["inputs"], "all small series x all scale factors and shifts in the grid x windows",
  "an absolute threshold, epsilon or rounding added to one feature only shows at another price scale",
  FALL, [("definitions", FI+"_base.py"), ("definitions", FM+"_price_sequences.py")],
  ["feature values on transformed inputs"])
p("F06", "The edge spread is independent of worker schedule and worker count",
  "The rolling edge spread of a series is the same whatever the number of parallel workers and in whatever order window tasks execute and complete, equals the single-window estimate on each trailing window, and leaves the input unchanged.",
  ["schedules", "inputs"], "all execution orders of up to six window tasks, all worker counts in the grid, all small inputs",
  "the host's scheduler decides the order; a test sees one of them",
  [FM+"_price_sequences.py"], [("parallel window map", FM+"_price_sequences.py:get_edge_spread")],
  ["get_edge_spread result per schedule"])
DI = "quantfinlib/distance/"
p("D01", "Correlation distances are exact, symmetric, bounded and consistent",
  "For every correlation value or valid correlation matrix the angular, absolute and squared angular distances equal their formulas, lie in 0..1, are exactly 0 on the diagonal, symmetric, satisfy the triangle inequality on matrices, and agree between the scalar, pair-of-series, matrix, frame and dataset routes with labels kept. Rescaling or shifting a series by a positive factor changes nothing, reordering series reorders the matrix, matrices that are not square, not symmetric or whose diagonal is not 1 (up to round-off) are rejected, round-off outside -1..1 is clipped, series with missing values are correlated over the rows both have, and inputs are not modified.",
  ["inputs", "configurations"], "grid of correlations incl. +-1 and round-off neighbours, all small valid matrices, all small datasets, both correlation methods",
  "tests compare a few values; metric axioms and route agreement quantify over all triples and routes",
  [DI+"correlation.py", DI+"distance_matrix.py"], [("conversion", DI+"correlation.py:_convert_correlation_to_distance"), ("dataset route", DI+"distance_matrix.py:get_corr_distance_matrix")],
  ["distance values and matrices"])
p("D02", "Entropy, mutual and variation of information obey their identities",
  "For every pair of series and bin count, marginal and joint entropies equal those of the equal-width contingency table; mutual information is symmetric, non-negative and I = H(x)+H(y)-H(x,y); variation of information is symmetric, zero for identical series, V = 2H(x,y)-H(x)-H(y), and satisfies the triangle inequality; normalised versions lie in 0..1; all are invariant to positive rescaling, shifting and joint reordering of samples. The divergence between two series equals its formula on their own histograms, is zero for identical series, and dataset matrices agree entry by entry with the pairwise functions and keep labels; default bin counts (the Hacine-Gharbi and Ravier rule) work for every pair of non-constant series including perfectly (anti-)correlated ones.",
  ["inputs", "configurations"], "all pairs/triples of series over a small alphabet up to a length x bin counts x normalisation, plus structured longer series for default bins",
  "identities must hold for every contingency table; tests use normal samples",
  [DI+"information.py", DI+"distance_matrix.py"], [("entropies", DI+"information.py:compute_entropies"), ("bin selection", DI+"information.py:_get_nb_bins_from_xy"), ("matrix", DI+"distance_matrix.py:_get_info_distance_matrix")],
  ["entropies, mutual_info, var_info, kl_divergence_xy, info distance matrix"])
p("D03", "Matrix divergences are non-negative, zero only at equality, invariant",
  "For every pair of symmetric positive definite matrices the log-determinant and von Neumann divergences equal their formulas, are non-negative, zero exactly when the matrices are equal, and are unchanged by a joint orthogonal change of basis (log-determinant: any joint invertible congruence; scaling both matrices scales the von Neumann divergence). Matrices that are not positive definite are rejected, and inputs are not modified.",
  ["inputs"], "all pairs of small integer-grid positive definite matrices of dimension 1 to 3, all signed permutations and shears in the grid",
  "sign or transposition errors vanish on the diagonal or near-equal matrices tests use",
  [DI+"matrix_divergence.py"], [("divergences", DI+"matrix_divergence.py")],
  ["log_det_divergence, von_neuman_divergence"])
CL = "quantfinlib/clustering/"
p("H01", "Clusters are exact nested partitions independent of route and order",
  "For every dataset, correlation or distance matrix and linkage, asking for k clusters returns a partition into exactly k non-empty groups that is the k-th level of the agglomerative hierarchy of the distance matrix, levels are nested, the linkage matrix encodes that hierarchy, and the answer does not depend on which clusters were asked for before. Starting from data, from its correlation or from its distance matrix, as array or frame, gives the same clusters; renaming or reordering the items only renames or reorders the answer when the hierarchy is unambiguous, and inputs are not modified.",
  ["inputs", "histories", "configurations"], "all small distance matrices over an alphabet without ties, all linkages, all k, all query orders, all routes",
  "tests check one block-structured example",
  [CL+"hierarchical.py", DI+"distance_matrix.py"], [("lazy linkage", CL+"hierarchical.py:HC.linkage"), ("cut", CL+"hierarchical.py:HC.get_clusters")],
  ["get_clusters, linkage"])
p("H02", "Cluster quality scores follow their formulas and are reproducible",
  "For every distance matrix and labelling the gap statistic equals the mean log dispersion of the reference matrices minus the log within-cluster dispersion, with their standard deviation, and the silhouette score equals the mean over standard deviation of the silhouettes; both ignore how clusters are named, how items are ordered (silhouette) and which container is used. The same call always gives the same answer, the global random state and the inputs are left untouched, and whenever its documented rule selects a number of clusters from those scores, that is the recommended number.",
  ["inputs", "histories"], "all labellings of all small distance matrices, both metrics, seeds and bootstrap counts in the grid, histories of calls",
  "tests compare one example; global reseeding is invisible to them",
  [CL+"metrics.py", CL+"hierarchical.py"], [("bootstrap", CL+"metrics.py:gap_statistic"), ("selection rule", CL+"hierarchical.py:optimize_n_clusters")],
  ["gap_statistic, silhouette_tstat, optimize_n_clusters, get_optimal_nclusters", "numpy global random state"])
MC = "quantfinlib/math/cov.py"
p("M01", "Covariance, correlation and eigen representations convert losslessly",
  "Converting a covariance matrix to correlation plus deviations and back, or a correlation matrix to eigenvalues and eigenvectors and back, returns the original for every valid matrix; correlations have unit diagonal and entries within -1..1, deviations are positive; eigenvalues come in decreasing order with orthonormal vectors and any leading subset is the true leading subset; completing a subset keeps the given pairs, the trace and orthonormality. Block-diagonal matrices have exactly the requested blocks, and inputs are never modified.",
  ["inputs"], "all small valid covariance and correlation matrices over a grid, all k",
  "tests cover a single matrix per function",
  [MC], [("conversions", MC+":_cov_to_cor,_cor_to_cov,_cor_to_eig,_eig_to_cor,_eig_complete")],
  ["returned matrices and vectors"])
p("M02", "Denoising keeps signal and totals and returns a valid matrix",
  "Denoising any correlation or covariance matrix returns a symmetric positive semi-definite matrix of the same size with unit diagonal, respectively unchanged variances, without modifying its input; leading eigenvalues judged signal are kept, the rest are replaced by their common mean so the total is preserved, and the number kept is the one requested or, when omitted, the count above the fitted noise edge (unless the matrix is singular with as many samples as assets, where the fit is undetermined). The noise density is zero outside its support and integrates over it to one (to the ratio of time steps to assets when that is less), and the fitted variance is the likelihood maximiser over the search grid.",
  ["inputs", "configurations"], "all small correlation matrices in the grid x sample counts (fewer, equal, more than assets) x requested signal counts",
  "tests check shapes and one example with more samples than assets",
  [MC], [("denoising", MC+":_cor_denoise,_cov_denoise,_eigen_values_denoise"), ("noise law", MC+":_marchenko_pastur_pdf,_marchenko_pastur_fit")],
  ["returned matrices, info"])
p("L01", "The last logging configuration is the one in force",
  "After any history of logger configurations, library imports and library calls, exactly one console handler and, if last requested, exactly one file handler at the last path are active at the last requested verbosity; each message at or above it is delivered once to each active destination and none below it, nothing goes to a superseded file, and the root logger's configuration is unchanged.",
  ["histories"], "all sequences of configure, log, import and library-call events up to a depth, each in a fresh interpreter state",
  "duplicate delivery or a reset verbosity appears only after particular sequences",
  ["quantfinlib/util/_logging.py", DI+"distance_matrix.py", "quantfinlib/datasets/_dataloader.py"], [("handler replacement", "quantfinlib/util/_logging.py:configure_logger"), ("import-time level", DI+"distance_matrix.py")],
  ["records received by handlers and files", "logger level"])
p("R01", "Bundled datasets load faithfully and independently every time",
  "Each dataset loader returns exactly the rows and columns of its bundled file with a strictly increasing date index, missing values only where the file has none, and documented column names, whatever was loaded or done to earlier results before; a missing file is reported as such.",
  ["histories", "inputs"], "all histories of load, mutate-result and missing-file events up to a depth over all loaders",
  "tests load each dataset once",
  ["quantfinlib/datasets/_dataloader.py"], [("loading", "quantfinlib/datasets/_dataloader.py:_load_csv_gz_to_df")],
  ["returned frames"])
p("V01", "Invalid inputs are rejected and valid ones accepted, uniformly",
  "Every entry point guarded for 1-D series or 2-D frames accepts exactly arrays and series (frames) of the right dimension with at least two elements (columns) and rejects everything else with an error before computing anything, whether arguments come by position or keyword, and leaves valid calls and function metadata unchanged. Splitters likewise reject unsorted groups or groups of another length than the data, negative or non-integer embargo or purge, non-integer fold counts and windows, fold counts below two or above the number of samples, windows below one or leaving nothing to test, unknown split types and unsuitable containers, for every combination of one bad argument with good ones, and accept every combination of good ones.",
  ["inputs", "configurations"], "all guarded functions x all argument positions x a menu of bad and good values x call styles",
  "tests try one bad value for one argument of some functions",
  ["quantfinlib/util/_validate.py", TS+"_base.py", TS+"kfoldpe.py", TS+"walk_forward.py"], [("decorators", "quantfinlib/util/_validate.py"), ("splitter validation", TS+"_base.py:BaseCV")],
  ["acceptance or error of each call"])
p("X01", "Concurrent calls return what they would return alone",
  "Calls made at the same time from two threads, on different or on one shared model, splitter, clustering or band object, or on features, metrics, distances, covariances and loaders, each return exactly what they return when run alone, for every interleaving, and leave process-wide settings and random state as they were. (Fitting one shared model from two threads has no meaning and is excluded.)",
  ["schedules"], "all interleavings with a bounded number of preemptions at source-line granularity of two threads over a menu of call pairs",
  "tests are single-threaded",
  [CL+"metrics.py", CL+"hierarchical.py", TS+"walk_forward.py", SI+"_base.py", FI+"_base.py"], [("bootstrap random state", CL+"metrics.py:gap_statistic"), ("lazy linkage", CL+"hierarchical.py:HC.linkage"), ("pass state", TS+"walk_forward.py:WalkForward.split")],
  ["results per thread per schedule"])
p("E01", "A rejected or interrupted call leaves nothing half-done",
  "When a call is rejected for invalid input, or is interrupted at any point by an exception such as Ctrl-C, memory exhaustion or a failing callback, the error reaches the caller, no input is modified, and every later call on the same model, splitter, clustering or band object (or on the same inputs) returns what it would have returned had the failed call never been made. An interrupted fit leaves either the previous or the complete new fit, never a mixture, and an interrupted pass leaves the count of splits of the previous or the new pass.",
  ["crash points", "inputs", "histories"], "all calls of all public objects and functions in the menu x every library line at which they can be interrupted, and all invalid calls in the menu, followed by every call of the menu",
  "unit tests never interrupt a call and look at the error, not at the object after it",
  [SI+"_base.py", SI+"_bm.py", SI+"_gbm.py", SI+"_ou.py", SI+"_quasi_random.py", TS+"walk_forward.py", TS+"kfoldpe.py", CL+"hierarchical.py"],
  [("all-or-nothing fit", SI+"_base.py:SimBase.fit"), ("pass state", TS+"walk_forward.py:WalkForward.split"), ("lazy linkage", CL+"hierarchical.py:HC.linkage")],
  ["results of later calls", "inputs after the call"])
p("G01", "Library calls and imports leave process-wide state untouched",
  "Any module of the library can be imported first or after others, also with *. Importing it and making any call, whether it completes, is rejected or is interrupted at any point, leaves the process as it was: the global random states, numpy error and print settings, pandas options, warning filters, other loggers, environment, working directory, module path, locale, signal handlers and hooks are unchanged, nothing is printed on standard output, and no thread, child process, open file or stray file is left behind.",
  ["inputs", "crash points", "histories"], "all calls and invalid calls of the menu, every library line at which they can be interrupted, all modules as first import and in every order of two",
  "a side effect on the process is invisible to a test that looks at the result, and fault paths are not run by tests at all",
  [SI+"_base.py", CL+"metrics.py", DI+"information.py", "quantfinlib/datasets/_dataloader.py", "quantfinlib/feature/micro_structure/_price_sequences.py"],
  [("random generators", SI+"_base.py:SimBase.path_sample"), ("bootstrap", CL+"metrics.py:gap_statistic"), ("file handles", "quantfinlib/datasets/_dataloader.py")],
  ["snapshot of process-wide state before and after each call"])
p("N01", "Results depend on values, not on how numbers are stored",
  "Every feature, distance, divergence, information measure, clustering, covariance routine and simulation model gives the same result for the same numbers whether they come as signed or unsigned integers of any size, single or double precision, numpy scalars or nullable pandas columns, and whether the memory is contiguous, strided, reversed, transposed, shared or read-only, for all inputs together and for any one of them; no integer ever wraps around and no such input is rejected. (Swapped byte order may be rejected, but never gives another result.)",
  ["inputs", "configurations"], "all functions of the menu x all element types x all memory layouts x arrays, series and frames x each input and all inputs together",
  "tests use float64 arrays; wrap-around appears only for small or unsigned integers with particular values",
  [FI+"_base.py", SI+"_base.py", DI+"correlation.py", DI+"matrix_divergence.py", CL+"hierarchical.py", "quantfinlib/math/cov.py", "quantfinlib/feature/structural_breaks/cusumtest.py"],
  [("input conversion of features", FI+"_base.py:numpy_io_support"), ("input conversion of models", SI+"_base.py:_to_numpy")],
  ["returned values", "acceptance of the input"])
p("C01", "Objects, their copies and other objects never influence each other",
  "Two models, splitters, clusterings or bands of the same kind, made separately or one as a deep, shallow, pickled or joblib-stored copy of the other, never influence each other: after any history of calls on both, every call on either returns exactly what that object would have returned had the other never existed. A copy starts with the state its original had when it was copied.",
  ["histories"], "all histories of calls up to a depth over pairs of objects of each kind, for each way of getting the second object",
  "tests use one object at a time and never copy one; sharing shows only when one object changes between two calls on the other",
  [SI+"_base.py", SI+"_quasi_random.py", TS+"_base.py", TS+"walk_forward.py", CL+"hierarchical.py", FI+"_base.py"],
  [("fitted parameters", SI+"_base.py:SimBase.fit"), ("pass state", TS+"walk_forward.py:WalkForward.split"), ("lazy linkage", CL+"hierarchical.py:HC.linkage")],
  ["results of every call on either object"])
p("K01", "The splitters evaluate exactly their splits inside scikit-learn",
  "Both splitters serve unchanged as the cv of scikit-learn: cross-validation scores, predictions, validation, learning and permutation curves, grid searches (also cloned, nested or run in threads) and iterables made from a pass train and test every model on exactly the documented splits of the data and groups handed over, in order, for every container of samples, targets and groups; a setting with no valid split is rejected, never scored. (A walk-forward splitter announces its number of splits only after a pass, so a grid search on it needs one first.)",
  ["inputs", "configurations"], "all splitter settings in a grid x label patterns x containers x 13 procedures",
  "tests call split directly; a changed argument order, count or index type shows only through the procedures users run",
  [TS+"kfoldpe.py", TS+"walk_forward.py", TS+"_base.py"], [("split and count", TS+"kfoldpe.py:TimeAwareKFold"), ("split and count", TS+"walk_forward.py:WalkForward")],
  ["indices, fitted rows and scores reported by scikit-learn"])
p("V02", "Annotated data types accept exactly the data they describe",
  "Validating with the library's annotated types (index, target, group, fold-bound and sample types, and annotations of arrays, series and frames with any element type, shape, length or columns) accepts exactly the values of the described container, element type and shape, handing back the same object untouched, and rejects every other value with a validation error; a union accepts whatever any of its members accepts, and functions validated with these types behave the same for arguments by position, by keyword and for results.",
  ["inputs", "configurations"], "all annotation parameters in a grid x all values in a grid, all unions of two",
  "no test validates anything with these types",
  ["quantfinlib/util/_custom_types.py", TS+"_dtypes.py"], [("annotations", "quantfinlib/util/_custom_types.py"), ("published types", TS+"_dtypes.py")],
  ["acceptance or error of each validation"])
p("A01", "Omitted arguments mean their documented defaults in every call form",
  "For every public callable and every combination of its optional arguments, an omitted argument means exactly the documented default, named arguments may come in any order, and arguments passed by position are those of the documented order: all call forms of the same combination give the same result (constructors: the same behaviour of the object), and changing one argument from its default never changes what the other omitted ones mean.",
  ["inputs", "configurations"], "all callables x all combinations of default and other values x all splits into positional, named and omitted arguments",
  "tests call each function in one form and mostly state the arguments they rely on",
  [FI+"_base.py", DI+"information.py", CL+"hierarchical.py", SI+"_base.py", "quantfinlib/math/cov.py", TS+"kfoldpe.py", TS+"walk_forward.py"],
  [("signatures", "quantfinlib/feature/indicators/__init__.py")],
  ["results of calls"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P))
