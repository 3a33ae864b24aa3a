#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
D = "pycircstat2/distributions.py"
H = "pycircstat2/hypothesis.py"
C = "pycircstat2/clustering.py"
B = "pycircstat2/base.py"
DE = "pycircstat2/descriptive.py"
R = "pycircstat2/regression.py"
CO = "pycircstat2/correlation.py"
U = "pycircstat2/utils.py"
V = "pycircstat2/visualization.py"
P = []

def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

p("P01", "Concurrent callers of shared distributions get single-caller answers",
  "When several threads use the module-level distribution objects at the same time, every evaluation (pdf, logpdf, cdf, logcdf, sf, logsf, ppf, isf), every draw with its own seed, every freeze and every fit returns exactly what the same call returns when it is the only call in a fresh process. No interleaving makes such a call raise, deadlock or return another caller's result.",
  ["schedules", "programs"],
  "all interleavings, at bytecode granularity, of 2-4 caller threads running 1-4 calls each on any of the 14 shared distribution objects and on frozen copies of them",
  "every test is single-threaded; the shared objects carry parameter-dependent tables and scratch state that only an interleaving can mix up",
  [D], [("shared distribution objects", "one mutable object per family, shared by the whole process", D),
        ("normaliser / table / sampler / series caches", "per-parameter memo on the shared object", D)],
  [("per-parameter cache keys", D), ("results computed from local values rather than from shared scratch fields", D)],
  ["return values of public distribution methods"])

p("P02", "Distribution answers do not depend on what was called before",
  "After any history of calls on the shared distribution objects - other parameters (including nearly equal, swapped or equal-valued ones of another type), other methods, rejected or failing calls, fits, long runs over many parameter sets, and callers overwriting arrays they were given back or had passed in - every evaluation and every seeded draw returns what it returns as the first call of a fresh process, and a frozen distribution answers like the unfrozen one. Fits to the same data likewise return the same estimates and log-likelihood as in a fresh process, up to optimiser tolerance.",
  ["histories"],
  "all call histories on the 14 shared distribution objects (explored: up to 40 mixed calls, and up to 1500 distinct parameter sets on one object)",
  "tests call each method a handful of times with fixed parameters; a wrong cache key, a stale table or an aliased array only shows after a particular earlier call",
  [D], [("normaliser / table / sampler / series caches", "memoised values reused by later calls", D)],
  [("cache keys contain every parameter the cached value depends on", D), ("cached values are never handed out for modification", D)],
  ["return values of public distribution methods"])

p("P03", "An interrupted distribution call leaves no damage behind",
  "If a call on a shared distribution object is cut short at any point by an asynchronous exception (keyboard interrupt, memory exhaustion, or a failure of a numerical routine it calls), the call either raises or still returns its correct value. Every later call on that object and on the other distribution objects returns what it returns in a fresh process.",
  ["crash_points", "histories"],
  "all points at which an evaluation, draw, freeze or fit on any of the 14 shared objects can be interrupted, followed by any further calls",
  "no test interrupts anything; a half-filled cache entry or an unreset flag needs an exception at one particular line",
  [D], [("normaliser / table / sampler / series caches", "must hold only completed values", D)],
  [("values are stored in caches only once fully computed", D)],
  ["return values of public distribution methods after the interrupted call"])

p("P04", "Seeded draws are reproducible and isolated",
  "Drawing from a distribution (shared or frozen) with an explicit integer seed, or with a generator in a given state, returns the same samples for the same parameters, size and seed whatever other calls, seeded or unseeded draws, interruptions or threads came before or ran meanwhile, and an integer seed means the same samples as a fresh numpy stream (Generator or RandomState) made from it. Such a draw consumes randomness from nothing but the source it was given: numpy's global state and the stream behind every distribution's own unseeded draws are left untouched, and successive draws from one generator continue its stream.",
  ["histories", "schedules", "crash_points"],
  "all histories and interleavings of seeded and unseeded draws, evaluations and interrupted draws over the 14 families and their frozen forms",
  "tests draw once with one seed; leaking a stream into shared state or reading the global generator needs other activity around the draw to show",
  [D], [("own random stream of each distribution object", "source of unseeded draws", D), ("numpy global random state", "process-wide stream", "numpy")],
  [("random_state normalisation in the base class", D), ("every sampler draws only from the normalised generator", D)],
  ["samples returned by rvs", "numpy.random.get_state()", "the next unseeded draws"])

p("P05", "Random variates follow the distribution they are drawn from",
  "For every family and all admissible parameters in the explored box, samples drawn with any seeds (many small batches, one large batch, scalar draws, one generator reused or many seeds) are distributed as that family's own cumulative distribution function says, including for skewed and boundary parameter values. Draws taken together, across batches and across seeds, are mutually independent.",
  ["inputs", "histories"],
  "all random streams and all parameter vectors in a stated box per family; decided by pooled goodness-of-fit and serial-dependence tests with false-alarm probability below 1e-9 per comparison",
  "tests look at one seed and compare a mean with a loose tolerance; a sampler that is wrong for some parameters or that reuses randomness between batches passes",
  [D], [("sampler envelopes and tables", "per-parameter proposal constants", D)],
  [("rejection samplers with valid envelopes, inverse-cdf and transformation samplers", D)],
  ["samples returned by rvs against cdf"])

p("P06", "Samplers stay in support, keep shape and finish under any random stream",
  "Whatever the random source delivers - exact zeros, values next to one, long runs of repeated or rejected values, stuck phases - every sampler returns finite angles within [0, 2*pi], in exactly the requested shape, without raising. Once the source behaves like a random source again, the draw finishes after a bounded number of further random numbers.",
  ["fault_sequences", "inputs"],
  "all sequences of extreme or degenerate outputs of the random source, for all 14 families, all sizes including zero, scalar and multi-dimensional, and parameters in the stated box",
  "pseudo-random streams never produce the extreme or degenerate sequences in a test's few thousand draws",
  [D], [("rejection loops", "continue until enough proposals are accepted", D)],
  [("envelope constants that keep the acceptance rate away from zero", D), ("wrapping of samples onto the circle", D)],
  ["shape, dtype, range of rvs", "number of random numbers consumed"])

p("P07", "Density, distribution and quantile functions agree in every reached state",
  "At any time - first use, after any earlier calls, fits and interrupted calls, and while other threads use the same object - each distribution's density is non-negative and integrates to one, its cdf starts at 0, ends at 1, never decreases and equals the integral of the density, sf is its complement, the log functions are its logarithms, and the quantile function inverts it. Scalar, array and frozen calls give the same values.",
  ["histories", "crash_points", "schedules"],
  "all states of the shared objects reachable by call histories, interruptions and interleavings; parameters in a stated box per family; table-based families to their table accuracy",
  "tests compare a few values at a few parameters in a fresh process; tables and normalisers that go wrong only for some parameters or in some states are not reached",
  [D], [("normaliser / cdf table / series caches", "the density and the cdf use different cached values", D)],
  [("series, tables and closed forms for each family", D)],
  ["pdf, logpdf, cdf, sf, logcdf, logsf, ppf, isf"])

p("P08", "Distribution fits report the truth even when the optimiser misbehaves",
  "A maximum-likelihood fit whose optimiser fails, stops early, raises, or returns an out-of-range or non-finite point either raises or returns estimates that are admissible parameters of the family. Whatever estimates it returns, the log-likelihood, effective sample size and convergence flag it reports are those of the returned estimates on the given data and weights, and a fault-free fit is never worse than the method-of-moments start; scaling all weights of a maximum-likelihood fit, reordering the observations or replacing integer weights by repeated observations does not change the quality of the estimates beyond optimiser tolerance.",
  ["fault_sequences", "inputs", "histories"],
  "all placements of optimiser failures within a fit, for every family with a fit of its own, weighted and unweighted, on seeded simulated data",
  "tests fit clean data with a healthy optimiser; the fallback, clipping and error branches are not exercised",
  [D], [("optimiser result", "success flag, point and value used to build estimates and info", D)],
  [("success checks, fallbacks and clipping after each optimisation", D)],
  ["estimates and info returned by fit"])

p("P09", "Monte Carlo tests are reproducible and isolated",
  "The simulation-based tests (bootstrap Rayleigh, Kuiper, Watson, Rao spacing, angular randomisation) return identical results for identical data, options and seed whatever was called before, is running in other threads or was interrupted earlier; an integer seed, the equivalent seed sequence and a fresh generator made from it agree. They consume randomness only from the seed they were given: numpy's global state and the streams of the distribution objects are untouched, and a supplied generator is advanced so that two calls on it use different simulations.",
  ["histories", "schedules", "crash_points"],
  "all histories and interleavings of calls to the five tests, other library calls and interruptions; all accepted seed forms",
  "tests call each once with the default seed",
  [H], [("simulation generator", "built from the seed on each call", H)],
  [("seed normalisation and per-call generators", H)],
  ["result objects", "numpy.random.get_state()", "state of a supplied generator"])

p("P10", "Monte Carlo p-values are valid and agree with their null distribution",
  "Every simulated p-value lies in (0, 1], is one of the values the stated number of simulations can produce, decreases as the test statistic becomes more extreme under the same seed, and across seeds agrees with an independent simulation (or, for small randomisation tests, complete enumeration) of the null distribution of the same statistic. Over data simulated under the null hypothesis, the rejection rate at any level does not exceed that level beyond sampling error.",
  ["inputs", "histories"],
  "all data sets and simulation streams; explored over seeded data from uniform, clustered and tied samples of sizes 4-60, decided with false-alarm probability below 1e-9",
  "tests compare one p-value on one data set with a wide tolerance; bias, off-by-one ranks and wrong null simulations at other sizes or for ties or weights pass",
  [H], [("simulated statistics", "null distribution sample the p-value is read from", H)],
  [("rank-based p-value estimates", H)],
  ["pval and statistic fields of results"])

p("P11", "Bootstrap confidence intervals for the mean behave for every stream",
  "The bootstrap interval for the circular mean is a function of the data (with its weights), level and numpy's global random state only: re-seeding that state reproduces it after any history, and successive calls continue the stream. For every stream both ends are angles in [0, 2*pi], the arc contains the bulk of the resampled means, does not shrink when the level rises under the same stream, contains the sample mean for concentrated data at the usual levels, and moves with the data under rotation; over repeated sampling it covers the true mean at about the stated rate. A Circular object that uses the bootstrap by default can always be built and has the same interval.",
  ["histories", "inputs", "fault_sequences"],
  "all global random states and histories; seeded data sets of sizes 5-200, grouped and ungrouped, anywhere on the circle including across zero",
  "the one test uses one data set far from the wrap-around point and one seed",
  [DE, B], [("numpy global random state", "source of the resampling indices", "numpy")],
  [("resampling and highest-density arc", DE)],
  ["circ_mean_ci(method='bootstrap')", "Circular.mean_lb / mean_ub"])

p("P12", "Mixture models end every fit in a coherent state",
  "After any completed fit of a mixture model - for every initialisation stream, after earlier fits of the same object to other data, and after failed or interrupted fits - weights are non-negative and sum to one, responsibilities sum to one per observation, labels are the most responsible components, component parameters are admissible, and the information criterion is that of the stored parameters. The recorded negative log-likelihoods are those of the successive parameters of this fit (for the von Mises and general mixtures recorded before each update, so the next one would be that of the stored parameters), each update is the EM update of the previous parameters, and the convergence flag and iteration count describe this path. The mixture density is the weighted sum of its components and integrates to one over the circle; predictions are consistent with the stored parameters, with each other, and with the training labels, in every unit.",
  ["histories", "crash_points", "inputs", "fault_sequences"],
  "all initialisation streams and all histories of fits, refits, interruptions and failing component fits of the three mixture classes",
  "tests fit once with one seed on easy data and check shapes; stale state from an earlier fit or an unlucky initialisation is not reached",
  [C], [("fitted attributes of the model object", "overwritten by each fit", C)],
  [("EM loops, degenerate-component handling, final bookkeeping", C)],
  ["attributes and predict methods of MovM, MoKJ, MoCD"])

p("P13", "K-means and hierarchical clustering end in a coherent partition",
  "For every initialisation stream and after any earlier fits, rejected fits or interruptions of the same object, every completed k-means fit leaves one label per observation, finite centres that are the mean directions of their members, and an inertia that matches; each iteration is one update of the previous centres (nearest-centre assignment, then means), and once it has converged each observation belongs to a nearest centre. Hierarchical clustering ends with a partition into the requested number of non-empty clusters (one per observation for smaller samples), centres and resultant lengths that match the members, and a merge history that reproduces the partition, in which every merge joins the two clusters whose mean directions are closest and records their distance and joint size. Predictions of both follow the nearest centre, for angles given in any turn; silhouettes are the average silhouette of the stored partition and lie in [-1, 1].",
  ["histories", "crash_points", "inputs"],
  "all initialisation streams and fit histories; seeded data with clear clusters, ties, duplicates and fewer distinct values than clusters",
  "tests check shapes and one easy data set per class",
  [C], [("labels, centres, merges", "fitted attributes", C)],
  [("assignment / update loop, agglomerative merging", C)],
  ["attributes and predict methods of CircKMeans, CircHAC"])

p("P14", "Seeded clustering is reproducible and isolated",
  "A freshly constructed clustering object with an integer seed, fitted to given data, gives the same labels, parameters and criteria whatever else the process did before, does meanwhile in other threads, or had interrupted; different objects never influence one another. Fitting consumes randomness only from the object's own seed: numpy's global state and other objects' streams are untouched.",
  ["histories", "schedules", "crash_points"],
  "all histories and interleavings of construction, fitting, prediction and interruption over the five clustering classes",
  "tests fit one object per process state and seldom twice",
  [C], [("per-object generator", "initialisation randomness", C), ("default-argument distribution objects", "shared by all models that do not name one", C)],
  [("per-object random generators", C)],
  ["fitted attributes", "numpy.random.get_state()"])

p("P15", "Dataset loading is all-or-nothing under I/O faults",
  "Loading a bundled data set returns either exactly the bundled table (and, on request, its metadata) or raises; missing, unreadable, truncated-to-invalid or failing files, interrupted or short reads never yield a table with missing, altered or foreign rows from an intact file. No load, successful or not, leaks an open file, alters the files, or changes what a later load returns once the fault is gone, and a caller's changes to a returned table never show in a later load.",
  ["fault_sequences", "crash_points", "histories", "schedules"],
  "all placements of open/read/close errors, short and interrupted reads over all bundled data sets, mixed with other loads, in one or several threads",
  "tests load a few files on a healthy disk",
  [U, "pycircstat2/data"], [("bundled csv and metadata files", "read on every call", "pycircstat2/data")],
  [("path construction, csv and json reading with context managers", U)],
  ["DataFrame returned by load_data", "/proc/self/fd"])

p("P16", "The library never modifies its callers' data",
  "No public function, constructor, method or plot modifies arrays, lists, data frames, dictionaries or objects passed to it, whether it returns normally, rejects its input, or is interrupted part-way; repeating a call with the same argument objects gives the same result. Objects that keep data keep their own copy or a value that later changes to the caller's array do not silently corrupt results already computed.",
  ["inputs", "crash_points", "histories"],
  "all public entry points with array, list, frame and dictionary arguments, normal, failing and interrupted",
  "tests build fresh literals for each call and never look at them again",
  [DE, H, CO, R, C, B, D, V, U], [("caller-owned arguments", "arrays and option dictionaries", B)],
  [("functions copy before normalising, wrapping or sorting", DE)],
  ["arguments before and after each call"])

p("P17", "Process-wide state is left as it was found",
  "No library call, whether it returns, raises or is interrupted at any point, changes numpy's error handling, print options or global random state (other than unseeded draws and the bootstrap interval, which are documented to draw), the warning filters, matplotlib's settings, the plotting defaults, the current directory, open files or environment variables.",
  ["crash_points", "histories"],
  "all public entry points, all interruption points",
  "tests do not look at process-wide state, and an interruption is needed for a change that is normally undone",
  [DE, H, CO, R, C, B, D, V, U], [("numpy/matplotlib/warnings global settings", "shared by the whole process", "numpy")],
  [("context managers around temporary settings", D), ("default plot configuration merged into a copy", V)],
  ["global state snapshots around each call"])

p("P18", "Circular objects are stable: use never changes their statistics",
  "The statistics of a Circular or Axial object are the same whether or not it has been summarised, printed, plotted (in any configuration, on working or failing axes), passed to tests, correlations or other functions, or used by several threads at once, and equal the corresponding functional calls on its data at any later time. Building, plotting or discarding other objects, with any options including shared option dictionaries, changes nothing about it.",
  ["histories", "schedules", "crash_points"],
  "all histories and interleavings of building, using, plotting and interrupting Circular and Axial objects",
  "tests build one object and read it once",
  [B, V, DE, H], [("attributes of the object", "computed at construction, read by plots and tests", B), ("option dictionaries", "mean and median interval options, plot configuration", B)],
  [("all statistics computed once at construction", B), ("plot configuration merged into a copy", V)],
  ["attributes, summary(), repr, plotting calls"])

p("P19", "Saved and copied objects answer like the original",
  "At any point of any history, a distribution (shared or frozen), a Circular object, a fitted or half-used clustering model, a regression model or a test result that is pickled and restored in another process, copied or deep-copied answers every evaluation, seeded draw, prediction and statistic like the original does at that point. Using either one afterwards never changes the other's answers (except draws from a stream they are documented to share).",
  ["histories", "crash_points"],
  "all points of call histories at which an object is saved, copied or restored, in the same or a fresh process",
  "tests never pickle or copy",
  [D, B, C, R, H], [("bound argument parsers on distribution instances", "rebuilt on restore", D), ("caches", "carried or rebuilt on restore", D)],
  [("state and constructor-parameter hooks of distribution objects", D)],
  ["restored objects' public methods"])

p("P20", "Analytical functions are re-entrant and history-free",
  "Descriptive statistics, utilities, closed-form tests, correlations and regressions return exactly the same result for the same arguments as the first call of a fresh process, after any history of other library calls (successful, failing or interrupted) and under any interleaving with other threads' calls. Repeating a call gives the same result, and a returned object is not changed by later calls.",
  ["histories", "schedules", "crash_points"],
  "all histories and interleavings of the public functions of the descriptive, utils, hypothesis, correlation and regression modules",
  "tests call each function once per process state",
  [DE, U, H, CO, R], [("module-level state", "none is intended", DE)],
  [("functions compute from their arguments only", DE)],
  ["return values"])

p("P21", "Unseeded draws follow the object's configured random state",
  "Setting the random state of a distribution object or of a frozen distribution fixes its whole later sequence of unseeded draws: setting it again to the same value reproduces the sequence, whatever seeded draws, evaluations, interrupted calls or draws from other objects are interleaved, and consecutive unseeded draws differ. Unseeded draws from one object never advance or reset the stream configured on another.",
  ["histories", "crash_points"],
  "all histories of unseeded and seeded draws, evaluations and interruptions over the 14 families and frozen copies with configured random states",
  "tests pass an explicit random_state or check only shapes",
  [D], [("own random stream of each distribution object", "advanced by unseeded draws", D)],
  [("random_state normalisation in the base class", D)],
  ["samples returned by rvs without random_state"])

# ---- pure functions of their input: listed, not claimed -------------------
p("N01", "Test statistics and p-values are invariant under rotation and reordering",
  "Every uniformity, goodness-of-fit and multi-sample statistic that is rotation-invariant by definition gives the same value after adding a constant angle to all observations or permuting them.",
  ["inputs"], "all samples and all rotations", "tests use fixed textbook samples",
  [H], [], [("statistics computed from spacings, ranks or resultant vectors", H)], ["statistic and pval fields"])
p("N02", "Closed-form p-values are calibrated",
  "For data from the null hypothesis the closed-form tests reject at no more than about the nominal level, and their p-values lie in [0, 1].",
  ["inputs"], "all samples", "tests compare against single textbook values",
  [H], [], [("asymptotic and tabulated null distributions", H)], ["pval fields"])
p("N03", "Descriptive statistics satisfy their defining identities",
  "Mean direction, resultant length, dispersion, moments, medians and quantiles satisfy their definitions for every sample, and integer weights act as repeated observations.",
  ["inputs"], "all samples and weights", "tests compare single textbook values",
  [DE], [], [("trigonometric sums", DE)], ["return values"])
p("N04", "Regressions return stationary points of their likelihood",
  "A converged circular-linear or circular-circular regression satisfies its score equations and its standard errors are those of the information matrix at the estimate.",
  ["inputs"], "all data sets", "tests compare one published data set",
  [R], [], [("iteratively reweighted updates", R)], ["result dictionaries"])
p("N05", "Circular correlations lie in [-1, 1] and respect invariances",
  "Circular-circular correlation lies in [-1, 1], is symmetric in its arguments and invariant under rotation of either; circular-linear correlation is invariant under affine maps of the linear variable.",
  ["inputs"], "all paired samples", "tests compare single values",
  [CO], [], [("correlation formulas", CO)], ["return values"])
p("N06", "Unit conversions round-trip",
  "Converting data to radians and back in any unit and cycle length returns the data modulo the cycle.",
  ["inputs"], "all finite values and cycle lengths", "tests use a few values",
  [U], [], [("modular scaling", U)], ["return values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
