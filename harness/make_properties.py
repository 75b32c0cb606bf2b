#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe_at=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if observe_at: a["observe_at"] = [x.strip() for x in observe_at.replace(";", ",").split(",")]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
core, om, tm = "bayesloop/core.py", "bayesloop/observationModels.py", "bayesloop/transitionModels.py"

p("C01", "Fitted parameter distributions are the exact Bayesian posteriors on the grid",
  "After a full fit, the parameter distribution of every time step is the normalised product of the forward-filtered distribution (prior, transition model and all data up to that step) and the backward message of all later data, i.e. the exact smoothing posterior on the parameter grid; after a forward-only fit it is the filtering posterior that uses data up to that step only. Every distribution is non-negative and sums to one over the grid, and the reported mean values are its expectations. This holds for series of any length without loss of accuracy by under- or overflow.",
  ["inputs", "configurations"], "all data series (any length >= 1, with and without missing values), parameter grids of any dimension/size/spacing, priors, observation models and (nested) transition models with fixed hyper-parameters, both fit modes",
  "tests fix one five-point series and a handful of models and compare a few rounded numbers; a wrong index, a wrong message or a wrong normalisation for other grids, lengths, times or priors stays invisible",
  [core, tm, om], "Study.fit: forward pass (alpha), backward pass (beta), normalisation, posteriorMeanValues", "Study.posteriorSequence, getParameterDistribution(s), getParameterMeanValues")

p("C02", "Model evidence is the exact marginal likelihood, in every fit mode",
  "The log-evidence of a fit equals the logarithm of the data's likelihood, integrated over the prior and all parameter trajectories that the transition model allows, and it is identical for full, forward-only and evidence-only fits. The local evidences of a forward-only or evidence-only fit are the one-step-ahead predictive probabilities whose logarithms add up to the log-evidence, and those of a full fit are the probabilities of each observation given all the others. log10Evidence is the same quantity to base ten.",
  ["inputs", "configurations"], "all data, grids (any lattice spacing), priors, observation and transition models, and all fit modes",
  "tests compare rounded evidence values of a few fits; the factorisation into local evidences, the independence of the grid spacing and the agreement of the fit modes are relations between values that no single sample shows",
  [core], "Study.fit: norm of alpha, lattice constant factor, localEvidence", "Study.logEvidence, log10Evidence, localEvidence")

p("C03", "Transition models transform parameter distributions as documented",
  "Between two time steps every transition model changes the parameter distribution exactly as documented: along the axis of its target parameter only, with its width scaled by the grid spacing, at the documented time steps only (change- and break-points act right after the time stamp given), and without losing or creating probability. Combined models apply their sub-models in the order given and serial models apply the sub-model whose time segment contains the step, with time measured from the start of the segment.",
  ["inputs", "configurations"], "all transition models and nestings, hyper-parameter values, targets, grid shapes and spacings, prior distributions and time stamps",
  "each model is tested on one parameter, one grid and one time; wrong axes, off-by-one change times, offsets of nested segments and wrong scaling only show for other targets, shapes and times",
  [tm], "computeForwardPrior/computeBackwardPrior of every model, SerialTransitionModel model selection and tOffset", "forward-only posteriors, evidence, full posteriors")

p("C04", "Likelihoods follow the stated observation model; missing data are neutral",
  "The likelihood of a data segment is the documented probability (density) of the observation model for every parameter value on the grid, independent observations of one time step multiply, and parameter values outside the support have likelihood zero. A missing observation (NaN) multiplies every parameter value's probability by one and so changes neither posterior nor evidence, and autoregressive models relate each observation to its immediate predecessor.",
  ["inputs", "configurations"], "all built-in observation models and user-defined NumPy/SciPy/SymPy models, all observations including multi-dimensional and (partially) missing ones",
  "tests evaluate each model on one fixed data array; boundary counts, large counts, partially missing vectors and segment alignment are not sampled",
  [om, "bayesloop/preprocessing.py"], "ObservationModel.processedPdf, pdf of every model, movingWindow", "posteriors, evidence, simulate")

p("C05", "Equivalent priors give equal results, for parameters and hyper-parameters",
  "A prior given as an array, as a function or as a SymPy random variable leads to the same posterior and, once normalised on the grid, to the same evidence; positive rescaling of an array or function prior changes nothing. Omitted priors are flat, except for the documented Jeffreys priors of the built-in observation models, and the same rules hold for hyper-priors of transition models on regular and irregular hyper-grids.",
  ["inputs", "configurations"], "all prior representations, scales, dtypes and shapes, for all observation models and hyper-parameters",
  "tests use one prior per representation with values that need no normalisation, so scale, dtype and lattice-constant errors cancel or stay hidden",
  [core, om], "Study._computePrior, HyperStudy._createHyperGrid", "logEvidence, posteriorSequence, hyperParameterDistribution")

p("C06", "Hyper-studies weight every hyper-parameter combination by its evidence",
  "A hyper-study fits every combination of the hyper-parameter values and assigns it a probability proportional to its model evidence times its hyper-prior; the evidence of the average model is the hyper-prior-weighted sum of the evidences. The reported parameter distributions are those of the individual fits averaged with these probabilities, marginal and joint hyper-parameter distributions sum to one and are sums over the remaining hyper-parameters, reported on the axes of the names asked for.",
  ["inputs", "configurations"], "all transition models with one or more hyper-parameter value lists (regular, irregular, nested, single-valued, 'all'), hyper-priors and fit modes",
  "tests check summary numbers for small symmetric hyper-grids; axis order, weights for irregular grids and averaging over differently likely combinations need arbitrary grids",
  [core], "HyperStudy._createHyperGrid, fit, getHyperParameterDistribution, getJointHyperParameterDistribution", "hyperParameterDistribution, logEvidence, logEvidenceList, getHPD, getJHPD, posteriorSequence")

p("C07", "Parallel hyper-study fits give the single-process result",
  "For every number of worker processes, every assignment of hyper-parameter combinations to workers and every completion order, a hyper- or change-point study reports the same evidence, hyper-parameter distribution, local evidence and averaged parameter distributions as with a single process. The study and its models are left as after a single-process fit.",
  ["schedules", "configurations"], "all nJobs >= 1 (also more jobs than combinations, and jobs that do not divide the number of combinations), completion orders, fit modes and study types",
  "tests run two jobs once and look at rounded sums; uneven splits, empty parts, completion orders and combinations with impossible data are never exercised",
  [core], "HyperStudy.fit (ProcessPool map, merge), HyperStudy._parallelFit (array_split)", "logEvidenceList, hyperParameterDistribution, posteriorSequence, localEvidence")

p("C08", "Change-point studies consider exactly the strictly ordered combinations",
  "A change-point study gives non-zero probability exactly to the combinations in which the change-/break-points occur in strictly increasing order of their names in the model, keeps the hyper-prior's ratios among them and renormalises it, and 'all' stands for every time stamp but the last. Marginal, joint and duration distributions are exactly those implied by these probabilities; durations are the positive differences of the two points.",
  ["inputs", "configurations"], "all numbers of change- or break-points, value lists (overlapping, irregular, 'all'), additional hyper-parameters, time stamps and hyper-priors",
  "tests use two change-points on five time steps; equal times, unordered lists, irregular time stamps and extra hyper-parameters between the points are not covered",
  [core], "ChangepointStudy.fit (mask, prior renormalisation), getDurationDistribution", "getHPD, getJHPD, getDD, logEvidence, hyperParameterDistribution")

p("C09", "Feeding data step by step equals fitting it at once",
  "After any number of steps, an online study with one transition model holds the parameter distribution, mean values and log-evidence that a forward-only fit of the same data with time stamps 0, 1, 2, ... yields; with several transition models or hyper-parameter values it holds the corresponding mixture. Data that do not yet fill a segment only delay the first update.",
  ["histories", "inputs", "configurations"], "all data streams and stream lengths, transition models, priors, observation models (including two-point segments and multi-dimensional data), read-outs in between",
  "tests feed five fixed values once; the agreement is a relation between two implementations for every stream and every intermediate read-out",
  [core], "OnlineStudy.step", "getCPD, getPD(s), getCurrentParameterMeanValue, logEvidence, marginalizedPosterior")

p("C10", "Online model and hyper-parameter probabilities follow the data seen so far",
  "After every step, an online study reports for each transition model a probability proportional to its evidence for all data seen so far, a local probability proportional to its prediction of the newest data only, and for the hyper-parameters of each model their posterior; all of them sum to one. With stored history, the distributions and mean values of every past step are reported unchanged for ever after, and a transition model or hyper-parameter value that rules out the data gets probability zero without affecting the others.",
  ["histories", "inputs", "configurations"], "all data streams, sets of transition models and hyper-grids, model priors, and points in the stream at which values are read out",
  "tests read the state once after five steps with models that all explain the data",
  [core], "OnlineStudy.step, hyper-evidence, transition model distributions, history lists, getters", "getCTMD, getCTMP, getTMPs, getTransitionModelDistributions, getHPD, getCHPD, getHPDs, getHyperParameterMeanValue(s)")

p("C11", "A fit depends only on the current data and models, not on the past",
  "The outcome of a fit is determined by the currently loaded data, the currently set models and the fit options: earlier fits (of any mode, successful, failed or interrupted), earlier read-outs, other studies that use the same model objects and the order in which data and models were set make no difference. Results of earlier fits are never reported as results of a later one.",
  ["histories"], "all sequences of load, set, fit, read-out, optimise, save and failing operations on any number of studies that share model objects",
  "tests build a fresh study for every assertion; state that leaks from one fit, study or model object into the next needs histories",
  [core, tm], "Study.fit initialisation, transition-model caches (kernels, study, latticeConstant), hyper-parameter restore", "all results after each fit")

p("C12", "Reading out or plotting results changes nothing; user objects stay untouched",
  "Evaluating distributions, mean values, probabilities, derived quantities, simulations or plots any number of times, in any order, leaves all stored results unchanged, so that every later read-out returns the same values. Data, time stamps, parameter grids, priors, hyper-priors and hyper-parameter values supplied by the user are never modified by fitting or reading out, and values returned earlier do not change later.",
  ["histories"], "all sequences of read-out and plot calls (with all options) between fits and steps, for all study types",
  "tests call each getter once and discard the study",
  [core, "bayesloop/parser.py", om], "getters and plot methods of Study, HyperStudy, ChangepointStudy, OnlineStudy; Parser.__call__; _computePrior", "getters called repeatedly; snapshots of user-supplied arrays")

p("C13", "Probability queries return the probability of the stated event",
  "eval and Parser return, for a comparison of two arithmetic expressions of (hyper-)parameters, the total posterior probability of the value combinations that satisfy it, with parameters taken at the time stamp given by '@' or t, joint within one study and time step and independent across studies and time steps. Without a comparison they return the distribution of the expression, which sums to one; unknown times and names, missing times and more than one comparison are rejected.",
  ["inputs", "histories"], "all queries built from parameters, hyper-parameters, numbers, arithmetic operators, functions and one comparison, on all fitted studies and combinations of studies",
  "tests evaluate seven fixed queries; operator precedence, reversed operands, '==' and '<=' at grid values, and multi-study times need arbitrary queries",
  ["bayesloop/parser.py", core], "Parser.__call__, _evaluate, _operation, _convert", "return value of Study.eval and Parser()")

p("C14", "Saved studies load to identical studies, and failed saves do no harm",
  "Loading a saved study yields a study with the same data, models, results and behaviour: every read-out and every further fit or step returns the same values as the original, for all study types and at any stage of an analysis. If saving fails (the study cannot be serialised), an existing file at that path is left as it was, and saving never alters the study.",
  ["histories", "crash_points"], "all study types, stages (unfitted, fitted, mid-stream), continuations after loading, and failures during serialisation",
  "tests save one fitted study and check that loading does not fail",
  ["bayesloop/fileIO.py"], "save: serialise, then write; load", "file content, read-outs of the loaded study")

p("C15", "Optimisation improves only the selected hyper-parameters and leaves a matching fit",
  "optimize changes only the hyper-parameters it was asked to optimise (all but change- and break-points by default), writes the optimum back to the hyper-parameters of that name, and leaves the study with the complete results of a fit with these values. The evidence at the optimum is not lower than at the start values (up to the optimiser's tolerance), and unknown names are rejected.",
  ["inputs", "configurations"], "all transition models with scalar hyper-parameters (also nested and several), selections of names, data sets",
  "tests optimise one or two parameters of one model; the assignment of optimised values to (nested) parameters and the untouched rest need arbitrary model trees",
  [core, "bayesloop/helper.py"], "Study.optimize, _optimizationStep, _setSelectedHyperParameters, recursiveIndex", "getHyperParameterValue, logEvidence, posteriorSequence")

p("C16", "Invalid configurations are rejected without side effects",
  "Fitting, stepping or configuring with missing data or models, duplicate hyper-parameter names, unordered or miscounted break-points, wrongly shaped priors, hyper-priors or model priors, or unsupported data raises a ConfigurationError (reading out what has not been computed or does not exist raises a PostProcessingError) rather than computing something else. A rejected call leaves the study usable: after correcting the configuration it gives the results of a study that never saw the invalid call.",
  ["inputs", "histories"], "all invalid arguments of the listed kinds, at every point of an analysis",
  "tests contain hardly any negative case and never continue after an error",
  [core, tm, om], "_checkConsistency, constructors, _computePrior, _createHyperGrid, setTransitionModelPrior, getters", "exception class; results after correction")

p("C17", "All read-outs are consistent views of one posterior",
  "Marginal distributions are the sums of the joint posterior over the other parameters, reported with the grid of the parameter asked for, as probability (sum one) or as density (divided by that parameter's grid spacing); single-time, all-times and time-averaged read-outs, mean values and short and long method names agree with each other. simulate returns the posterior predictive distribution of the observations at a time step or averaged over time.",
  ["inputs", "configurations"], "all study types, parameters, time stamps, options (density, avg) and grids",
  "tests check one value of one getter per study type",
  [core], "getParameterDistribution(s), getPD(s), getParameterMeanValues, simulate, Online getters", "return values of the getters")

p("C18", "Results are attached to the right time stamps",
  "Every result is reported for the time stamp of its observation (for autoregressive models the later one of the two), for integer, shifted, unevenly spaced and default time stamps. Shifting all time stamps together with the change-/break-point times leaves all results unchanged, for models without explicit time dependence the labels themselves do not matter, and time stamps whose number does not match the data are replaced by 0, 1, 2, ... .",
  ["inputs", "configurations"], "all strictly increasing time-stamp sequences, data lengths, observation and transition models",
  "tests use default time stamps almost everywhere",
  [core, tm], "loadData, formattedTimestamps, time argument of transition models, time lookup of getters", "getPD(t), eval(t), getHPD, evidence")

p("C19", "Impossible data yield evidence zero and no misleading results",
  "If no parameter trajectory allowed by the model can explain the data, the log-evidence is minus infinity and no parameter distribution is reported, whichever step the contradiction occurs at; a following fit of possible data is unaffected. In hyper- and change-point studies, impossible combinations get probability zero and do not contribute to averages, while the results of the others stay exact.",
  ["inputs", "histories"], "all data that contradict the model at some time step, all study types and fit modes",
  "tests never produce an impossible observation",
  [core], "Study.fit: norm == 0 branch; HyperStudy.fit: finite-evidence guard", "logEvidence, posteriorSequence, hyperParameterDistribution")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
