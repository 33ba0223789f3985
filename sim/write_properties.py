"""Writes /verif/properties.jsonl (kept as code so that the anchors stay readable)."""

import json
import os

S = "src/smolgp/"
SEQ = [S + "solvers/kalman.py", S + "solvers/rts.py", S + "solvers/solver.py"]
ISEQ = [S + "solvers/integrated/kalman.py", S + "solvers/integrated/rts.py", S + "solvers/integrated/solver.py"]
PAR = [S + "solvers/parallel/kalman.py", S + "solvers/parallel/rts.py", S + "solvers/parallel/solver.py"]
IPAR = [
    S + "solvers/integrated/parallel/kalman.py",
    S + "solvers/integrated/parallel/rts.py",
    S + "solvers/integrated/parallel/solver.py",
]
GP = [S + "gp.py"]
KERN = [S + "kernels/base.py"]
IKERN = [S + "kernels/integrated.py"]
HELP = [S + "helpers.py"]

DOMAIN = (
    "Models: the SHO (any quality, except within 3e-4 of 0.5 without being 0.5), exponential, Matern-3/2, Matern-5/2 and cosine kernels, "
    "and for point measurements also the constant and the periodic kernel of explicit order; their sums, scalings and "
    "(point measurements) products; zero mean function; diagonal positive noise; float64. "
)
EXPO = (
    "Exposures are (midpoint, length, instrument) triples in any order, exposures of one instrument do not overlap, "
    "exposure lengths, gaps and start offsets are zero or at least 3% of the model's shortest time scale, all shutter times exactly representable. "
)
POINT = "Point measurements are in time order, ties allowed. "


def mech(name, where):
    return dict(name=name, where=where)


P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(
        dict(
            id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, state=list(state), mechanism=mechanism, observe_at=observe, hook_needed=None),
        )
    )


prop(
    "C01", "Exposure schedules of any shape are analysed exactly",
    "For every schedule of finite exposures taken by any number of instruments (overlapping, enveloping, back-to-back, "
    "simultaneous, instantaneous, interrupted, lost or separated by outages), the log-likelihood, the posterior mean and "
    "variance of every exposure, and the predicted mean and variance at any instant equal those of exact Gaussian-process "
    "regression in which each datum is the average of the process over its exposure.",
    ["schedules", "inputs", "fault_sequences", "configurations"],
    DOMAIN + EXPO + "Every interleaving of the shutter openings and closings of 1-4 instruments, with records lost, delayed, "
    "duplicated, truncated or reordered on the way; every query instant before, on, between and after the events; the default (sequential) solver.",
    "The tests use two fixed schedules and compare with a dense solution there; which events coincide, envelop or follow one another, "
    "and which state is reset when, differs in every schedule, and the number of interleavings is unbounded.",
    GP + ISEQ + IKERN + KERN + HELP,
    [
        mech("events of all exposures sorted, ends before starts at a tie", S + "helpers.py:sort_events"),
        mech("filter: measure at an exposure end, reset the instrument's integral at a start", S + "solvers/integrated/kalman.py:integrated_kalman_filter"),
        mech("smoother through the resets", S + "solvers/integrated/rts.py:integrated_rts_smoother"),
        mech("retrodict / interpolate / extrapolate", S + "solvers/integrated/solver.py:predict"),
        mech("augmented transition and process noise", S + "kernels/integrated.py"),
    ],
    ["GaussianProcess.log_probability", "GaussianProcess.condition", "GaussianProcess.predict"],
)
prop(
    "C02", "The parallel solvers agree with the sequential ones on any machine",
    "For every data set, the parallel solvers give the same log-likelihood, filtered and smoothed states, posterior and "
    "predictions as the sequential solvers. This holds however the parallel reduction is split over workers, bracketed, "
    "ordered or re-executed after a worker failure.",
    ["schedules", "crash_points", "inputs"],
    DOMAIN + EXPO + POINT + "Every bracketing and operation order of the prefix scans on 1-8 workers, with workers crashing and their unsaved "
    "results recomputed; and XLA's own scan at sizes 1-100 (200 events).",
    "The tests run XLA's one reduction order for a handful of sizes on a CPU; another device, size or library version brackets the scan differently, "
    "and only associativity of the operators for all operands makes that irrelevant.",
    GP + PAR + IPAR + SEQ + ISEQ + HELP,
    [
        mech("associative filtering elements and their combination", S + "solvers/parallel/kalman.py:_combine_per_pair"),
        mech("associative smoothing elements", S + "solvers/parallel/rts.py"),
        mech("integrated elements with resets", S + "solvers/integrated/parallel/kalman.py:make_associative_params"),
        mech("integrated smoothing elements", S + "solvers/integrated/parallel/rts.py:make_associative_params"),
    ],
    ["GaussianProcess(solver=Parallel...)", "jax.lax.associative_scan (seam)"],
)
prop(
    "C03", "The order in which exposures arrive never matters",
    "Permuting the exposures of a data set permutes the posterior of the exposures accordingly and changes nothing else: "
    "not the log-likelihood, not any prediction, and each exposure's result stays attached to that exposure.",
    ["histories", "schedules", "fault_sequences"],
    DOMAIN + EXPO + "Exposure-averaged models with either integrated solver; every arrival order produced by network delay, retransmission, shuffled shards, "
    "time order and reverse order, including exposures that start or end at the same instant.",
    "The tests feed time-sorted arrays; unsorted arrival and the mapping of event-ordered states back to data order is never exercised, and the orders are factorially many.",
    GP + ISEQ + IPAR + HELP,
    [
        mech("event sort and observation ids", S + "solvers/integrated/solver.py:__init__"),
        mech("projection back to data order", S + "gp.py:ConditionedStates.project_at_data"),
        mech("residuals selected at exposure ends", S + "solvers/integrated/kalman.py:IntegratedKalmanFilter"),
    ],
    ["GaussianProcess.condition().gp.loc / variance", "GaussianProcess.predict"],
)
prop(
    "C04", "Lost and split records conserve information exactly",
    "A record whose noise is unbounded carries no information: results equal those of the data set without it, including "
    "its own prediction. Two partial records of the same exposure whose precisions add up are worth exactly the one merged record.",
    ["fault_sequences", "inputs"],
    DOMAIN + EXPO + POINT + "Any subset of records replaced by placeholders of noise 1e12 times the signal variance, any others delivered as two copies "
    "(exposures: from two instruments) with a precision split between 1% and 50%; all four solvers.",
    "No test has missing or duplicated records; which records are hit, and whether they are first, last, tied or enveloped, is a fault sequence.",
    GP + SEQ + PAR + ISEQ + IPAR,
    [
        mech("Kalman gain and innovation variance", S + "solvers/kalman.py:kalman_filter"),
        mech("likelihood from innovations", S + "gp.py:_compute_log_prob"),
        mech("zero-lag transitions between coincident records", S + "kernels/base.py:process_noise"),
    ],
    ["GaussianProcess.log_probability", "GaussianProcess.condition", "GaussianProcess.predict"],
)
prop(
    "C05", "Stopped at any event, the online estimate is exact for what was delivered",
    "At every instant of a campaign the predicted (just before) and filtered (just after) estimates equal exact inference "
    "from exactly the records complete by then, and never depend on later data. The log-likelihood is the sum of the "
    "log-densities of the one-step forecasts, and the smoothed estimate at the last event equals the filtered one.",
    ["crash_points", "histories", "inputs"],
    DOMAIN + EXPO + POINT + "Every shutter event of a campaign as a crash point of the pipeline; all four solvers; the states of the conditioned process.",
    "The tests never look at predicted or filtered states against an independent truth, and a crash point between any two events of any interleaving is a fault schedule.",
    GP + SEQ + PAR + ISEQ + IPAR,
    [
        mech("predict/update recursion", S + "solvers/kalman.py:kalman_filter"),
        mech("predict/update/reset recursion", S + "solvers/integrated/kalman.py:integrated_kalman_filter"),
        mech("predictions and innovations rebuilt after the scan", S + "solvers/integrated/parallel/kalman.py:postprocess"),
    ],
    ["GaussianProcess.condition().gp.states"],
    [dict(name="ConditionedStates", meaning="predicted, filtered and smoothed states in event order", where=S + "gp.py")],
)
prop(
    "C06", "Shared models and sessions behave as values under concurrency and crashes",
    "Kernels, processes and conditioned processes shared by several threads give every caller the answer it would get alone, "
    "whatever the interleaving, the calls made before, calls interrupted half-way, dropped compilation caches, or objects "
    "saved and restored in between. No call changes an object it was given.",
    ["schedules", "crash_points", "histories"],
    DOMAIN + "1-4 threads with scripts of likelihood, conditioning, prediction, component and save/restore calls on shared objects; thread switches at any "
    "line of the library (while jax is not tracing, in compiled mode), interrupts at any line followed by a retry.",
    "The tests are single-threaded and call each object once or twice; hidden state would only show after a particular history or interleaving.",
    GP + KERN + IKERN + SEQ + ISEQ + PAR + IPAR,
    [
        mech("immutable modules", S + "gp.py:GaussianProcess"),
        mech("unique component names on a copy of the kernel", S + "gp.py:assign_unique_kernel_names"),
        mech("a conditioned process holds its own states", S + "gp.py:ConditionedStates"),
    ],
    ["every public method of GaussianProcess"],
)
prop(
    "C07", "Corrupted records and parameters are contained",
    "When a datum, its noise or a model parameter is NaN or infinite, or a noise is too negative to be a variance, the "
    "log-likelihood is minus infinity (or, for an infinite or zero parameter, a number or minus infinity) and never NaN or "
    "plus infinity. Online estimates before the first corrupted record completes are unaffected, and analysing the repaired data afterwards is exact.",
    ["fault_sequences", "inputs", "histories"],
    DOMAIN + EXPO + POINT + "1-3 corruptions (NaN, +inf, -inf; noise NaN, inf or below minus the signal variance; parameter NaN, inf or 0) at any record, all four solvers.",
    "No test injects a corrupted record; samplers and optimisers rely on minus infinity at every bad point, wherever it sits in the stream.",
    GP + SEQ + PAR + ISEQ + IPAR,
    [
        mech("non-finite likelihood becomes -inf", S + "gp.py:_compute_log_prob"),
        mech("causal recursion / prefix scan", S + "solvers/kalman.py"),
    ],
    ["GaussianProcess.log_probability", "GaussianProcess.condition().log_probability", "GaussianProcess.condition().gp.states"],
)
prop(
    "C08", "A prediction depends only on its own query instant",
    "However queries to a conditioned process are batched, ordered, repeated or interleaved, and whether asked with or without "
    "variance, at the data, directly from the unconditioned process or by conditioning at the query points, each query "
    "gets the same answer, and it is the exact posterior at that instant.",
    ["schedules", "histories", "inputs"],
    DOMAIN + EXPO + POINT + "Query instants on, next to, between, before and after every kind of event, in batches of 1-12 in any order; all four solvers.",
    "The tests predict once on one sorted grid; a query exactly on an event, before the first, in a batch of one or out of order takes another branch.",
    GP + [S + "solvers/solver.py", S + "solvers/parallel/solver.py", S + "solvers/integrated/solver.py", S + "solvers/integrated/parallel/solver.py"] + HELP,
    [
        mech("search for the neighbouring states of a query", S + "helpers.py:relevant_states"),
        mech("retrodict / interpolate / extrapolate", S + "solvers/solver.py:predict"),
        mech("shape handling of single points", S + "gp.py:_squeeze_mean"),
    ],
    ["GaussianProcess.predict", "GaussianProcess.condition(y, X_test)"],
)
prop(
    "C09", "Components of the signal are exact and add up",
    "For a model that is a sum, the mean and variance of every component, of any set of components together and of the total, at "
    "the data and at any query instant, equal the exact posterior of that part of the signal, and the component means add "
    "up to the total. Components keep distinct names even when built from equal kernels.",
    ["inputs", "configurations", "schedules"],
    DOMAIN + EXPO + POINT + "Sums of 2-4 terms (nested either way, scaled terms and products as terms, repeated kernels) over simulated campaigns; sequential and parallel solvers.",
    "The tests check one two-component model on one data set; component extraction depends on the shape of the sum and the schedule.",
    GP + KERN + IKERN,
    [
        mech("observation row with the other components zeroed", S + "kernels/base.py:Sum.observation_model"),
        mech("leaf components", S + "kernels/base.py:extract_leaf_kernels"),
        mech("unique names", S + "gp.py:assign_unique_kernel_names"),
        mech("projection", S + "gp.py:PredictedStates.get_component"),
    ],
    ["get_component_mean", "get_all_component_means", "predict(kernel=...)", "predict(return_full_state=True)"],
)
prop(
    "C11", "Clocks, units and labels carry no information",
    "Offsetting every clock by a common amount, changing the time or amplitude unit, renaming or adding instruments, or running "
    "time backwards changes the log-likelihood only by the Jacobian of the amplitude unit, and the posterior and "
    "predictions only by the same change of units.",
    ["configurations", "inputs", "schedules"],
    DOMAIN + EXPO + POINT + "Offsets up to 2^21 time units with exactly representable event times, time units 2^-20 to 2^20, amplitudes 1e-8 to 1e8, every relabelling; all four solvers.",
    "The tests use one convention (small times near zero, unit amplitudes, label order of appearance), so tolerances or formulas tied to it are never seen.",
    GP + KERN + IKERN + HELP + ISEQ + IPAR + SEQ + PAR,
    [
        mech("only time differences enter transitions", S + "kernels/base.py:transition_matrix"),
        mech("event ties relative to the precision of the clock", S + "helpers.py:sort_events"),
        mech("reset and observation blocks by instrument", S + "kernels/integrated.py:reset_matrix"),
    ],
    ["GaussianProcess.log_probability", "GaussianProcess.condition", "GaussianProcess.predict"],
)
prop(
    "C12", "Point-measurement streams are analysed exactly",
    "For every time-ordered stream of point measurements (bursts, exact ties, outages, lost and duplicated records) and every "
    "supported model, the log-likelihood, the posterior mean and variance at the data, and the predicted mean and variance "
    "at any instant equal those of exact Gaussian-process regression with the same covariance function.",
    ["inputs", "configurations", "fault_sequences"],
    DOMAIN + POINT + "Gaps from zero to thousands of time scales; every query instant; the default solver.",
    "The tests compare on one or two fixed random grids per kernel; ties, long gaps, parameter regimes and combinations of kernels are not sampled.",
    GP + SEQ + KERN,
    [
        mech("transition matrix and process noise of each kernel", S + "kernels/base.py"),
        mech("composition of state-space models", S + "kernels/base.py:Sum, Product, Scale"),
        mech("filter, smoother, prediction", S + "solvers/kalman.py, rts.py, solver.py"),
    ],
    ["GaussianProcess.log_probability", "GaussianProcess.condition", "GaussianProcess.predict"],
)

prop(
    "C13", "Every evaluated covariance is the documented one, however exposures overlap",
    "For every pair of instants the covariance evaluated from a state-space kernel or a composition of them, in either argument order, is the "
    "documented function of the lag, and for every pair of exposures (apart, touching, overlapping, enveloping, equal or of zero length) "
    "the dense integrated kernel gives that function averaged over both exposures. The periodic kernel's series stays within the error it states itself, "
    "which for the number of terms it chooses itself is at most 7% of the variance up to gamma = 32.",
    ["schedules", "inputs", "configurations"],
    "All kernels with a closed form, their sums, products and scalings, and the latent covariance of the integrated kernels; the dense SHO and "
    "integrated SHO kernels for quality 0.6 and above in both parameterisations; exposures zero or at least 0.3% of the shortest time scale.",
    "The tests plot or compare a handful of lags; the dense integrated kernel has a separate formula for every way two exposures can relate, and a schedule decides which is used.",
    KERN + IKERN + [S + "kernels/dense.py"],
    [
        mech("covariance from the state space", S + "kernels/base.py:StateSpaceModel.evaluate"),
        mech("case analysis of two exposures", S + "kernels/dense.py:IntegratedSHOKernel.evaluate"),
    ],
    ["kernel(X1, X2)", "kernel(X)", "dense.SHOKernel", "dense.IntegratedSHOKernel"],
)
prop(
    "C14", "The likelihood's gradient is exact at every step of a fit",
    "Wherever a fit takes the parameters, the automatic derivative of the log-likelihood with respect to every model parameter, "
    "every datum and every noise variance is finite and equals the derivative of the exact log-likelihood, and a fit "
    "restarted from a checkpoint retraces its path exactly.",
    ["inputs", "schedules", "configurations"],
    DOMAIN + EXPO + POINT + "All four solvers.",
    "The tests never differentiate; derivatives turn NaN or wrong at ties, zero-length exposures, unselected branches and critical damping, which depend on the schedule and the parameters.",
    GP + KERN + IKERN + SEQ + ISEQ + PAR + IPAR + HELP,
    [
        mech("differentiable filter", S + "solvers/kalman.py"),
        mech("branches selected by lag, quality or tie", S + "kernels/base.py, kernels/integrated.py"),
        mech("log-likelihood", S + "gp.py:GaussianProcess._compute_log_prob"),
    ],
    ["jax.grad of GaussianProcess.log_probability"],
)

prop(
    "C10", "Batched analyses are isolated from one another",
    "When several data sets or parameter sets are analysed in one vectorised batch, every lane's likelihood, posterior and prediction equal "
    "the exact answer to its own request. This holds whatever the other lanes contain (NaN, infinite or negative inputs included), "
    "in whatever order requests are packed, padded, retried or re-batched.",
    ["schedules", "fault_sequences", "inputs"],
    DOMAIN + EXPO + POINT + "jax.vmap over data sets, jax.vmap over parameter walkers of one campaign, and jax.lax.map; 3-5 lanes; all four solvers.",
    "The tests never vectorise; conditionals become selects under vmap, so a branch that is never taken alone runs in every batch, and which branches meet depends on who shares the batch.",
    GP + KERN + IKERN + SEQ + ISEQ + PAR + IPAR + HELP,
    [
        mech("conditionals that become selects", S + "kernels/base.py, kernels/integrated.py"),
        mech("scans over events", S + "solvers/integrated/kalman.py"),
        mech("indices gathered per lane", S + "helpers.py:sort_events, gp.py:project_at_data"),
    ],
    ["jax.vmap / jax.lax.map of GaussianProcess analyses"],
)
prop(
    "C16", "Models, observations and predictions defined by a user are exact as well",
    "For a kernel that supplies only the required matrices, in any state basis, alone, combined with built-in kernels or averaged over "
    "exposures, and for data or predictions observed through a user's observation model (derivatives, time-dependent amplitude), the "
    "likelihood, posterior, predictions and the evaluated covariances equal those of exact Gaussian-process regression with that model.",
    ["schedules", "inputs", "configurations"],
    "User-defined kernels in companion form (exponential, Matern-3/2, Matern-5/2, SHO) rescaled by powers of two; " + EXPO + POINT +
    "The generic transition, process noise, Van Loan and integrated matrices; all four solvers; lags from zero to any outage.",
    "The built-in kernels override the generic matrices, so the tests exercise the documented defaults at best at one lag; long outages, ties and zero-length exposures come from schedules.",
    GP + KERN + IKERN + SEQ + ISEQ + PAR + IPAR,
    [
        mech("default transition matrix and process noise", S + "kernels/base.py:StateSpaceModel"),
        mech("generic integrated matrices", S + "kernels/integrated.py:IntegratedStateSpaceModel"),
        mech("observation model of data and of predictions", S + "kernels/base.py:Wrapper, gp.py:predict"),
    ],
    ["GaussianProcess.log_probability", "GaussianProcess.condition", "GaussianProcess.predict(observation_model=)"],
)
prop(
    "C15", "Between events the state follows one equation, however events split the interval",
    "For every kernel and composition, plain or exposure-averaged, the transition and process-noise matrices over any interval are the exact "
    "solution of the linear stochastic differential equation the kernel declares, whose covariance is the documented one. Stepping through any "
    "subset of intermediate events is the same as one step, a reset clears one instrument's integral and nothing else, and the power spectral "
    "density of a plain kernel is the Fourier transform of its covariance (away from spectral lines).",
    ["schedules", "inputs", "fault_sequences"],
    "All kernels, sums, products, scalings, exposure-averaged versions for 1-3 instruments and user-defined kernels with the default matrices; "
    "every sequence of shutter and query instants with ties, outages and lost events; Van Loan helpers for steps up to two time scales.",
    "The tests never step through intermediate events nor compare the declared equation with the matrices; ties, long outages and tiny steps come from schedules.",
    KERN + IKERN + HELP,
    [
        mech("design, noise and stationary matrices", S + "kernels/base.py"),
        mech("transition and process noise of each kernel", S + "kernels/base.py, kernels/integrated.py"),
        mech("numerical discretisation, Van Loan", S + "helpers.py"),
    ],
    ["StateSpaceModel.transition_matrix / process_noise / design_matrix / noise / stationary_covariance / reset_matrix / psd", "helpers.Q_from_VanLoan", "helpers.Phibar_from_VanLoan"],
)
prop(
    "C17", "Every route through the interface leads to the same, exact answer",
    "However a user states the model (order and grouping of a sum, names), the noise and the solver, and by whichever call they ask for the "
    "likelihood, the posterior, a prediction or a component, the answer is that of exact Gaussian-process regression. Component names are "
    "unique, in the order of the terms, and keep the names the user gave.",
    ["histories", "configurations", "schedules"],
    DOMAIN + EXPO + POINT + "log_probability, condition (with X_test, kernel), predict (conditioned or with y; mean only; full state; kernel; observation model), "
    "get_component(_mean), get_all_component(s/_means), loc, variance; diag array or scalar, noise object; sum(), both groupings, reversed.",
    "Each test uses one route; how the routes combine with models, ties and arrival orders is unbounded.",
    GP + KERN + SEQ + ISEQ + PAR + IPAR,
    [
        mech("conditioning and prediction", S + "gp.py:GaussianProcess.condition, predict"),
        mech("components and names", S + "gp.py:assign_unique_kernel_names, get_component_mean, PredictedStates"),
        mech("projection to observations", S + "kernels/base.py:observation_model"),
    ],
    ["GaussianProcess", "ConditionResult", "PredictedStates"],
)

prop(
    "N04", "Cost is linear in the number of data",
    "Likelihood and conditioning cost is linear in the number of data (logarithmic depth for the parallel solvers).",
    ["inputs"], "All sizes.", "Benchmarks only.", SEQ + PAR, [mech("scan", S + "solvers/kalman.py")], ["wall clock"],
)

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
