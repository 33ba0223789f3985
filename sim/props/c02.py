"""C02: the parallel solvers give the sequential result under every execution of their scans."""

import numpy as np

from sim import analysis as A
from sim import machine
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign analysed by the sequential solver and by the parallel solver, whose prefix "
    "scans run on a simulated machine (1-8 workers, random bracketing and order of operations, worker crashes that "
    "destroy unsaved results, re-execution) or on XLA's own scan; distinct by event order, ties, model, bracketing and "
    "crash schedule"
)
REAL = C.REAL + ["the scan's combine operators (smolgp) on the simulated machine; XLA's associative scan in the -xla groups"]
STUBS = C.STUBS + ["jax.lax.associative_scan in the -sim groups: simulated multi-worker machine"]
ASSUMPTIONS = [
    "exposures and gaps are multiples of 3-30% of the shortest time scale of the model (or exactly zero)",
    "agreement with the sequential solver and the dense reference model is judged to 1e-6 of amplitude, variance and log-likelihood",
]
TOL = 1e-6

S = lambda a, b: ["Sum", a, b]  # noqa: E731
STRUCTS = [
    # id, structure, instruments, records, machine, runs, cost
    ("exp-sim", "Exp", None, 16, "sim", 150, 5),
    ("sho-sim", "SHO", None, 24, "sim", 150, 6),
    ("m52-sim", "Matern52", None, 13, "sim", 120, 6),
    ("m32+cos-sim", S("Matern32", "Cosine"), None, 16, "sim", 100, 8),
    ("exp*cos+sho-sim", S(["Product", "Exp", "Cosine"], "SHO"), None, 10, "sim", 80, 10),
    ("sho-xla-3", "SHO", None, 3, "xla", 60, 5),
    ("m32-xla-33", "Matern32", None, 33, "xla", 80, 7),
    ("exp+sho-xla-64", S("Exp", "SHO"), None, 64, "xla", 50, 10),
    ("c*exp+ess-xla-17", S(["Scale", "Exp"], ["ESS", 3]), None, 17, "xla", 60, 9),
    ("const+m52-xla-1", S("Constant", "Matern52"), None, 1, "xla", 30, 6),
    ("m52-xla-100", "Matern52", None, 100, "xla", 40, 10),
    ("m32-xla-300", "Matern32", None, 300, "xla", 12, 12),
    ("exp-2i-sim", "Exp", 2, 10, "sim", 120, 18),
    ("sho-3i-sim", "SHO", 3, 10, "sim", 80, 36),
    ("m32-4i-sim", "Matern32", 4, 8, "sim", 80, 24),
    ("m52-2i-xla-12", "Matern52", 2, 12, "xla", 80, 26),
    ("cos+exp-2i-xla-9", S("Cosine", "Exp"), 2, 9, "xla", 60, 40),
    ("exp-3i-xla-33", "Exp", 3, 33, "xla", 60, 24),
    ("sho-2i-xla-20", "SHO", 2, 20, "xla", 60, 40),
    ("exp-1i-xla-1", "Exp", 1, 1, "xla", 30, 18),
    ("m32-3i-sim-big", "Matern32", 3, 24, "sim", 40, 30),
]


def groups(tier):
    k = 3 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, machine=m, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, m, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    t = C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], 6, points=points,
        wide_noise=True,
        **({"rates": (0.001, 0.02, 0.15, 0.5, 2.0)} if points else {}),
    )
    t["machine"] = group["machine"]
    t["schedules"] = []
    if group["machine"] == "sim":
        n = group["n"] if points else 2 * group["n"]
        for _ in range(2):
            s, stats = machine.schedule(rng, n)
            t["schedules"].append(s)
            for k in ("worker_crash", "reexecuted"):
                t["faults"][k] = t["faults"].get(k, 0) + stats[k]
    return t


WANT = ("logp", "data", "test", "states")


def check(trace, stats):
    machine.install(trace["machine"] == "sim")
    points = trace["insts"] is None
    X, y, nz = A.coords(trace["records"], trace["unit"], trace["origin"])
    X = X[0] if points else X
    tt, h = C.query_times(trace)
    spec = C.spec_in_units(trace)
    n = len(y)

    def analyse(solver):
        return A.run(spec, X, y, nz, tt, solver=solver, n_inst=trace["insts"], want=WANT)

    seq = analyse("seq" if points else "iseq")
    amp, prior = C.scale_of(trace)
    lt = TOL * (1 + n)
    d = C.dense(trace)
    A.expect("sequential", seq["logp"], d.log_probability(), lt, "log_probability of the sequential solver", TOL)
    for sched in trace["schedules"] or [None]:
        if sched is not None:
            machine.arm([sched])
            hits = sum(machine.HITS.values())
        par = analyse("par" if points else "ipar")
        if sched is not None:
            stats["probe:scans_on_simulated_machine"] += sum(machine.HITS.values()) - hits
        how = "" if sched is None else f" ({sched['style']} bracketing)"
        A.expect("log-likelihood", par["logp"], seq["logp"], lt, "parallel log_probability" + how, TOL)
        A.expect("log-likelihood", par["loglik"], seq["loglik"], lt, "parallel condition().log_probability" + how, TOL)
        A.expect("posterior", par["loc"], seq["loc"], TOL * amp, "parallel posterior mean" + how)
        A.expect("posterior", par["var"], seq["var"], TOL * prior, "parallel posterior variance" + how)
        A.expect("prediction", par["mu"], seq["mu"], TOL * amp, "parallel prediction" + how)
        A.expect("prediction", par["mv"], seq["mv"], TOL * prior, "parallel prediction variance" + how)
        A.expect("states", par["states"]["t"], seq["states"]["t"], 0.0, "times of the states" + how)
        A.expect("states", par["states"]["obsid"], seq["states"]["obsid"], 0.0, "records of the states" + how)
        H = seq["H"][0]
        for key in ("p", "f", "s"):
            name = {"p": "predicted", "f": "filtered", "s": "smoothed"}[key]
            A.expect("states", par["states"][key + "m"] @ H, seq["states"][key + "m"] @ H, TOL * amp, f"parallel {name} state" + how)
            a = np.einsum("i,kij,j->k", H, par["states"][key + "P"], H)
            b = np.einsum("i,kij,j->k", H, seq["states"][key + "P"], H)
            A.expect("states", a, b, TOL * prior, f"parallel {name} variance" + how)
    mu, var = d.predict(h)
    A.expect("prediction", par["mu"], mu, TOL * amp, "parallel prediction against the reference model")
    A.expect("prediction", par["mv"], var, TOL * prior, "parallel prediction variance against the reference model")
    mu, var = d.predict(d.s, d.e)
    A.expect("posterior", par["loc"], mu, TOL * amp, "parallel posterior mean against the reference model")
    A.expect("posterior", par["var"], var, TOL * prior, "parallel posterior variance against the reference model")
    C.probes(trace, stats)
    stats["digest"] = par["mu"].tobytes().hex()[:64]


def signature(trace):
    return C.signature(trace) + str([s["rows"] for s in trace["schedules"]])


def describe(trace):
    d = C.describe({k: v for k, v in trace.items() if k != "schedules"})
    d["schedules"] = [dict(style=s["style"], n=s["n"], first_rows=s["rows"][:8]) for s in trace["schedules"]]
    return d


def shrink(trace):
    if len(trace["schedules"]) > 1:
        for s in trace["schedules"]:
            yield {**trace, "schedules": [s]}
    if trace["machine"] == "sim":  # does it need the simulated machine at all?
        yield {**trace, "machine": "xla", "schedules": []}
    for t in C.shrink(trace):
        if len(t["records"]) != len(trace["records"]) and trace["machine"] == "sim":
            t = {**t, "schedules": []}  # left to right
        yield t


size = C.size
