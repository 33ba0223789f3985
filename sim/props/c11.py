"""C11: clocks, units and labels are conventions: changing them transforms the result and nothing else."""

import math

import numpy as np

from sim import analysis as A
from sim import model
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign analysed under several conventions: all clocks offset by a common amount, "
    "another time unit, another amplitude unit, instruments relabelled or unused ones registered, and time running "
    "backwards; distinct by event order, ties, arrival order and model"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "clock offsets up to 2^21 time units with event times exactly representable",
    "exposures and gaps are multiples of 3-30% of the shortest time scale of the model (or exactly zero)",
    "agreement is judged to 1e-6 of the signal amplitude, variance and log-likelihood",
]
TOL = 1e-6

STRUCTS = [
    ("exp-seq", "Exp", None, 16, "seq", 80, 4),
    ("sho-seq", "SHO", None, 20, "seq", 80, 4),
    ("m52+cos-seq", ["Sum", "Matern52", "Cosine"], None, 14, "seq", 60, 5),
    ("c*m32+ess-seq", ["Sum", ["Scale", "Matern32"], ["ESS", 3]], None, 12, "seq", 60, 6),
    ("sho-par", "SHO", None, 16, "par", 80, 6),
    ("exp*cos+m32-par", ["Sum", ["Product", "Exp", "Cosine"], "Matern32"], None, 12, "par", 60, 8),
    ("exp-3i-iseq", "Exp", 3, 14, "iseq", 80, 16),
    ("sho-2i-iseq", "SHO", 2, 14, "iseq", 60, 30),
    ("m32-3i-ipar", "Matern32", 3, 12, "ipar", 60, 24),
    ("m52-2i-iseq", "Matern52", 2, 10, "iseq", 60, 16),
    ("cos+exp-2i-iseq", ["Sum", "Cosine", "Exp"], 2, 10, "iseq", 40, 30),
    ("sho-2i-ipar", "SHO", 2, 8, "ipar", 40, 36),
]


def groups(tier):
    k = 3 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    t = C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], 8, solver=group["solver"], points=points,
        unit=1.0, origin=0.0, rates=(0.02, 0.15, 0.5) if points else (0.03, 0.1, 0.3),
    )
    u = 2.0 ** rng.choice([-20, -14, -10, -6, -3, 4, 10, 14, 20])
    views = [
        dict(offset=float(rng.choice([-1, 1]) * rng.choice([1000, 2**16, 2**21]))),
        dict(unit=u),
        dict(unit=2.0 ** rng.choice([-12, -6, 5, 12]), offset=float(rng.choice([-512, 4096]))),
        dict(amp=10.0 ** rng.choice([-8, -3, -1, 2, 4, 8])),
        dict(reverse=True),
    ]
    if not points:
        k = group["insts"]
        perm = list(range(k))
        rng.shuffle(perm)
        views.append(dict(relabel=perm))
        # one more instrument registered, the labels moved up by it
        views.append(dict(relabel=[j + 1 for j in range(k)], insts=k + 1))
    t["views"] = views
    t["faults"]["clock_offset"] = 2
    t["faults"]["unit_change"] = 3
    return t


def analyse(trace, view):
    u, o, a = view.get("unit", 1.0), view.get("offset", 0.0), view.get("amp", 1.0)
    rec = [list(r) for r in trace["records"]]
    h = np.array(trace["queries"], float) / 2
    order = list(range(len(rec)))
    if view.get("reverse"):
        for r in rec:
            r[0], r[1] = -r[1], -r[0]
        h = -h
        if trace["insts"] is None:
            order = order[::-1]
            rec = rec[::-1]
    for r in rec:
        r[2] = view["relabel"][r[2]] if "relabel" in view else r[2]
        r[3], r[4] = r[3] * a, r[4] * a * a
    X, y, nz = A.coords(rec, u, o)
    spec = model.rescale(trace["spec"], u, a)
    n_inst = None if trace["insts"] is None else view.get("insts", trace["insts"])
    out = A.run(
        spec, X if n_inst else X[0], y, nz, o + u * h, solver=trace["solver"], n_inst=n_inst,
        want=("logp", "data", "test"),
    )
    back = np.argsort(order)
    return dict(
        logp=float(out["logp"]) + len(rec) * math.log(a),
        loglik=float(out["loglik"]) + len(rec) * math.log(a),
        loc=out["loc"][back] / a, var=out["var"][back] / a**2, mu=out["mu"] / a, mv=out["mv"] / a**2,
    )


def check(trace, stats):
    amp, prior = C.scale_of(trace)
    n = len(trace["records"])
    ref = analyse(trace, {})
    ll = C.dense(trace).log_probability()
    A.expect("reference", ref["logp"], ll, TOL * (1 + n), "log_probability in the native convention", TOL)
    for view in trace["views"]:
        out = analyse(trace, view)
        w = f"under {view}: "
        A.expect("convention", out["logp"], ref["logp"], TOL * (1 + n), w + "log_probability", TOL)
        A.expect("convention", out["loglik"], ref["loglik"], TOL * (1 + n), w + "condition().log_probability", TOL)
        A.expect("convention", out["loc"], ref["loc"], TOL * amp, w + "posterior mean")
        A.expect("convention", out["var"], ref["var"], TOL * prior, w + "posterior variance")
        A.expect("convention", out["mu"], ref["mu"], TOL * amp, w + "predicted mean")
        A.expect("convention", out["mv"], ref["mv"], TOL * prior, w + "predicted variance")
        stats["views"] += 1
    C.probes(trace, stats)
    stats["digest"] = ref["mu"].tobytes().hex()[:64]


def shrink(trace):
    if len(trace["views"]) > 1:
        for v in trace["views"]:
            yield {**trace, "views": [v]}
    yield from C.shrink(trace)


signature, describe, size = C.signature, C.describe, C.size
