"""C03: the order in which records arrive never matters."""

import numpy as np

from sim import analysis as A
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign whose records reach several analysis clients in different orders "
    "(delay, retransmission, reordering, shuffled shards, time order, reverse order); campaigns are distinct when the "
    "order and ties of shutter events, the first arrival order or the model structure differ; all contain at least "
    "two records"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "exposure-averaged models (point-measurement solvers require time order)",
    "exposures and gaps are multiples of 3-30% of the shortest time scale of the model (or exactly zero)",
    "agreement between arrival orders is judged to 1e-7 of the signal amplitude",
]
TOL = 1e-7

STRUCTS = [
    ("exp-2i-iseq", "Exp", 2, 12, "iseq", 150, 8),
    ("exp-3i-ipar", "Exp", 3, 12, "ipar", 150, 10),
    ("sho-3i-iseq", "SHO", 3, 20, "iseq", 120, 16),
    ("sho-2i-ipar", "SHO", 2, 16, "ipar", 120, 20),
    ("m32-4i-iseq", "Matern32", 4, 40, "iseq", 60, 12),
    ("m52-2i-ipar", "Matern52", 2, 12, "ipar", 80, 14),
    ("cos-2i-iseq", "Cosine", 2, 8, "iseq", 80, 9),
    ("exp+m32-2i-iseq", ["Sum", "Exp", "Matern32"], 2, 10, "iseq", 80, 18),
    ("exp-2i-2rec", "Exp", 2, 2, "iseq", 100, 7),
    ("exp+cos-3i-ipar", ["Sum", "Exp", "Cosine"], 3, 10, "ipar", 60, 24),
]


def groups(tier):
    k = 3 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    t = C.observatory_trace(rng, group["struct"], group["insts"], group["n"], 6, solver=group["solver"], wide_noise=True)
    n = len(t["records"])
    orders = []
    by_time = sorted(range(n), key=lambda k: (t["records"][k][1], t["records"][k][0], t["records"][k][2]))
    orders.append(by_time)
    orders.append(by_time[::-1])
    o = list(range(n))
    rng.shuffle(o)
    orders.append(o)
    # one shard per instrument, merged shard after shard
    orders.append(sorted(range(n), key=lambda k: (-t["records"][k][2], rng.random())))
    # a late burst: some records are held back to the end
    late = [k for k in range(n) if rng.random() < 0.3]
    orders.append([k for k in range(n) if k not in late] + late)
    t["orders"] = orders
    t["faults"]["arrival_order"] = len(orders)
    return t


def analyse(trace, records):
    X, y, nz = A.coords(records, trace["unit"], trace["origin"])
    tt, _ = C.query_times(trace)
    return A.run(
        C.spec_in_units(trace), X, y, nz, tt, solver=trace["solver"], n_inst=trace["insts"],
        want=("logp", "data", "test", "components"),
    )


def check(trace, stats):
    rec = trace["records"]
    ref = analyse(trace, rec)
    amp, prior = C.scale_of(trace)
    stats["digest"] = ref["mu"].tobytes().hex()[:64]
    C.probes(trace, stats)
    for o in trace["orders"]:
        o = [k for k in o if k < len(rec)]
        if o != list(range(len(rec))):
            stats["probe:orders_that_differ"] += 1
        out = analyse(trace, [rec[k] for k in o])
        lt = TOL * (1 + len(rec))
        A.expect("log-likelihood", out["logp"], ref["logp"], lt, "log_probability in another arrival order", TOL)
        A.expect("log-likelihood", out["loglik"], ref["loglik"], lt, "condition().log_probability in another arrival order", TOL)
        A.expect("posterior", out["loc"], ref["loc"][o], TOL * amp, "posterior mean of the same record")
        A.expect("posterior", out["var"], ref["var"][o], TOL * prior, "posterior variance of the same record")
        A.expect("prediction", out["mu"], ref["mu"], TOL * amp, "prediction")
        A.expect("prediction", out["mv"], ref["mv"], TOL * prior, "prediction variance")
        for k, (a, b) in enumerate(zip(out["cd"], ref["cd"])):
            A.expect("component", a[0], b[0][o], TOL * amp, f"mean of component {k} for the same record")
            A.expect("component", a[1], b[1][o], TOL * prior, f"variance of component {k} for the same record")
        for k, (a, b) in enumerate(zip(out["ct"], ref["ct"])):
            A.expect("component", a[0], b[0], TOL * amp, f"predicted mean of component {k}")


def shrink(trace):
    if len(trace["orders"]) > 1:
        for o in trace["orders"]:
            yield {**trace, "orders": [o]}
    for t in C.shrink(trace):
        if len(t["records"]) != len(trace["records"]):
            # keep the orders valid: positions of the kept records
            n = len(t["records"])
            keep = [k for k, r in enumerate(trace["records"]) if any(r is q for q in t["records"])]
            if len(keep) != n or n < 2:
                continue
            new = {k: j for j, k in enumerate(keep)}
            t = {**t, "orders": [[new[k] for k in o if k in new] for o in trace["orders"]]}
        yield t


signature, describe, size = C.signature, C.describe, C.size
