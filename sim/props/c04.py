"""C04: lost and duplicated records change nothing but the information they carry."""

import math

import numpy as np

from sim import analysis as A
from sim.oracle import Dense
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated archive in which a random set of records is lost (only a placeholder of unbounded "
    "noise is left) and another is delivered as two partial copies (same shutter times, split precision), compared "
    "with the exact analysis of the undamaged, merged information; distinct by event order, ties, set of faults, model"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "a lost record is a placeholder whose noise variance is 1e12 times the signal variance",
    "the two copies of a duplicated exposure come from different instruments (exposures of one instrument may not overlap)",
    "agreement is judged to 1e-6 of the signal amplitude, variance and log-likelihood",
]
TOL = 1e-6
BIG = 1e12

STRUCTS = [
    # id, structure, instruments (None: points), records, solver, runs, cost
    ("exp-seq", "Exp", None, 16, "seq", 150, 3),
    ("sho-seq", "SHO", None, 24, "seq", 120, 3),
    ("m32+cos-seq", ["Sum", "Matern32", "Cosine"], None, 20, "seq", 100, 5),
    ("m52-par", "Matern52", None, 17, "par", 120, 5),
    ("sho-par", "SHO", None, 32, "par", 100, 5),
    ("exp*cos-par", ["Product", "Exp", "Cosine"], None, 12, "par", 80, 6),
    ("exp-3i-iseq", "Exp", 3, 16, "iseq", 120, 9),
    ("sho-4i-iseq", "SHO", 4, 20, "iseq", 100, 18),
    ("m32-3i-ipar", "Matern32", 3, 14, "ipar", 100, 14),
    ("sho-3i-ipar", "SHO", 3, 12, "ipar", 80, 22),
    ("exp+m32-3i-iseq", ["Sum", "Exp", "Matern32"], 3, 12, "iseq", 60, 20),
    ("m52-3i-iseq", "Matern52", 3, 12, "iseq", 80, 12),
]


def groups(tier):
    k = 3 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    ni = group["insts"]
    n = group["n"]
    spare = ni is not None  # the last instrument only carries second copies
    ndup = rng.choice([0, 1, 1, 2, 4]) if n > 4 else 0
    t = C.observatory_trace(
        rng, group["struct"], ni, n - ndup, 8, solver=group["solver"], points=not spare,
        used=(ni - 1) if spare else None,
        wide_noise=True,
        **({"rates": (0.02, 0.15, 0.5)} if not spare else {}),
    )
    rec = t["records"]
    # second copies: records of the spare instrument must not overlap one another
    picked, busy = [], -(10**9)
    for k in sorted(range(len(rec)), key=lambda k: (rec[k][0], rec[k][1])):
        if len(picked) < ndup and rec[k][0] >= busy and rng.random() < 0.7:
            picked.append(k)
            busy = rec[k][1]
    while len(rec) + len(picked) < n:  # fewer copies than planned: late independent records instead
        last = max(r[1] for r in rec) + 7
        rec.append([last, last + (4 if spare else 0), 0, 0.5, rec[0][4]])
    copies = []
    for k in picked:
        s, e, i, v, r = rec[k]
        f = rng.choice([0.5, 0.25, 0.01])
        dv = round(rng.gauss(0, 1) * math.sqrt(r), 9)
        # precision f/r with value v+dv and precision (1-f)/r with value v - dv*f/(1-f): merged (v, r)
        copies.append([k, [s, e, (ni - 1) if spare else i, v + dv, r / f], [s, e, i, v - dv * f / (1 - f), r / (1 - f)]])
    lost = [k for k in range(len(rec)) if k not in picked and rng.random() < rng.choice([0.0, 0.1, 0.4])]
    t["copies"], t["lost"] = copies, lost
    t["faults"]["lost"] = len(lost)
    t["faults"]["duplicated"] = len(copies)
    return t


def delivered(trace, var):
    """the archive as delivered: placeholders and partial copies"""
    rec = [list(r) for r in trace["records"]]
    for k in trace["lost"]:
        rec[k][4] = BIG * var
    extra = []
    for k, a, b in trace["copies"]:
        rec[k] = b
        extra.append(a)
    rec += extra
    if trace["insts"] is None:
        rec.sort(key=lambda r: r[0])
    return rec


def check(trace, stats):
    amp, prior = C.scale_of(trace)
    var = max(prior, amp * amp)
    rec = delivered(trace, var)
    X, y, nz = A.coords(rec, trace["unit"], trace["origin"])
    tt, h = C.query_times(trace)
    out = A.run(
        C.spec_in_units(trace), X if trace["insts"] else X[0], y, nz, tt,
        solver=trace["solver"], n_inst=trace["insts"], want=("logp", "data", "test"),
    )
    kept = [r for k, r in enumerate(trace["records"]) if k not in set(trace["lost"])]
    d = C.dense(trace, kept)
    mu, pv = d.predict(h)
    A.expect("prediction", out["mu"], mu, TOL * amp, "predicted mean")
    A.expect("prediction", out["mv"], pv, TOL * prior, "predicted variance")
    mu, pv = d.predict([r[0] for r in rec], [r[1] for r in rec])
    A.expect("posterior", out["loc"], mu, TOL * amp, "posterior mean of every delivered exposure")
    A.expect("posterior", out["var"], pv, TOL * prior, "posterior variance of every delivered exposure")
    ll = d.log_probability() if kept else 0.0
    for k in trace["lost"]:
        ll += -0.5 * math.log(2 * math.pi * BIG * var) - 0.5 * trace["records"][k][3] ** 2 / (BIG * var)
    for k, a, b in trace["copies"]:
        s = a[4] + b[4]
        ll += -0.5 * (a[3] - b[3]) ** 2 / s - 0.5 * math.log(2 * math.pi * s)
    A.expect("log-likelihood", out["logp"], ll, TOL * (1 + len(rec)), "log_probability of the delivered records", TOL)
    A.expect("log-likelihood", out["loglik"], ll, TOL * (1 + len(rec)), "condition().log_probability", TOL)
    C.probes({**trace, "records": rec}, stats)
    stats["digest"] = out["mu"].tobytes().hex()[:64]


def signature(trace):
    return C.signature(trace) + str(trace["lost"]) + str([c[0] for c in trace["copies"]])


def shrink(trace):
    for k in range(len(trace["lost"])):
        yield {**trace, "lost": trace["lost"][:k] + trace["lost"][k + 1 :]}
    if len(trace["queries"]) > 1:
        for q in C.fewer(trace["queries"]):
            yield {**trace, "queries": q}
    for k in range(len(trace["copies"])):
        yield {**trace, "copies": trace["copies"][:k] + trace["copies"][k + 1 :]}
    n = len(trace["records"])
    for keep in C.fewer(list(range(n))):
        new = {k: j for j, k in enumerate(keep)}
        yield {
            **trace,
            "records": [trace["records"][k] for k in keep],
            "lost": [new[k] for k in trace["lost"] if k in new],
            "copies": [[new[k], a, b] for k, a, b in trace["copies"] if k in new],
        }
    for t in C.shrink(trace):
        if len(t["records"]) == n and t["records"] == trace["records"]:
            yield t


describe, size = C.describe, C.size
