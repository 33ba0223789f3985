"""C07: corruption is contained: bad input means log-probability -inf, never NaN, and the past stays exact."""

import math

import numpy as np

from sim import analysis as A
from sim import model
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign in which records (value or noise) or model parameters are corrupted at "
    "random positions (NaN, +-inf, bit flips that make noise negative), analysed, repaired and analysed again; distinct "
    "by event order, ties, arrival order, model and set of corruptions; at least one corruption each"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "a corrupted value is NaN or infinite; a corrupted noise is NaN, infinite or more negative than any signal variance; "
    "a corrupted parameter is NaN or infinite, or a zero scale",
    "the online estimates before the first corrupted record are compared to 1e-6 with the dense reference model",
]
TOL = 1e-6

STRUCTS = [
    ("exp-seq", "Exp", None, 16, "seq", 150, 4),
    ("sho-seq", "SHO", None, 20, "seq", 120, 4),
    ("m52+exp-seq", ["Sum", "Matern52", "Exp"], None, 14, "seq", 100, 5),
    ("m32-par", "Matern32", None, 16, "par", 120, 5),
    ("sho-par", "SHO", None, 20, "par", 100, 6),
    ("exp*cos-par", ["Product", "Exp", "Cosine"], None, 12, "par", 80, 7),
    ("exp-2i-iseq", "Exp", 2, 12, "iseq", 100, 10),
    ("sho-3i-iseq", "SHO", 3, 12, "iseq", 80, 18),
    ("m32-2i-ipar", "Matern32", 2, 12, "ipar", 80, 16),
    ("cos+exp-2i-ipar", ["Sum", "Cosine", "Exp"], 2, 8, "ipar", 60, 24),
    ("m52-2i-iseq", "Matern52", 2, 10, "iseq", 60, 12),
]


def groups(tier):
    k = 3 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    t = C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], 1, solver=group["solver"], points=points,
        **({"rates": (0.02, 0.15, 0.5)} if points else {}),
    )
    n = len(t["records"])
    bad = {}
    what = rng.choice(["value", "value", "noise", "both", "model"])
    if what != "model":
        for k in rng.sample(range(n), rng.choice([1, 1, 2, 3]) if n > 3 else 1):
            field = {"value": 3, "noise": 4}.get(what) or rng.choice([3, 4])
            val = rng.choice(["nan", "inf", "-inf"] if field == 3 else ["nan", "nan", "inf", "negative"])
            bad[str(k)] = [field, val]
            t["faults"]["corrupt_" + ("value" if field == 3 else "noise")] = t["faults"].get(
                "corrupt_" + ("value" if field == 3 else "noise"), 0
            ) + 1
    t["bad"] = bad
    t["bad_model"] = None
    if what == "model":
        p = model.params(t["spec"])
        t["bad_model"] = [rng.randrange(len(p)), rng.choice(["nan", "inf", "0"])]
        t["faults"]["corrupt_parameter"] = 1
    return t


def corrupted(trace):
    amp, prior = C.scale_of(trace)
    neg = -1e3 * max(prior, amp * amp)
    rec = [list(r) for r in trace["records"]]
    for k, (f, v) in trace["bad"].items():
        if int(k) < len(rec):
            rec[int(k)][f] = neg if v == "negative" else float(v)
    spec = C.spec_in_units(trace)
    if trace["bad_model"]:
        j, v = trace["bad_model"]
        p = model.params(spec)
        if j < len(p):
            p[j] = float(v)
            spec = model.fill(model.structure(spec), iter(p))
    return rec, spec


def analyse(trace, rec, spec):
    X, y, nz = A.coords(rec, trace["unit"], trace["origin"])
    return A.run(
        spec, X if trace["insts"] else X[0], y, nz, None,
        solver=trace["solver"], n_inst=trace["insts"], want=("logp", "data", "states"),
    )


def check(trace, stats):
    rec, spec = corrupted(trace)
    n = len(rec)
    out = analyse(trace, rec, spec)
    sure = bool(trace["bad"]) or (trace["bad_model"] and trace["bad_model"][1] == "nan")
    for key, what in (("logp", "log_probability"), ("loglik", "condition().log_probability")):
        v = float(out[key])
        if math.isnan(v) or v == math.inf:
            raise A.Mismatch("not contained", f"{what} is {v} for corrupted input")
        if sure and v != -math.inf:
            raise A.Mismatch("not contained", f"{what} is {v:.9g} for corrupted input, expected -inf")
    amp, prior = C.scale_of(trace)
    if trace["bad"]:
        # nothing before the first corrupted record completes may be affected
        st = out["states"]
        first = min(trace["records"][int(k)][1] for k in trace["bad"] if int(k) < n)
        H = out["H"][0]
        seen = 0
        for k in range(len(st["t"])):
            o, end = int(st["obsid"][k]), int(st["stateid"][k]) == 1
            tick = trace["records"][o][1 if end else 0]
            if tick >= first:
                break
            seen += 1
            done = [
                trace["records"][i] for i, e in zip(st["obsid"][: k + 1], st["stateid"][: k + 1]) if int(e) == 1
            ]
            sub = C.dense(trace, done)
            mu, var = sub.predict([tick])
            A.expect("past", H @ st["fm"][k], mu[0], TOL * amp, f"online estimate after event {k}, before the corruption")
            A.expect("past", H @ st["fP"][k] @ H, var[0], TOL * prior, f"online variance after event {k}, before the corruption")
        stats["probe:events_before_corruption"] += seen
    # the damage is not remembered: the repaired archive is analysed exactly
    good = analyse(trace, trace["records"], C.spec_in_units(trace))
    d = C.dense(trace)
    ll = d.log_probability()
    A.expect("recovery", good["logp"], ll, TOL * (1 + n), "log_probability after repair", TOL)
    mu, var = d.predict(d.s, d.e)
    A.expect("recovery", good["loc"], mu, TOL * amp, "posterior mean after repair")
    A.expect("recovery", good["var"], var, TOL * prior, "posterior variance after repair")
    stats["digest"] = good["loc"].tobytes().hex()[:64]
    C.probes(trace, stats)


def signature(trace):
    return C.signature(trace) + str(trace["bad"]) + str(trace["bad_model"])


def shrink(trace):
    if len(trace["bad"]) > 1:
        for k in trace["bad"]:
            yield {**trace, "bad": {k: trace["bad"][k]}}
    n = len(trace["records"])
    for keep in C.fewer(list(range(n))):
        new = {str(k): str(j) for j, k in enumerate(keep)}
        bad = {new[k]: v for k, v in trace["bad"].items() if k in new}
        if trace["bad"] and not bad:
            continue
        yield {**trace, "records": [trace["records"][k] for k in keep], "bad": bad}


describe, size = C.describe, C.size
