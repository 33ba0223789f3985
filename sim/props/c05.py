"""C05: at every crash point the online estimate is the exact inference from what was delivered."""

import math

import numpy as np

from sim import analysis as A
from sim.oracle import exposure_cov
from sim.props import common as C

LEVEL = "fault_enumeration"
RULE = (
    "one evaluation = one simulated campaign; the pipeline is stopped after every single shutter event (crash points "
    "are enumerated, campaigns are sampled) and its online (predicted, filtered) estimate is compared with the dense "
    "reference model of the records complete at that instant; then everything after one random crash point is "
    "replaced and the estimates before it must not move; distinct by event order, ties, arrival order and model"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "the online estimate is read from the conditioned process (predicted and filtered states in time order)",
    "exposures and gaps are multiples of 3-30% of the shortest time scale of the model (or exactly zero)",
    "agreement is judged to 1e-6 of the signal amplitude and variance; the past is compared to 1e-9",
]
TOL = 1e-6
SAME = 1e-9

STRUCTS = [
    ("exp-seq", "Exp", None, 20, "seq", 80, 4),
    ("sho-seq", "SHO", None, 24, "seq", 80, 4),
    ("m52+cos-seq", ["Sum", "Matern52", "Cosine"], None, 16, "seq", 60, 5),
    ("m32-par", "Matern32", None, 24, "par", 80, 5),
    ("sho+exp-par", ["Sum", "SHO", "Exp"], None, 16, "par", 60, 8),
    ("exp*cos-par", ["Product", "Exp", "Cosine"], None, 12, "par", 60, 7),
    ("exp-3i-iseq", "Exp", 3, 16, "iseq", 60, 10),
    ("sho-3i-iseq", "SHO", 3, 14, "iseq", 60, 20),
    ("m52-2i-iseq", "Matern52", 2, 12, "iseq", 60, 12),
    ("m32-4i-ipar", "Matern32", 4, 14, "ipar", 60, 16),
    ("sho-2i-ipar", "SHO", 2, 12, "ipar", 60, 22),
    ("exp+m32-2i-iseq", ["Sum", "Exp", "Matern32"], 2, 10, "iseq", 40, 22),
]


def groups(tier):
    k = 3 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    t = C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], 1, solver=group["solver"], points=points,
        wide_noise=True,
        **({"rates": (0.02, 0.15, 0.5)} if points else {}),
    )
    ends = sorted(r[1] for r in t["records"])
    t["crash_tick"] = ends[rng.randrange(len(ends))]
    t["faults"]["pipeline_crash_points"] = len(t["records"]) * (1 if points else 2)
    return t


def analyse(trace, rec):
    X, y, nz = A.coords(rec, trace["unit"], trace["origin"])
    return A.run(
        C.spec_in_units(trace), X if trace["insts"] else X[0], y, nz, None,
        solver=trace["solver"], n_inst=trace["insts"], want=("logp", "data", "states"),
    )


def check(trace, stats):
    rec = trace["records"]
    n = len(rec)
    points = trace["insts"] is None
    out = analyse(trace, rec)
    st = out["states"]
    amp, prior = C.scale_of(trace)
    t = st["t"]
    K = len(t)
    obsid = np.asarray(st["obsid"], int)
    is_end = np.asarray(st["stateid"], int) == 1
    # the states are the shutter events in time order, each exactly once
    ev_t = np.array([rec[o][1] if e else rec[o][0] for o, e in zip(obsid, is_end)], float)
    if K != (n if points else 2 * n) or len({(int(o), bool(e)) for o, e in zip(obsid, is_end)}) != K:
        raise A.Mismatch("events", f"{K} states for {n} records, not one per shutter event")
    span = trace["unit"] * max(abs(ev_t).max(), 1) + abs(trace["origin"])
    A.expect("events", t, trace["origin"] + trace["unit"] * ev_t, 1e-12 * span, "time of a state")
    if np.any(np.diff(ev_t) < 0):
        raise A.Mismatch("events", "the states are not in time order")

    H = out["H"][0]
    d = C.dense(trace)
    done = []  # records complete so far, in event order
    total = 0.0
    for k in range(K):
        o = obsid[k]
        before = list(done)
        if is_end[k]:
            done.append(o)
        # only latent values of the process are compared at ties: both sides of the tie are the same instant
        sub = C.dense(trace, [rec[i] for i in before])
        mu, var = sub.predict([ev_t[k]])
        A.expect("forecast", H @ st["pm"][k], mu[0], TOL * amp, f"forecast just before event {k}")
        A.expect("forecast", H @ st["pP"][k] @ H, var[0], TOL * prior, f"forecast variance just before event {k}")
        if is_end[k]:
            r = rec[o]
            mu, var = sub.predict([r[0]], [r[1]])
            h = out["HX"][o, 0] if not points else H
            A.expect("forecast", h @ st["pm"][k], mu[0], TOL * amp, f"forecast of record {o}")
            A.expect("forecast", h @ st["pP"][k] @ h, var[0], TOL * prior, f"forecast variance of record {o}")
            s = var[0] + r[4]
            total += -0.5 * ((r[3] - mu[0]) ** 2 / s + math.log(2 * math.pi * s))
            full = C.dense(trace, [rec[i] for i in done])
            mu, var = full.predict([ev_t[k]])
        else:
            mu, var = sub.predict([ev_t[k]])
        A.expect("online", H @ st["fm"][k], mu[0], TOL * amp, f"online estimate after event {k}")
        A.expect("online", H @ st["fP"][k] @ H, var[0], TOL * prior, f"online variance after event {k}")
        stats["crash_points"] += 1
    A.expect("log-likelihood", out["logp"], total, TOL * (1 + n), "log_probability against the chain of forecasts", TOL)
    A.expect("log-likelihood", out["loglik"], total, TOL * (1 + n), "condition().log_probability", TOL)
    mu, var = d.predict([ev_t[-1]])
    A.expect("final", H @ st["sm"][-1], mu[0], TOL * amp, "smoothed estimate at the last event")
    A.expect("final", H @ st["sP"][-1] @ H, var[0], TOL * prior, "smoothed variance at the last event")

    # replace everything that completes after the crash: the past must not move
    c = trace["crash_tick"]
    alt = [list(r) for r in rec]
    for r in alt:
        if r[1] > c:
            r[3] = 1000.0 * amp - r[3]
            r[4] = r[4] * 3.0
    out2 = analyse(trace, alt)
    past = ev_t <= c
    for key, tol in (("pm", amp), ("fm", amp), ("pP", prior), ("fP", prior)):
        a, b = st[key][past], out2["states"][key][past]
        # unit-free: state elements carry powers of the time unit
        lim = SAME * (1 + np.abs(b)) * max(tol, 1.0)
        A.expect("causality", a, b, lim, f"{key} before the crash changed with later data")
    stats["digest"] = out["loc"].tobytes().hex()[:64]
    C.probes(trace, stats)


signature, describe, shrink, size = C.signature, C.describe, C.shrink, C.size
