"""What the observatory-based properties share."""

from __future__ import annotations

import copy
import math

import numpy as np

from sim import model, observatory
from sim.oracle import Dense, cov

UNITS = [1.0, 1.0, 2.0**-6, 16.0]
ORIGINS = [0.0, 0.0, 4096.0, -1000.0]
# rates of the fastest time scale per tick; short exposures with Matern-5/2 are a known finding
RATES = (0.003, 0.03, 0.06, 0.12, 0.3)
RATES_M52 = (0.03, 0.06, 0.12, 0.3)

REAL = ["smolgp (all of /repo/src/smolgp: kernels, solvers, GaussianProcess)", "jax/XLA on CPU, float64"]
STUBS = [
    "instruments, their clocks, network and archive (discrete-event simulation)",
    "oracle: dense Gaussian process in numpy, no shared code",
]


def observatory_trace(rng, struct, n_inst, n, m, *, solver="default", mode="jit", points=False,
                      faults=None, rates=None, used=None, extra_insts=0,
                      origin=None, unit=None, wide_noise=False):
    """one simulated campaign; the model's fastest rate is `g` per tick"""
    g = rng.choice(rates or (RATES_M52 if "Matern52" in str(struct) else RATES))
    spec = model.draw(struct, rng, g)
    if faults is None:
        faults = rng.random() < 0.75
    k = used or n_inst or rng.choice([1, 2, 3])
    mix = observatory.draw_mix(rng, faults, k, points, wide_noise)
    amp = math.sqrt(float(cov(spec, np.zeros(()))))
    records, stats = observatory.simulate(rng, k, n, mix, time_sorted=points, amp=round(amp, 3))
    # half ticks must be exact in time units, and the time origin must not eat the precision
    u = rng.choice(UNITS) if unit is None else unit
    o = u * rng.choice(ORIGINS) if origin is None else origin
    sim_ticks = stats.pop("sim_ticks")
    stats.pop("ticks")
    return dict(
        spec=spec, solver=solver, mode=mode, insts=None if points else (n_inst or k) + extra_insts,
        unit=u, origin=o, records=records, queries=observatory.queries(rng, records, m),
        faults={f: c for f, c in stats.items()}, sim_ticks=sim_ticks, mix=mix["faults"],
    )


def scale_of(trace):
    """(amplitude, prior variance) that absolute tolerances refer to"""
    prior = float(cov(trace["spec"], np.zeros(())))
    y = max((abs(r[3]) for r in trace["records"] if math.isfinite(r[3])), default=0.0)
    return max(y, math.sqrt(prior)), prior


def dense(trace, records=None):
    """the reference model, in ticks"""
    rec = trace["records"] if records is None else records
    return Dense(
        trace["spec"],
        [r[0] for r in rec],
        [r[1] for r in rec],
        np.array([r[4] for r in rec], float),
        [r[3] for r in rec],
    )


def spec_in_units(trace):
    return model.rescale(trace["spec"], trace["unit"], 1.0)


def query_times(trace, q=None):
    h = np.array(trace["queries"] if q is None else q, float) / 2
    return trace["origin"] + trace["unit"] * h, h


def size(trace):
    return dict(
        records=len(trace.get("records", [])),
        queries=len(trace.get("queries", [])),
        faults=int(sum(trace.get("faults", {}).values())),
    )


def describe(trace, limit=12):
    d = {k: v for k, v in trace.items() if k not in ("records", "queries", "faults")}
    d["model"] = model.label(model.structure(trace["spec"])) if "spec" in trace else None
    if "records" in trace:
        d["records"] = trace["records"][:limit]
        d["n_records"] = len(trace["records"])
    if "queries" in trace:
        d["queries"] = trace["queries"][:limit]
    d["faults"] = trace.get("faults", {})
    return d


def signature(trace):
    return observatory.shape_of(trace["records"]) + model.label(model.structure(trace["spec"])) + str(trace["insts"])


def fewer(seq, floor=1):
    """sequences with a chunk removed, biggest chunks first"""
    n = len(seq)
    size = max(1, n // 2)
    while size >= 1:
        for a in range(0, n, size):
            cut = seq[:a] + seq[a + size :]
            if len(cut) >= floor:
                yield cut
        if size == 1:
            return
        size //= 2


def shrink(trace):
    """smaller campaigns: fewer queries, lost records, simpler model, simpler numbers"""
    t = trace
    if len(t.get("queries", [])) > 1:
        for q in fewer(t["queries"]):
            yield {**t, "queries": q}
    if len(t["records"]) > 1:
        for r in fewer(t["records"]):
            yield {**t, "records": r, "faults": {**t["faults"], "minimiser_loss": len(t["records"]) - len(r)}}
    if t["spec"][0] == "Sum":
        for k in (1, 2):
            yield {**t, "spec": t["spec"][k]}
    if t["spec"][0] == "Scale":
        yield {**t, "spec": t["spec"][2]}
    if t["origin"] != 0.0:
        yield {**t, "origin": 0.0}
    if t["unit"] != 1.0:
        yield {**t, "unit": 1.0, "origin": 0.0}
    first = min(r[0] for r in t["records"])
    if first % 2 == 0 and first != 0:
        c = copy.deepcopy(t)
        for r in c["records"]:
            r[0] -= first
            r[1] -= first
        c["queries"] = [h - 2 * first for h in c["queries"]]
        yield c
    for v in (1.0, 0.0):
        if any(r[3] != v for r in t["records"]):
            yield {**t, "records": [[*r[:3], v, r[4]] for r in t["records"]]}


def probes(trace, stats):
    """how often the rare coincidences actually happened"""
    rec = trace["records"]
    starts = [r[0] for r in rec]
    ends = [r[1] for r in rec]
    if len(set(starts)) < len(starts):
        stats["probe:simultaneous_starts"] += 1
    if len(set(ends)) < len(ends):
        stats["probe:simultaneous_ends"] += 1
    if any(r[0] == r[1] for r in rec):
        stats["probe:zero_length_exposure"] += 1
    if set(starts) & set(ends):
        stats["probe:end_meets_start"] += 1
    for a in rec:
        if any(b is not a and b[0] < a[0] and a[1] < b[1] for b in rec):
            stats["probe:enveloped_exposure"] += 1
            break
    ev = {2 * t for t in starts + ends}
    if any(h in ev for h in trace.get("queries", [])):
        stats["probe:query_on_event"] += 1
    if any(h < 2 * min(starts) for h in trace.get("queries", [])):
        stats["probe:query_before_first"] += 1
    if any(h > 2 * max(ends) for h in trace.get("queries", [])):
        stats["probe:query_after_last"] += 1
    if any(b[0] < a[0] for a, b in zip(rec, rec[1:])):
        stats["probe:arrived_out_of_order"] += 1
    if max(ends) - min(starts) > 5000:
        stats["probe:long_outage"] += 1
