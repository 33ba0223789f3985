"""C10: analyses that run batched together are isolated: a lane's answer does not depend on its batch."""

import json
import math
from functools import lru_cache

import numpy as np

from sim import analysis as A
from sim import model
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated analysis server: requests (a campaign and a model each) queue up, a seeded server "
    "packs whatever has arrived into vectorised batches, pads, retries batches that were lost, and some requests are "
    "corrupted; every answer of every batch is compared with the dense reference model of its own request; distinct by "
    "the event orders of all requests, batch compositions and corruptions"
)
REAL, STUBS = C.REAL, C.STUBS + ["analysis server (queue, batching, padding, retries)"]
ASSUMPTIONS = [
    "the requests of one batch have the same model structure and number of records (jax.vmap needs that)",
    "exposures and gaps are multiples of 2-50% of the shortest time scale of the model (or exactly zero)",
    "agreement is judged to 1e-6 of amplitude, variance and log-likelihood",
]
TOL = 1e-6
M = 5

# id, structure, instruments, records, solver, how it is batched, lanes
STRUCTS = [
    ("exp-seq-vmap", "Exp", None, 10, "seq", "vmap", 4, 50, 6),
    ("sho-seq-vmap", "SHO", None, 10, "seq", "vmap", 4, 60, 8),
    ("m52+cos-seq-walkers", ["Sum", "Matern52", "Cosine"], None, 9, "seq", "walkers", 5, 50, 8),
    ("sho-par-walkers", "SHO", None, 10, "par", "walkers", 4, 40, 9),
    ("c*m32+exp-par-vmap", ["Sum", ["Scale", "Matern32"], "Exp"], None, 9, "par", "vmap", 3, 40, 10),
    ("exp*cos-seq-map", ["Product", "Exp", "Cosine"], None, 8, "seq", "map", 4, 40, 6),
    ("exp-3i-iseq-vmap", "Exp", 3, 10, "iseq", "vmap", 4, 40, 18),
    ("sho-2i-iseq-walkers", "SHO", 2, 9, "iseq", "walkers", 4, 30, 30),
    ("m32-2i-iseq-map", "Matern32", 2, 8, "iseq", "map", 3, 30, 16),
    ("m32-2i-ipar-vmap", "Matern32", 2, 8, "ipar", "vmap", 3, 30, 26),
    ("exp+cos-2i-ipar-walkers", ["Sum", "Exp", "Cosine"], 2, 8, "ipar", "walkers", 3, 30, 32),
]


def groups(tier):
    k = 2 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, how=how, lanes=w, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, how, w, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    walkers = group["how"] == "walkers"
    rates = (0.02, 0.15, 0.5) if points else (0.045, 0.1, 0.3)
    reqs = []
    faults = {}
    for _ in range(rng.choice([4, 6, 8])):
        t = C.observatory_trace(
            rng, group["struct"], group["insts"], group["n"], M, solver=group["solver"], points=points, rates=rates,
            **(dict(unit=1.0) if walkers else {}),
        )
        if walkers and reqs:  # the same campaign under another model
            t = {**reqs[0], "spec": t["spec"]}
        else:
            for k, v in t["faults"].items():
                faults[k] = faults.get(k, 0) + v
        # corruption travels with the request
        t["bad"] = None
        if rng.random() < 0.3:
            t["bad"] = ["parameter", rng.randrange(len(model.params(t["spec"])))] if walkers or rng.random() < 0.3 else [
                rng.choice(["value", "noise", "negative"]), rng.randrange(len(t["records"]))]
            faults["corrupt_" + t["bad"][0]] = faults.get("corrupt_" + t["bad"][0], 0) + 1
        reqs.append({k: v for k, v in t.items() if k in ("spec", "records", "queries", "unit", "origin", "bad", "sim_ticks")})
    # the server: arrivals in random order, random batch sizes, lost batches are retried in another composition
    queue = list(range(len(reqs)))
    rng.shuffle(queue)
    batches = []
    while queue:
        k = rng.randrange(1, group["lanes"] + 1)
        b, queue = queue[:k], queue[k:]
        while len(b) < group["lanes"]:  # padding
            b.append(rng.choice(b) if rng.random() < 0.5 else rng.randrange(len(reqs)))
            faults["padding"] = faults.get("padding", 0) + 1
        rng.shuffle(b)
        batches.append(b)
        if rng.random() < 0.25 and len(batches) < 6:
            faults["batch_lost"] = faults.get("batch_lost", 0) + 1
            queue += sorted(set(b), key=lambda _: rng.random())
    return dict(
        requests=reqs, batches=batches, solver=group["solver"], insts=group["insts"], how=group["how"], faults=faults,
        sim_ticks=sum(t["sim_ticks"] for t in reqs),
    )


@lru_cache(maxsize=None)
def program(struct_json, n_inst, solver, how):
    import jax

    struct = json.loads(struct_json)

    def one(p, X, y, noise, tt):
        gp = A.make_gp(model.fill(struct, iter(p)), X, noise, solver, n_inst)
        res = gp.condition(y)
        mu, mv = res.gp.predict(tt, return_var=True)
        return dict(
            logp=gp.log_probability(y), loglik=res.log_probability, loc=res.gp.loc, var=res.gp.variance, mu=mu, mv=mv,
        )

    if how == "vmap":
        return jax.jit(jax.vmap(one))
    if how == "walkers":
        return jax.jit(jax.vmap(one, in_axes=(0, None, None, None, None)))
    return jax.jit(lambda *a: jax.lax.map(lambda b: one(*b), a))


def inputs(trace, r):
    t = trace["requests"][r]
    X, y, nz = A.coords(t["records"], t["unit"], t["origin"])
    p = np.array(model.params(C.spec_in_units(t)), float)
    if t["bad"]:
        kind, k = t["bad"]
        if kind == "value" and k < len(y):
            y[k] = math.nan
        elif kind == "noise" and k < len(y):
            nz[k] = math.nan
        elif kind == "negative" and k < len(y):
            amp, prior = C.scale_of(t)
            nz[k] = -1e3 * max(prior, amp * amp)
        elif kind == "parameter":
            p[k] = math.nan
    return p, (X if trace["insts"] else X[0]), y, nz, C.query_times(t)[0]


def check(trace, stats):
    import jax

    walkers = trace["how"] == "walkers"
    f = program(json.dumps(model.structure(trace["requests"][0]["spec"])), trace["insts"], trace["solver"], trace["how"])
    truth = {}
    for b in trace["batches"]:
        lanes = [inputs(trace, r) for r in b]
        stack = jax.tree_util.tree_map(lambda *v: np.stack(v), *lanes)
        args = (stack[0], *lanes[0][1:]) if walkers else stack
        out = jax.tree_util.tree_map(np.asarray, f(*args))
        for lane, r in enumerate(b):
            t = trace["requests"][r]
            got = {k: v[lane] for k, v in out.items()}
            w = f"batch {b} lane {lane}: "
            stats["lanes"] += 1
            if t["bad"]:
                for k in ("logp", "loglik"):
                    if float(got[k]) != -math.inf:
                        raise A.Mismatch("not contained", w + f"{k} is {got[k]:.9g} for a corrupted request, expected -inf")
                continue
            n = len(t["records"])
            amp, prior = C.scale_of(t)
            if r not in truth:
                d = C.dense(t)
                truth[r] = (d.log_probability(), d.predict(d.s, d.e), d.predict(C.query_times(t)[1]))
            ll, at, q = truth[r]
            A.expect("isolation", got["logp"], ll, TOL * (1 + n), w + "log_probability", TOL)
            A.expect("isolation", got["loglik"], ll, TOL * (1 + n), w + "condition().log_probability", TOL)
            A.expect("isolation", got["loc"], at[0], TOL * amp, w + "posterior mean")
            A.expect("isolation", got["var"], at[1], TOL * prior, w + "posterior variance")
            A.expect("isolation", got["mu"], q[0], TOL * amp, w + "predicted mean")
            A.expect("isolation", got["mv"], q[1], TOL * prior, w + "predicted variance")
            stats["answers"] += 1
    stats["batches"] += len(trace["batches"])
    for t in trace["requests"]:
        C.probes(t, stats)
    stats["digest"] = out["logp"].tobytes().hex()[:64]


def signature(trace):
    s = [C.signature({**t, "insts": trace["insts"]}) + str(t["bad"]) for t in trace["requests"]]
    return json.dumps([s, trace["batches"], trace["how"]])


def describe(trace):
    return dict(
        model=model.label(model.structure(trace["requests"][0]["spec"])), solver=trace["solver"], how=trace["how"],
        batches=trace["batches"], corrupted={i: t["bad"] for i, t in enumerate(trace["requests"]) if t["bad"]},
        requests=len(trace["requests"]), records=trace["requests"][0]["records"][:6], run=trace.get("run"),
    )


def size(trace):
    return dict(requests=len({r for b in trace["batches"] for r in b}), batches=len(trace["batches"]),
                records=len(trace["requests"][0]["records"]))


def shrink(trace):
    bs = trace["batches"]
    if len(bs) > 1:
        for b in bs:
            yield {**trace, "batches": [b]}
        return
    for r in sorted(set(bs[0])):
        if any(x != r for x in bs[0]):
            yield {**trace, "batches": [[r] * len(bs[0])]}
    for k, t in enumerate(trace["requests"]):
        if k in bs[0] and t["bad"]:
            rs = list(trace["requests"])
            rs[k] = {**t, "bad": None}
            yield {**trace, "requests": rs}
    for i in range(len(bs[0])):
        for r in sorted(set(bs[0])):
            if bs[0][i] != r:
                b = list(bs[0])
                b[i] = r
                if len(set(b)) < len(set(bs[0])):
                    yield {**trace, "batches": [b]}
    used = set(bs[0])
    if any(t is not None and k not in used for k, t in enumerate(trace["requests"])) and len(used) < len(trace["requests"]):
        keep = sorted(used | {0})
        if len(keep) < len(trace["requests"]):
            at = {r: j for j, r in enumerate(keep)}
            yield {**trace, "requests": [trace["requests"][r] for r in keep], "batches": [[at[r] for r in bs[0]]]}
    n = len(trace["requests"][0]["records"])
    if n > 1:
        for keep in C.fewer(list(range(n))):
            rs = [{**t, "records": [t["records"][k] for k in keep]} for t in trace["requests"]]
            ok = True
            for t, old in zip(rs, trace["requests"]):
                if old["bad"] and old["bad"][0] != "parameter":
                    ok = ok and old["bad"][1] in keep
                    if ok:
                        t["bad"] = [old["bad"][0], keep.index(old["bad"][1])]
            if ok:
                yield {**trace, "requests": rs}
