"""C08: a prediction depends only on its own query time, never on how queries are scheduled or batched."""

from functools import lru_cache
import json

import numpy as np

from sim import analysis as A
from sim import model
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign whose posterior serves a random schedule of query batches (reordered, "
    "duplicated, single queries, on and around every kind of shutter event, before the first and after the last); every "
    "answer is compared across batches and with the dense reference model; distinct by event order, ties, query "
    "schedule and model"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "queries are instants (the value of the process), not exposure averages",
    "exposures and gaps are multiples of 3-30% of the shortest time scale of the model (or exactly zero)",
    "agreement across batches is judged to 1e-9, with the reference model to 1e-6 of amplitude and variance",
]
TOL, SAME = 1e-6, 1e-9
FEW = 12

STRUCTS = [
    ("exp-seq", "Exp", None, 12, "seq", 120, 5),
    ("sho-seq", "SHO", None, 18, "seq", 120, 6),
    ("m52*cos+exp-seq", ["Sum", ["Product", "Matern52", "Cosine"], "Exp"], None, 12, "seq", 80, 8),
    ("m32-par", "Matern32", None, 14, "par", 120, 7),
    ("sho+exp-par", ["Sum", "SHO", "Exp"], None, 12, "par", 80, 10),
    ("exp-seq-1rec", "Exp", None, 1, "seq", 60, 4),
    ("exp-2i-iseq", "Exp", 2, 12, "iseq", 100, 14),
    ("sho-3i-iseq", "SHO", 3, 14, "iseq", 80, 28),
    ("m52-2i-iseq", "Matern52", 2, 10, "iseq", 80, 18),
    ("m32-3i-ipar", "Matern32", 3, 12, "ipar", 80, 24),
    ("sho-2i-ipar", "SHO", 2, 10, "ipar", 60, 32),
    ("exp+cos-2i-iseq", ["Sum", "Exp", "Cosine"], 2, 10, "iseq", 60, 26),
    ("exp-1i-1rec-ipar", "Exp", 1, 1, "ipar", 60, 14),
    # long lists of queries
    ("m32-seq-many", "Matern32", None, 10, "seq", 10, 6),
    ("exp-par-many", "Exp", None, 10, "par", 10, 7),
    ("exp-2i-iseq-many", "Exp", 2, 8, "iseq", 10, 14),
    ("exp-2i-ipar-many", "Exp", 2, 8, "ipar", 10, 24),
]
MANY = (70, 150, 300, 620)  # queries of the groups that end in -many


def groups(tier):
    k = 3 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, direct=i is None or s == "Exp", runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    M = rng.choice(MANY) if group["id"].endswith("-many") else FEW
    t = C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], M, solver=group["solver"], points=points,
        wide_noise=True,
        **({"rates": (0.02, 0.15, 0.5)} if points else {}),
    )
    t["direct"] = group["direct"]
    # batches of positions in the query list
    b = [list(range(M)), sorted(range(M), key=lambda j: t["queries"][j])]
    b.append(b[1][::-1])
    s = list(range(M))
    rng.shuffle(s)
    b.append(s)
    b.append([rng.randrange(M) for _ in range(M)])
    b.append([rng.randrange(M)] * M)
    t["batches"] = b[1:]
    t["singles"] = rng.sample(range(M), 3)
    t["faults"]["query_reorder_or_duplicate"] = len(t["batches"])
    return t


@lru_cache(maxsize=None)
def programs(struct_json, n_inst, solver):
    import jax
    import jax.numpy as jnp

    struct = json.loads(struct_json)

    def open_session(p, X, y, noise):
        gp = A.make_gp(model.fill(struct, iter(p)), X, noise, solver, n_inst)
        c = gp.condition(y).gp
        return c, (c.predict(), *c.predict(return_var=True), c.loc, c.variance)

    def serve(c, tt):
        return (*c.predict(tt, return_var=True), c.predict(tt))

    def direct(p, X, y, noise, tt):
        gp = A.make_gp(model.fill(struct, iter(p)), X, noise, solver, n_inst)
        # conditioning at test coordinates takes the same structure as the data: zero-length exposures
        xt = tt if n_inst is None else (tt, 0 * tt, jnp.zeros(tt.shape, int))
        g2 = gp.condition(y, xt).gp
        return gp.predict(tt, y, return_var=True), gp.predict(None, y, return_var=True), (g2.loc, g2.variance)

    return jax.jit(open_session), jax.jit(serve), jax.jit(direct)


def check_direct(out, mu, var, amp, prior):
    A.expect("schedule", out["direct"][0], mu, SAME * amp, "mean from the unconditioned process and the data")
    A.expect("schedule", out["direct"][1], var, SAME * prior, "variance from the unconditioned process and the data")
    A.expect("schedule", out["conditioned_at"][0], mu, SAME * amp, "mean of the process conditioned at the queries")
    A.expect("schedule", out["conditioned_at"][1], var, SAME * prior, "variance of the process conditioned at the queries")


def check(trace, stats):
    import jax
    import jax.numpy as jnp

    X, y, nz = A.coords(trace["records"], trace["unit"], trace["origin"])
    X = X if trace["insts"] else X[0]
    tt, h = C.query_times(trace)
    open_session, serve, direct = programs(json.dumps(model.structure(trace["spec"])), trace["insts"], trace["solver"])
    p = [float(v) for v in model.params(C.spec_in_units(trace))]
    args = (p, jax.tree_util.tree_map(jnp.asarray, X), jnp.asarray(y), jnp.asarray(nz))
    session, at_data = open_session(*args)

    def ask(positions):
        return serve(session, jnp.asarray(tt[np.asarray(positions)]))

    # the schedule: batches and single queries in the order they were issued
    out = {"batches": [], "singles": [], "at_data": at_data}
    for b in trace["batches"]:
        out["batches"].append(ask(b)[:2])
    for b in trace["singles"]:
        out["singles"].append(ask([b])[:2])
    m, v, m0 = ask(range(len(tt)))
    out["full"], out["mean_only"] = (m, v), m0
    if trace["direct"]:
        out["direct"], out["uncond_at_data"], out["conditioned_at"] = direct(*args, jnp.asarray(tt))
    out = jax.tree_util.tree_map(np.asarray, out)
    amp, prior = C.scale_of(trace)
    mu, var = out["full"]
    for b, (m, v) in zip(trace["batches"], out["batches"]):
        A.expect("schedule", m, mu[b], SAME * amp, "mean of the same query in another batch")
        A.expect("schedule", v, var[b], SAME * prior, "variance of the same query in another batch")
    for b, (m, v) in zip(trace["singles"], out["singles"]):
        A.expect("schedule", m, mu[[b]], SAME * amp, "mean of a query asked alone")
        A.expect("schedule", v, var[[b]], SAME * prior, "variance of a query asked alone")
    A.expect("schedule", out["mean_only"], mu, SAME * amp, "mean without the variance")
    if trace["direct"]:
        check_direct(out, mu, var, amp, prior)
    d = C.dense(trace)
    m, v = d.predict(h)
    A.expect("prediction", mu, m, TOL * amp, "predicted mean")
    A.expect("prediction", var, v, TOL * prior, "predicted variance")
    m, v = d.predict(d.s, d.e)
    a, b, c, loc, lv = out["at_data"]
    direct_mean = [(out["uncond_at_data"][0], "predict(y=)")] if trace["direct"] else []
    direct_var = [(out["uncond_at_data"][1], "predict(y=)")] if trace["direct"] else []
    for got, what in ((a, "predict()"), (b, "predict(return_var)"), (loc, "loc"), *direct_mean):
        A.expect("posterior", got, m, TOL * amp, f"mean at the data from {what}")
    for got, what in ((c, "predict(return_var)"), (lv, "variance"), *direct_var):
        A.expect("posterior", got, v, TOL * prior, f"variance at the data from {what}")
    C.probes(trace, stats)
    stats["digest"] = mu.tobytes().hex()[:64]


def signature(trace):
    return C.signature(trace) + str(trace["queries"]) + str(trace["batches"])


def shrink(trace):
    for t in C.shrink(trace):
        if len(t["queries"]) == len(trace["queries"]):
            yield t
    q = trace["queries"]
    for v in sorted(set(q)):
        if any(x != v for x in q):
            yield {**trace, "queries": [v] * len(q)}


describe, size = C.describe, C.size
