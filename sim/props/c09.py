"""C09: the additive components of the signal are exact and conserve the total."""

import numpy as np

from sim import analysis as A
from sim import model
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign analysed with a multi-component model; every component, pair of components "
    "and the total are compared at the data and at query times with the dense reference model; distinct by event order, "
    "ties, arrival order and model structure; all models have at least two components or a product"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "components are the terms of the sum (a product or a scaled model is one component)",
    "exposures and gaps are multiples of 3-30% of the shortest time scale of the model (or exactly zero)",
    "agreement is judged to 1e-6 of the signal amplitude and variance",
]
TOL = 1e-6

S = lambda a, b: ["Sum", a, b]  # noqa: E731
P = lambda a, b: ["Product", a, b]  # noqa: E731
STRUCTS = [
    ("sho+exp-seq", S("SHO", "Exp"), None, 14, "seq", 120, 5),
    ("m32+m32+m32-seq", S(S("Matern32", "Matern32"), "Matern32"), None, 12, "seq", 100, 6),
    ("exp+exp*cos-par", S("Exp", P("Exp", "Cosine")), None, 16, "par", 100, 7),
    ("cos*exp+m52*cos+exp-seq", S(S(P("Cosine", "Exp"), P("Matern52", "Cosine")), "Exp"), None, 10, "seq", 80, 8),
    ("c*exp+ess+m32-seq", S(["Scale", "Exp"], S(["ESS", 3], "Matern32")), None, 12, "seq", 80, 8),
    ("c*(exp+cos)+sho-par", S(["Scale", S("Exp", "Cosine")], "SHO"), None, 12, "par", 80, 8),
    ("sho+(sho+(exp+sho))-par", S("SHO", S("SHO", S("Exp", "SHO"))), None, 12, "par", 80, 10),
    ("six-terms-seq", S(S(S("Exp", "Cosine"), S("Matern52", "Exp")), S("SHO", "Exp")), None, 12, "seq", 60, 12),
    ("exp*m32-alone-seq", P("Exp", "Matern32"), None, 10, "seq", 60, 4),
    ("exp+cos-2i-iseq", S("Exp", "Cosine"), 2, 12, "iseq", 100, 18),
    ("m32+sho-3i-ipar", S("Matern32", "SHO"), 3, 12, "ipar", 80, 36),
    ("exp+exp+m52-2i-iseq", S("Exp", S("Exp", "Matern52")), 2, 10, "iseq", 80, 28),
    ("c*sho+exp-3i-iseq", S(["Scale", "SHO"], "Exp"), 3, 10, "iseq", 60, 26),
]


def groups(tier):
    k = 3 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    return C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], 8, solver=group["solver"], points=points,
        **({"rates": (0.02, 0.15, 0.5)} if points else {}),
    )


def check(trace, stats):
    X, y, nz = A.coords(trace["records"], trace["unit"], trace["origin"])
    tt, h = C.query_times(trace)
    out = A.run(
        C.spec_in_units(trace), X if trace["insts"] else X[0], y, nz, tt,
        solver=trace["solver"], n_inst=trace["insts"], want=("data", "test", "components"),
    )
    amp, prior = C.scale_of(trace)
    mt, vt = TOL * amp, TOL * prior
    d = C.dense(trace)
    parts = model.leaves(trace["spec"])
    if len(out["cd"]) != len(parts):
        raise A.Mismatch("component", f"{len(out['cd'])} components listed, the model has {len(parts)}")
    for k, part in enumerate(parts):
        mu, var = d.predict(d.s, d.e, spec=part)
        A.expect("component", out["cd"][k][0], mu, mt, f"mean of component {k} at the data")
        A.expect("component", out["cd"][k][1], var, vt, f"variance of component {k} at the data")
        mu, var = d.predict(h, spec=part)
        A.expect("component", out["ct"][k][0], mu, mt, f"predicted mean of component {k}")
        A.expect("component", out["ct"][k][1], var, vt, f"predicted variance of component {k}")
    A.expect("conservation", sum(c[0] for c in out["cd"]), out["loc"], mt, "components do not add up at the data")
    A.expect("conservation", sum(c[0] for c in out["ct"]), out["mu"], mt, "components do not add up at the queries")
    A.expect("conservation", out["ct_total"][0], out["mu"], mt, "full-state prediction")
    A.expect("conservation", out["ct_total"][1], out["mv"], vt, "full-state prediction variance")
    mu, var = d.predict(h)
    A.expect("total", out["mu"], mu, mt, "predicted mean")
    A.expect("total", out["mv"], var, vt, "predicted variance")
    if len(parts) > 1:
        pair = ["Sum", parts[0], parts[-1]]
        mu, var = d.predict(d.s, d.e, spec=pair)
        A.expect("component", out["cd_pair"][0], mu, mt, "mean of the first and last component together at the data")
        A.expect("component", out["cd_pair"][1], var, vt, "variance of the first and last component together at the data")
        mu, var = d.predict(h, spec=pair)
        A.expect("component", out["ct_pair"][0], mu, mt, "predicted mean of the first and last component together")
        A.expect("component", out["ct_pair"][1], var, vt, "predicted variance of the first and last component together")
        mu, var = d.predict(h, spec=parts[-1])
        A.expect("component", out["ct_last"][0], mu, mt, "prediction of the last component by name")
        A.expect("component", out["ct_last"][1], var, vt, "prediction variance of the last component by name")
        mu, var = d.predict(d.s, d.e, spec=parts[-1])
        A.expect("component", out["cd_last"][0], mu, mt, "last component by name at the data")
        A.expect("component", out["cd_last"][1], var, vt, "variance of the last component by name at the data")
    C.probes(trace, stats)
    stats["digest"] = out["mu"].tobytes().hex()[:64]


signature, describe, shrink, size = C.signature, C.describe, C.shrink, C.size
