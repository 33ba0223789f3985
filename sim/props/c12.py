"""C12: inference from time-ordered streams of point measurements equals exact GP conditioning."""

from sim import analysis as A
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated stream of point measurements (bursts, exact ties, outages, lost and duplicated "
    "records) analysed by smolgp and by the dense reference model; streams are distinct when the order and ties of "
    "their events or the model structure differ; all contain at least one record"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "records are given in time order (ties in any order)",
    "SHO quality factors are 0.5 exactly or differ from it by 3e-4 or more; the periodic kernel has an explicit order",
    "agreement is judged to 1e-7 of the signal amplitude (mean), variance and log-likelihood",
]
TOL = 1e-7

LEAVES = ["SHO", "Exp", "Matern32", "Matern52", "Cosine", ["ESS", 4]]
STRUCTS = [(A_ if isinstance(A_, str) else "ESS4", A_, 24, 16, 200, 3) for A_ in LEAVES] + [
    ("const+m32", ["Sum", "Constant", "Matern32"], 17, 9, 120, 4),
    ("sho+exp", ["Sum", "SHO", "Exp"], 32, 16, 150, 5),
    ("exp*cos", ["Product", "Exp", "Cosine"], 20, 12, 150, 4),
    ("m32*m52", ["Product", "Matern32", "Matern52"], 16, 12, 100, 5),
    ("c*sho", ["Scale", "SHO"], 20, 12, 120, 4),
    ("c*(m32+exp)", ["Scale", ["Sum", "Matern32", "Exp"]], 20, 12, 120, 5),
    ("(c*exp)*cos+m52", ["Sum", ["Product", ["Scale", "Exp"], "Cosine"], "Matern52"], 18, 10, 100, 7),
    ("(exp+m32)*cos", ["Product", ["Sum", "Exp", "Matern32"], "Cosine"], 14, 10, 100, 6),
    ("exp*ess", ["Product", "Exp", ["ESS", 3]], 14, 10, 80, 8),
    ("exp+(m32+(cos+sho))", ["Sum", "Exp", ["Sum", "Matern32", ["Sum", "Cosine", "SHO"]]], 20, 10, 100, 9),
    ("sho+sho", ["Sum", "SHO", "SHO"], 12, 6, 100, 5),
    ("m52-1rec", "Matern52", 1, 5, 60, 3),
    ("sho-2rec", "SHO", 2, 5, 100, 3),
    ("sho-96", "SHO", 96, 140, 40, 6),
    ("exp+cos-400", ["Sum", "Exp", "Cosine"], 400, 300, 15, 8),
    ("m52+c*m32+sho+exp+cos+const", ["Sum", ["Sum", ["Sum", "Matern52", ["Scale", "Matern32"]], ["Sum", "SHO", "Exp"]], ["Sum", "Cosine", "Constant"]], 20, 10, 80, 10),
]


def groups(tier):
    k = 3 if tier == "quick" else 90
    out = [
        dict(id=gid, struct=st, n=n, m=m, runs=r * k, cost=c, solver="default", mode="jit", parts=1 if tier == "quick" else 2)
        for gid, st, n, m, r, c in STRUCTS
    ]
    out.append(dict(id="m32-eager", struct="Matern32", n=6, m=4, runs=8 * k, cost=5, solver="default", mode="eager"))
    if tier != "quick":
        for gid, st, n in [("m52-256", "Matern52", 256), ("sho+m32-200", ["Sum", "SHO", "Matern32"], 200)]:
            out.append(dict(id=gid, struct=st, n=n, m=40, runs=300, cost=60, solver="default", mode="jit", parts=2))
    return out


def gen(group, rng):
    return C.observatory_trace(
        rng, group["struct"], None, group["n"], group["m"], solver=group["solver"], mode=group["mode"],
        points=True, rates=(0.001, 0.02, 0.15, 0.5, 2.0), wide_noise=True,
    )


def check(trace, stats):
    X, y, nz = A.coords(trace["records"], trace["unit"], trace["origin"])
    tt, h = C.query_times(trace)
    out = A.run(C.spec_in_units(trace), X[0], y, nz, tt, solver=trace["solver"], mode=trace["mode"])
    amp, prior = C.scale_of(trace)
    d = C.dense(trace)
    ll = d.log_probability()
    A.expect("log-likelihood", out["logp"], ll, TOL * (1 + len(y)), "log_probability", TOL)
    A.expect("log-likelihood", out["loglik"], ll, TOL * (1 + len(y)), "condition().log_probability", TOL)
    mu, var = d.predict(d.s)
    A.expect("posterior", out["loc"], mu, TOL * amp, "posterior mean at the data")
    A.expect("posterior", out["var"], var, TOL * prior, "posterior variance at the data")
    mu, var = d.predict(h)
    A.expect("prediction", out["mu"], mu, TOL * amp, "predicted mean")
    A.expect("prediction", out["mv"], var, TOL * prior, "predicted variance")
    C.probes(trace, stats)
    stats["digest"] = out["mu"].tobytes().hex()[:64]


signature, describe, shrink, size = C.signature, C.describe, C.shrink, C.size
