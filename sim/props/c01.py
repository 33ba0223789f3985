"""C01: inference from exposure averages equals exact GP conditioning."""

from sim import analysis as A
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated observing campaign (discrete-event run of 1-4 instruments, network and archive) "
    "whose archive is analysed by smolgp and by the dense reference model; campaigns are distinct when the order and "
    "ties of their shutter events, the arrival order of their records or the model structure differ; all contain "
    "at least one record"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "exposures and gaps are multiples of 3-30% of the shortest time scale of the model (or exactly zero)",
    "exposures of one instrument do not overlap one another",
    "SHO quality factors are 0.5 exactly or differ from it by 3e-4 or more",
    "agreement is judged to 1e-6 of the signal amplitude (mean), variance and log-likelihood",
]
TOL = 1e-6

STRUCTS = [
    # id, structure, instruments, records, queries, runs, cost
    ("sho-3i", "SHO", 3, 24, 16, 160, 20),
    ("sho-1i", "SHO", 1, 9, 8, 80, 14),
    ("sho-4i-long", "SHO", 4, 60, 80, 40, 25),
    ("sho-1rec", "SHO", 2, 1, 8, 60, 12),
    ("m32-6i-long", "Matern32", 6, 150, 160, 12, 14),
    ("exp-2i", "Exp", 2, 20, 12, 160, 8),
    ("m32-4i", "Matern32", 4, 24, 12, 160, 9),
    ("m52-2i", "Matern52", 2, 16, 12, 120, 10),
    ("cos-3i", "Cosine", 3, 16, 10, 120, 9),
    ("m32-2rec", "Matern32", 3, 2, 6, 120, 8),
    ("sho+m32-3i", ["Sum", "SHO", "Matern32"], 3, 20, 12, 120, 28),
    ("cos+exp+m52-2i", ["Sum", ["Sum", "Cosine", "Exp"], "Matern52"], 2, 14, 8, 80, 25),
    ("exp+exp-3i", ["Sum", "Exp", "Exp"], 3, 18, 8, 80, 16),
    ("c*m32-2i", ["Scale", "Matern32"], 2, 12, 8, 80, 10),
    ("c*(exp+sho)-2i", ["Sum", "Exp", ["Scale", "SHO"]], 2, 12, 8, 80, 22),
]


def groups(tier):
    k = 4 if tier == "quick" else 50
    out = []
    for gid, st, ni, n, m, runs, cost in STRUCTS:
        out.append(dict(id=gid, struct=st, insts=ni, n=n, m=m, runs=runs * k, cost=cost, parts=1 if tier == "quick" else 4, solver="default", mode="jit"))
    out.append(dict(id="exp-2i-eager", struct="Exp", insts=2, n=6, m=4, runs=6 * k, cost=20, solver="default", mode="eager"))
    if tier != "quick":
        for gid, st, ni, n, m in [
            ("sho-2i-128", "SHO", 2, 128, 24),
            ("m52-4i-64", "Matern52", 4, 64, 24),
            ("sho+cos-4i", ["Sum", "SHO", "Cosine"], 4, 40, 24),
            ("sho+sho+sho-2i", ["Sum", "SHO", ["Sum", "SHO", "SHO"]], 2, 24, 12),
            ("m52+m32-3i", ["Sum", "Matern52", "Matern32"], 3, 30, 12),
        ]:
            out.append(dict(id=gid, struct=st, insts=ni, n=n, m=m, runs=400, cost=100, parts=2, solver="default", mode="jit"))
    return out


def gen(group, rng):
    extra = rng.choice([0, 0, 1])
    k = group["insts"]
    return C.observatory_trace(
        rng, group["struct"], k, group["n"], group["m"], solver=group["solver"], mode=group["mode"],
        used=max(1, k - extra), wide_noise=True,
    )


def check(trace, stats):
    X, y, nz = A.coords(trace["records"], trace["unit"], trace["origin"])
    tt, h = C.query_times(trace)
    out = A.run(C.spec_in_units(trace), X, y, nz, tt, solver=trace["solver"], n_inst=trace["insts"], mode=trace["mode"])
    amp, prior = C.scale_of(trace)
    d = C.dense(trace)
    ll = d.log_probability()
    A.expect("log-likelihood", out["logp"], ll, TOL * (1 + len(y)), "log_probability", TOL)
    A.expect("log-likelihood", out["loglik"], ll, TOL * (1 + len(y)), "condition().log_probability", TOL)
    mu, var = d.predict(d.s, d.e)
    A.expect("posterior", out["loc"], mu, TOL * amp, "posterior mean of the exposures")
    A.expect("posterior", out["var"], var, TOL * prior, "posterior variance of the exposures")
    mu, var = d.predict(h)
    A.expect("prediction", out["mu"], mu, TOL * amp, "predicted mean")
    A.expect("prediction", out["mv"], var, TOL * prior, "predicted variance")
    C.probes(trace, stats)
    stats["digest"] = out["mu"].tobytes().hex()[:64]


signature, describe, shrink, size = C.signature, C.describe, C.shrink, C.size
