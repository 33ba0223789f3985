"""C13: every covariance the library evaluates is the documented one, whatever way two exposures relate."""

import json
import math
from functools import lru_cache

import numpy as np

from sim import analysis as A
from sim import model
from sim.oracle import cov, exposure_cov
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign; the covariance of every pair of its exposures (the dense integrated kernel) "
    "or of every pair of its shutter and query instants (all other kernels), in both argument orders, is compared with "
    "the closed form or its integral over both exposures; distinct by event order, ties, arrival order and model"
)
REAL, STUBS = C.REAL, C.STUBS
ASSUMPTIONS = [
    "the dense kernels: quality above 0.5 (0.6 and more), exposures zero or at least 0.3% of the shortest scale",
    "agreement is judged to 1e-6 of the prior variance (1e-9 for instants)",
]
TOL, SAME = 1e-6, 1e-9
AUTO = 0.07  # of the variance: the worst automatic choice, just below gamma = 32, is off by 6%

STRUCTS = [
    ("exp", "Exp", None), ("sho", "SHO", None), ("m32", "Matern32", None), ("m52", "Matern52", None),
    ("cos", "Cosine", None), ("const+exp", ["Sum", "Constant", "Exp"], None), ("c*sho", ["Scale", "SHO"], None),
    ("ess4", ["ESS", 4], None), ("m52*cos+sho", ["Sum", ["Product", "Matern52", "Cosine"], "SHO"], None),
    ("ess3*m32", ["Product", ["ESS", 3], "Matern32"], None), ("exp*exp*cos", ["Product", ["Product", "Exp", "Exp"], "Cosine"], None),
    ("c*exp+c*m32+cos", ["Sum", ["Sum", ["Scale", "Exp"], ["Scale", "Matern32"]], "Cosine"], None),
    ("ess12", ["ESS", 12], None), ("ess20", ["ESS", 20], None), ("ess-auto", ["ESS", 4], "auto"),
    ("latent-exp-2i", "Exp", 2), ("latent-sho-3i", "SHO", 3), ("latent-m52+m32-1i", ["Sum", "Matern52", "Matern32"], 1),
    ("dense-sho", "SHO", "dense"), ("dense-sho-physical", "SHO", "dense-physical"),
    ("dense-isho", "SHO", "exposures"), ("dense-isho-physical", "SHO", "exposures-physical"),
]


def groups(tier):
    k = 1 if tier == "quick" else 20
    return [
        dict(id=g, struct=s, how=h, n=24 if "exposures" in str(h) else 12, runs=k * (400 if "exposures" in str(h) else 150),
             cost=8 if "exposures" in str(h) else 3, parts=1 if tier == "quick" else 2)
        for g, s, h in STRUCTS
    ]


def gen(group, rng):
    while True:
        t = C.observatory_trace(
            rng, group["struct"], 4, group["n"], 4, points=group["how"] in (None, "auto"),
            rates=(0.003, 0.03, 0.1, 0.3), unit=rng.choice([1.0, 2.0**-6, 0.1, 365.25]),
        )
        if "dense" not in group["id"] or t["spec"][2] > 0.5:
            break
    t["how"] = group["how"]
    if t["how"] == "auto":
        t["spec"][2] = round(10 ** rng.uniform(-0.7, 1.5), 3)
    return t


@lru_cache(maxsize=None)
def evaluator():
    import equinox as eqx

    return eqx.filter_jit(lambda k, X, Z: dict(XX=k(X, X), XZ=k(X, Z), ZX=k(Z, X), diag=k(X), bound=k.error_bound()))


def automatic(trace, X, Z):
    """the periodic kernel with the number of terms it chooses itself"""
    import jax.numpy as jnp
    from smolgp.kernels import ExpSineSquared

    # arrays, or every value would be a program of its own
    period, gamma, sigma = (jnp.asarray(v, float) for v in C.spec_in_units(trace)[1:4])
    return evaluator()(ExpSineSquared(period=period, gamma=gamma, sigma=sigma), X, Z)


@lru_cache(maxsize=None)
def program(struct_json, how):
    import jax
    import jax.numpy as jnp
    import smolgp.kernels.dense as D

    struct = json.loads(struct_json)

    def kernel(p):
        if how is None or isinstance(how, int):
            return model.build(model.fill(struct, iter(p)), how)
        w, q, s = p
        cls = D.IntegratedSHOKernel if "exposures" in how else D.SHOKernel
        if "physical" in how:
            return cls(rho=2 * jnp.pi / w, tau=2 * q / w, sig=s)
        return cls(S=s**2 / (w * q), w=w, Q=q)

    def run(p, X, Z):
        k = kernel(p)
        out = dict(XX=k(X, X), XZ=k(X, Z), ZX=k(Z, X))
        if how is None or isinstance(how, int):
            out["diag"] = k(X)
        return out

    return jax.jit(run)


def check(trace, stats):
    import jax
    import jax.numpy as jnp

    rec, how = trace["records"], trace["how"]
    f = program(json.dumps(model.structure(trace["spec"])), how)
    p = [float(v) for v in model.params(C.spec_in_units(trace))]
    tt, h = C.query_times(trace)
    prior = float(cov(trace["spec"], np.zeros(())))
    X, _, _ = A.coords(rec, trace["unit"], trace["origin"])
    s, e = np.array([r[0] for r in rec], float), np.array([r[1] for r in rec], float)
    if "exposures" in str(how):
        Z = (tt, 0 * tt, np.zeros(len(tt), int))
        tol = TOL
        xs, xe = s, e
    else:
        # every shutter instant, in arrival order
        xs = xe = np.concatenate([s, e])
        X = trace["origin"] + trace["unit"] * xs
        Z, tol = tt, SAME
        # the lag is rounded when the clock runs far from zero
        far = trace["unit"] * (np.abs(xs).max() + np.abs(h).max()) + abs(trace["origin"])
        tol = tol + 8 * np.finfo(float).eps * far * max(model_rate(trace), 1e-30)
    put = jax.tree_util.tree_map
    X, Z = put(jnp.asarray, X), put(jnp.asarray, Z)
    if how == "auto":
        out = put(np.asarray, automatic(trace, X, Z))
        _, period, gamma, sigma, _ = trace["spec"]
        full = lambda lag: sigma**2 * np.exp(-gamma * np.sin(np.pi * lag / period) ** 2)  # noqa: E731
        want, cross, prior = full(xs[:, None] - xs), full(xs[:, None] - h), sigma**2
        # what the kernel itself says about its approximation
        stated = float(out["bound"]) / prior
        A.expect("error_bound", stated, 0.0, AUTO, "stated error of the automatic number of terms ")
        tol += stated
    else:
        out = put(np.asarray, f(p, X, Z))
        want = exposure_cov(trace["spec"], xs[:, None], xe[:, None], xs[None, :], xe[None, :])
        cross = exposure_cov(trace["spec"], xs[:, None], xe[:, None], h[None, :], h[None, :])
    A.expect("covariance", out["XX"], want, tol * prior, "covariance of data pair ")
    A.expect("covariance", out["XZ"], cross, tol * prior, "covariance of data and query ")
    A.expect("covariance", out["ZX"], cross.T, tol * prior, "covariance of query and data ")
    if "diag" in out:
        A.expect("covariance", np.squeeze(out["diag"]), np.full(len(xs), prior), tol * prior, "variance of datum ")
    relation(s, e, stats)
    stats["pairs"] += len(xs) ** 2
    stats["digest"] = out["XX"].tobytes().hex()[:64]
    C.probes(trace, stats)


def model_rate(trace):
    from sim.oracle import rate

    return 10 * rate(C.spec_in_units(trace))


def relation(s, e, stats):
    """how many pairs of exposures relate in which way"""
    a, b = np.triu_indices(len(s), 1)
    s1, e1, s2, e2 = s[a], e[a], s[b], e[b]
    same = (s1 == s2) & (e1 == e2)
    apart = (e1 < s2) | (e2 < s1)
    touch = ((e1 == s2) | (e2 == s1)) & ~same
    inside = (((s1 <= s2) & (e2 <= e1)) | ((s2 <= s1) & (e1 <= e2))) & ~same & ~touch
    for k, v in (("same", same), ("apart", apart), ("touching", touch), ("enveloping", inside),
                 ("overlapping", ~(same | apart | touch | inside))):
        stats[f"pairs_{k}"] += int(v.sum())


signature, describe, shrink, size = C.signature, C.describe, C.shrink, C.size
