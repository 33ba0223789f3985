"""C16: models, observation models and predictions a user defines through the documented interface are exact too."""

import json
import math
from functools import lru_cache

import numpy as np

from sim import analysis as A
from sim import model
from sim.oracle import cov, exposure_cov, rate
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign analysed with a user-defined model (required matrices only, in a state basis "
    "of the user's choice, alone or combined with built-in kernels, or derived from a built-in kernel; averaged over exposures; observed through derivatives "
    "or a time-dependent amplitude) or predicted through a user-defined observation model; compared with the dense "
    "reference model; distinct by event order, ties, arrival order and model"
)
REAL, STUBS = C.REAL, C.STUBS + ["user-defined kernels (sim/userkernels.py)"]
ASSUMPTIONS = [
    "user-defined kernels: exponential, Matern-3/2, Matern-5/2 and SHO in companion form, rescaled by powers of two",
    "exposures and gaps are multiples of 3-50% of the shortest time scale of the model (or exactly zero)",
    "agreement is judged to 1e-6 of the amplitude, variance and log-likelihood",
]
TOL = 1e-6
M = 6

# id, what, structure, instruments, records, solver, runs, cost
STRUCTS = [
    ("custom-exp-seq", "custom", "Exp", None, 14, "seq", 80, 4),
    ("custom-sho-default", "custom", "SHO", None, 12, "default", 80, 5),
    ("custom-m52-seq", "custom", "Matern52", None, 12, "seq", 80, 5),
    ("custom-m32-par", "custom", "Matern32", None, 12, "par", 80, 6),
    ("custom-m32+sho-seq", "custom+", ["Sum", "Matern32", "SHO"], None, 12, "seq", 60, 7),
    ("cos*custom-m32+exp-seq", "custom*", ["Sum", ["Product", "Cosine", "Matern32"], "Exp"], None, 10, "seq", 60, 7),
    ("custom-exp-2i-default", "custom", "Exp", 2, 10, "default", 60, 14),
    ("custom-m32-3i-iseq", "custom", "Matern32", 3, 10, "iseq", 60, 18),
    ("custom-sho-2i-iseq", "custom", "SHO", 2, 10, "iseq", 60, 20),
    ("custom-m32-2i-ipar", "custom", "Matern32", 2, 9, "ipar", 60, 22),
    ("subclass-sho+exp-par", "subclass", ["Sum", "SHO", "Exp"], None, 12, "par", 60, 7),
    ("subclass-sho-2i-iseq", "subclass", ["Sum", "SHO", "Exp"], 2, 10, "iseq", 60, 20),
    ("twins-sho-exp-seq", "twins", ["Sum", ["Sum", "SHO", "SHO"], ["Sum", "Exp", "Exp"]], None, 10, "seq", 60, 8),
    ("twins-sho-2i-default", "twins", ["Sum", "SHO", "SHO"], 2, 8, "default", 40, 24),
    ("derivative-m52-seq", "derivative", "Matern52", None, 12, "seq", 60, 5),
    ("derivative-sho-par", "derivative", "SHO", None, 12, "par", 60, 6),
    ("derivative-m32-seq", "derivative", "Matern32", None, 12, "seq", 60, 5),
    ("modulated-sho-seq", "modulated", "SHO", None, 12, "seq", 80, 5),
    ("modulated-exp-par", "modulated", "Exp", None, 12, "par", 60, 5),
    ("mixed-m32-seq", "mixed", "Matern32", None, 12, "seq", 60, 5),
    ("mixed-sho-par", "mixed", "SHO", None, 12, "par", 60, 6),
    ("slope-m52-seq", "slope", "Matern52", None, 12, "seq", 60, 5),
    ("slope-sho-par", "slope", "SHO", None, 12, "par", 60, 6),
    ("slope-m32-2i-iseq", "slope", "Matern32", 2, 10, "iseq", 60, 16),
    ("slope-sho-2i-ipar", "slope", "SHO", 2, 8, "ipar", 60, 28),
]


def groups(tier):
    k = 2 if tier == "quick" else 60
    return [
        dict(id=g, what=w, struct=s, insts=i, n=n, solver=so, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, w, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    t = C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], M, solver=group["solver"], points=points,
        rates=(0.03, 0.15, 0.5) if points else (0.045, 0.1, 0.3),
    )
    t["what"] = group["what"]
    t["order"] = rng.choice([1, 2]) if group["struct"] == "Matern52" else 1
    t["basis"] = 2.0 ** rng.choice([-3, 0, 0, 2])
    # modulation in ticks
    t["mod"] = [round(rng.uniform(-0.8, 0.8), 3), round(rng.choice([0.01, 0.1, 1.0]) * rng.uniform(1, 3), 5), round(rng.uniform(0, 6), 3)]
    if group["what"] == "mixed":
        t["mod"][0] = round(t["mod"][0] / rate(t["spec"]), 4)
    return t


@lru_cache(maxsize=None)
def program(struct_json, n_inst, solver, what, order):
    import jax
    import jax.numpy as jnp
    from sim import userkernels as U
    from smolgp import GaussianProcess

    struct = json.loads(struct_json)

    def custom(spec, basis):
        k = U.Custom(spec[0], spec[1:], basis)
        return k if n_inst is None else U.IntegratedCustom(k, n_inst)

    def twins(spec):
        if spec[0] == "Sum":
            return twins(spec[1]) + twins(spec[2])
        if spec[0] == "Exp":
            return U.Diffusing(spec[1] * jnp.log(2.0), spec[2])
        w, q, a = spec[1:]
        return U.Rotation(2 * jnp.pi / w, q, a) if n_inst is None else U.AveragedRotation(2 * jnp.pi / w, q, a, n_inst)

    def kernel(spec, mod, basis):
        if what == "custom":
            return custom(spec, basis)
        if what == "custom+":
            return custom(spec[1], basis) + model.build(spec[2], n_inst)
        if what == "subclass":
            w, q, a = spec[1][1:]
            period = 2 * jnp.pi / w
            k = U.Rotation(period, q, a) if n_inst is None else U.AveragedRotation(period, q, a, n_inst)
            return k + model.build(spec[2], n_inst)
        if what == "twins":
            return twins(spec)
        if what == "custom*":
            return model.build(spec[1][1]) * custom(spec[1][2], basis) + model.build(spec[2])
        k = model.build(spec, n_inst)
        if what == "derivative":
            return U.Derivative(k, order)
        if what == "modulated":
            return U.Modulated(k, *mod)
        if what == "mixed":
            return U.Mixed(k, *mod)
        return k

    def run(p, X, y, noise, tt, mod, basis):
        cls = A.solver_class(solver)
        gp = GaussianProcess(kernel(model.fill(struct, iter(p)), mod, basis), X, diag=noise, **({} if cls is None else {"solver": cls}))
        res = gp.condition(y)
        c = res.gp
        H = None
        if what == "slope":
            dim = gp.kernel.dimension
            H = lambda t: jnp.zeros((1, dim)).at[0, order].set(1.0)  # noqa: E731
        full = c.predict(tt, return_full_state=True)
        G = gp.kernel.observation_model if H is None else H
        parts = sum(c.get_all_component_means().values())
        at = {
            "predict": c.predict(tt, return_var=True, observation_model=H),
            "predict without the variance": (c.predict(tt, observation_model=H), None),
            "projected full state": (full.project_mean(G), full.project_variance(G)),
        }
        if what == "slope" or n_inst is None:
            at["the unconditioned process"] = gp.predict(tt, y, return_var=True, observation_model=H)
        covs = {}
        if n_inst is None and what != "slope":
            k = gp.kernel
            covs = {"data": k(X, X), "queries and data": k(tt, X), "data and queries": k(X, tt).T, "queries": k(tt)}
        return dict(logp=gp.log_probability(y), loglik=res.log_probability, loc=c.loc, var=c.variance, at=at, covs=covs, parts=parts)

    return jax.jit(run)


def dk(spec, tau, n):
    """n-th derivative of k by the signed lag, n <= 2 (4 for Matern-5/2)"""
    kind, x = spec[0], np.abs(tau)
    sg = np.sign(tau) if n % 2 else 1.0
    if n == 0:
        return cov(spec, x)
    if kind == "Matern32":
        a, s = math.sqrt(3) / spec[1], spec[2]
        e = s * s * np.exp(-a * x)
        return {1: -sg * a**2 * x * e, 2: -(a**2) * (1 - a * x) * e}[n]
    if kind == "Matern52":
        a, s = math.sqrt(5) / spec[1], spec[2]
        e = s * s * np.exp(-a * x) / 3
        return {
            1: -sg * a**2 * x * (1 + a * x) * e,
            2: -(a**2) * (1 + a * x - (a * x) ** 2) * e,
            3: sg * a**4 * x * (3 - a * x) * e,
            4: a**4 * (3 - 5 * a * x + (a * x) ** 2) * e,
        }[n]
    if kind == "SHO":
        w, q, s = spec[1:]
        a = w / (2 * q)
        if q == 0.5:
            e = s * s * np.exp(-w * x)
            return {1: -sg * w**2 * x * e, 2: -(w**2) * (1 - w * x) * e}[n]
        b = w * np.sqrt(complex(1 - 1 / (4 * q * q)))
        # as exponentials: no overflow for the overdamped case
        ep, em = np.exp((-a + 1j * b) * x), np.exp((-a - 1j * b) * x)
        sin, cos = (ep - em) / 2j, (ep + em) / 2
        v = {1: -sg * w**2 / b * sin, 2: -(w**2) * (cos - a / b * sin)}[n]
        return s * s * np.real(v)
    raise ValueError(kind)


def reference(trace):
    """log-likelihood, posterior at the data, prediction"""
    rec, spec, what, o = trace["records"], trace["spec"], trace["what"], trace["order"]
    s, e = np.array([r[0] for r in rec], float), np.array([r[1] for r in rec], float)
    y, nz = np.array([r[3] for r in rec]), np.array([r[4] for r in rec])
    h = C.query_times(trace)[1]
    u = trace["unit"]
    if what == "derivative":  # derivative in the units of the analysis
        sign, scale = (-1) ** o, u ** (-2 * o)
        Kf = sign * scale * dk(spec, s[:, None] - s[None, :], 2 * o)
        Kq = sign * scale * dk(spec, h[:, None] - s[None, :], 2 * o)
        prior = sign * scale * dk(spec, np.zeros(()), 2 * o)
    elif what == "slope":
        Kf = exposure_cov(spec, s[:, None], e[:, None], s[None, :], e[None, :])
        Kq = np.empty((len(h), len(s)))
        for j, (a, b) in enumerate(zip(s, e)):
            if a == b:
                Kq[:, j] = dk(spec, h - a, o)
            else:  # the average of k' over the exposure
                Kq[:, j] = (dk(spec, h - a, o - 1) - dk(spec, h - b, o - 1)) / (b - a)
        Kq = Kq * u**-o
        prior = (-1) ** o * dk(spec, np.zeros(()), 2 * o) * u ** (-2 * o)
    elif what == "mixed":
        m, w, phi = trace["mod"]
        ms, mq = (m * np.sin(w * t + phi) for t in (s, h))

        def mixed(t1, m1, t2, m2):
            tau = t1 - t2
            k1 = dk(spec, tau, 1)
            return dk(spec, tau, 0) + m1 * k1 - m2 * k1 - m1 * m2 * dk(spec, tau, 2)

        Kf = mixed(s[:, None], ms[:, None], s[None, :], ms[None, :])
        Kq = mixed(h[:, None], mq[:, None], s[None, :], ms[None, :])
        prior = mixed(h, mq, h, mq)
    else:
        b, w, phi = trace["mod"] if what == "modulated" else (0.0, 0.0, 0.0)
        ga, gq = (1 + b * np.sin(w * t + phi) for t in (s, h))
        Kf = ga[:, None] * ga[None, :] * exposure_cov(spec, s[:, None], e[:, None], s[None, :], e[None, :])
        Kq = gq[:, None] * ga[None, :] * exposure_cov(spec, h[:, None], h[:, None], s[None, :], e[None, :])
        prior = gq**2 * cov(spec, np.zeros(()))
    # derivatives have another unit: noise and data follow it
    if what == "derivative":
        f = float(prior) / float(cov(spec, np.zeros(())))
        y, nz = y * math.sqrt(f), nz * f
    L = np.linalg.cholesky(Kf + np.diag(nz))
    z = np.linalg.solve(L, y)
    ll = float(-0.5 * z @ z - np.log(np.diag(L)).sum() - 0.5 * len(y) * math.log(2 * math.pi))
    alpha = np.linalg.solve(L.T, z)
    va, vq = np.linalg.solve(L, Kf), np.linalg.solve(L, Kq.T)
    return y, nz, ll, (Kf @ alpha, np.diag(Kf) - (va * va).sum(0)), (Kq @ alpha, prior - (vq * vq).sum(0)), (Kf, Kq, prior)


def check(trace, stats):
    import jax
    import jax.numpy as jnp

    rec = trace["records"]
    n = len(rec)
    y, nz, ll, at, q, (Kf, Kq, prior) = reference(trace)
    X, _, _ = A.coords(rec, trace["unit"], trace["origin"])
    X = X if trace["insts"] else X[0]
    f = program(
        json.dumps(model.structure(trace["spec"])), trace["insts"], trace["solver"], trace["what"], trace["order"],
    )
    p = [float(v) for v in model.params(C.spec_in_units(trace))]
    b, w, phi = trace["mod"]
    b = b * trace["unit"] if trace["what"] == "mixed" else b
    mod = (b, w / trace["unit"], phi - w * trace["origin"] / trace["unit"])
    tt, _ = C.query_times(trace)
    out = f(p, jax.tree_util.tree_map(jnp.asarray, X), jnp.asarray(y), jnp.asarray(nz), jnp.asarray(tt), mod, trace["basis"])
    out = jax.tree_util.tree_map(np.asarray, out)
    var = float(np.max(np.diag(Kf)))
    amp = max(np.abs(y).max(), math.sqrt(var))
    # a prediction of another quantity (slope) has its own scale
    pv = float(np.max(prior))
    pa = amp * math.sqrt(pv / var) if trace["what"] == "slope" else amp
    pv = max(pv, var) if trace["what"] != "slope" else pv
    A.expect("likelihood", out["logp"], ll, TOL * (1 + n), "log_probability", TOL)
    A.expect("likelihood", out["loglik"], ll, TOL * (1 + n), "condition().log_probability", TOL)
    A.expect("posterior", out["loc"], at[0], TOL * amp, "posterior mean at the data")
    A.expect("posterior", out["var"], at[1], TOL * var, "posterior variance at the data")
    if trace["what"] != "slope":
        A.expect("posterior", out["parts"], at[0], TOL * amp, "sum of the component means")
    for route, (mu, mv) in out["at"].items():
        A.expect("prediction", mu, q[0], TOL * pa, "predicted mean by " + route)
        if mv is not None:
            A.expect("prediction", mv, q[1], TOL * pv, "predicted variance by " + route)
    want = {"data": Kf, "queries": np.broadcast_to(prior, len(tt)), "queries and data": Kq, "data and queries": Kq}
    for what, K in out["covs"].items():
        A.expect("covariance", K, want[what], TOL * var, "covariance of " + what)
    C.probes(trace, stats)
    stats["digest"] = out["at"]["predict"][0].tobytes().hex()[:64]


def shrink(trace):
    for t in C.shrink(trace):
        if model.structure(t["spec"]) == model.structure(trace["spec"]):
            yield t


signature, describe, size = C.signature, C.describe, C.size
