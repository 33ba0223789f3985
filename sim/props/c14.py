"""C14: the gradient of the log-likelihood is the gradient of the exact log-likelihood, at every step a fit takes."""

import json
import math
from functools import lru_cache

import numpy as np

from sim import analysis as A
from sim import model
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign fitted by a gradient-ascent client that is crashed after a random step and "
    "restarted from its checkpoint (the parameters); at every step value and gradients (parameters, data, noise) are "
    "compared with those of the dense reference model, and the restarted fit must continue bit for bit; distinct by event "
    "order, ties, arrival order and model"
)
REAL, STUBS = C.REAL, C.STUBS + ["fitting client (gradient ascent with checkpoints)"]
ASSUMPTIONS = [
    "derivatives of the reference model by the complex-step method (exact to rounding)",
    "qualities 0.5 exactly or not within 3e-4 of it; exposures and gaps are multiples of 2-50% of the shortest scale",
    "gradients are judged to 1e-6, scaled by parameter, data amplitude and noise",
]
TOL = 1e-6
STEPS = 4

STRUCTS = [
    ("exp-seq", "Exp", None, 14, "seq", 60, 6),
    ("sho-seq", "SHO", None, 14, "seq", 90, 9),
    ("m52+cos-seq", ["Sum", "Matern52", "Cosine"], None, 12, "seq", 40, 9),
    ("c*m32+ess-seq", ["Sum", ["Scale", "Matern32"], ["ESS", 3]], None, 10, "seq", 40, 12),
    ("const+exp*m32-seq", ["Sum", "Constant", ["Product", "Exp", "Matern32"]], None, 10, "seq", 30, 10),
    ("c*exp+exp-2i-ipar", ["Sum", ["Scale", "Exp"], "Exp"], 2, 8, "ipar", 30, 24),
    ("m52-par", "Matern52", None, 12, "par", 40, 10),
    ("exp*cos+sho-par", ["Sum", ["Product", "Exp", "Cosine"], "SHO"], None, 10, "par", 40, 14),
    ("exp-3i-iseq", "Exp", 3, 10, "iseq", 40, 14),
    ("sho-2i-iseq", "SHO", 2, 9, "iseq", 60, 26),
    ("m52-2i-iseq", "Matern52", 2, 9, "iseq", 30, 18),
    ("cos+m32-2i-iseq", ["Sum", "Cosine", "Matern32"], 2, 8, "iseq", 30, 24),
    ("m32-3i-ipar", "Matern32", 3, 9, "ipar", 30, 24),
    ("sho-2i-ipar", "SHO", 2, 8, "ipar", 40, 40),
]


def groups(tier):
    k = 2 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    t = C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], 1, solver=group["solver"], points=points,
        rates=(0.02, 0.15, 0.5) if points else (0.045, 0.1, 0.3),
    )
    t["rate"] = rng.choice([0.0, 0.02, 0.08])
    t["crash_after"] = rng.randrange(STEPS - 1)
    t["lost_steps"] = rng.randrange(t["crash_after"] + 1)
    t["faults"]["fit_crash"] = 1
    return t


@lru_cache(maxsize=None)
def program(struct_json, n_inst, solver):
    import jax

    struct = json.loads(struct_json)

    def logp(p, y, noise, X):
        return A.make_gp(model.fill(struct, iter(p)), X, noise, solver, n_inst).log_probability(y)

    return jax.jit(jax.value_and_grad(logp, argnums=(0, 1, 2)))


def qualities(spec, out=None, n=0):
    """positions of SHO qualities among the parameters"""
    out = [] if out is None else out
    if spec[0] in model.COMBINE:
        n = qualities(spec[1], out, n)[1]
        n = qualities(spec[2], out, n)[1]
    elif spec[0] == "Scale":
        n = qualities(spec[2], out, n + 1)[1]
    else:
        if spec[0] == "SHO":
            out.append(n + 1)
        n += len(model.params(spec))
    return out, n


def ascend(p, g, rate, fixed):
    """one bounded step in the logarithms; qualities stay on their side of critical damping"""
    step = np.array(g) * np.array(p)
    step = rate * step / (1e-12 + np.max(np.abs(step)))
    new = [v * math.exp(s) for v, s in zip(p, step)]
    for j in fixed:
        if p[j] == 0.5 or abs(new[j] - 0.5) < 3e-4 or (new[j] - 0.5) * (p[j] - 0.5) < 0:
            new[j] = p[j]
    return new


def check(trace, stats):
    import jax
    import jax.numpy as jnp

    rec = trace["records"]
    n = len(rec)
    unit = trace["unit"]
    X, y, nz = A.coords(rec, unit, trace["origin"])
    X = jax.tree_util.tree_map(jnp.asarray, X if trace["insts"] else X[0])
    struct = model.structure(trace["spec"])
    f = program(json.dumps(struct), trace["insts"], trace["solver"])
    fixed = qualities(trace["spec"])[0]

    def evaluate(p):
        v, (gp, gy, gn) = f([float(a) for a in p], jnp.asarray(y), jnp.asarray(nz), X)
        return float(v), np.array([float(g) for g in gp]), np.asarray(gy), np.asarray(gn)

    p = model.params(C.spec_in_units(trace))
    path = [p]
    for step in range(STEPS):
        v, gp, gy, gn = evaluate(p)
        spec = model.rescale(model.fill(struct, iter(p)), 1 / unit, 1.0)
        d = C.dense({**trace, "spec": spec})
        ticks = model.params(spec)
        perturbed = []
        for j in range(len(ticks)):
            q = list(ticks)
            q[j] += 1e-30j
            perturbed.append(model.fill(struct, iter(q)))
        wp, wy, wn = d.gradient(perturbed)
        ll = d.log_probability()
        big = 1 + abs(ll)
        A.expect("value", v, ll, TOL * (1 + n), f"log_probability at step {step}", TOL)
        # scaled by the parameter: the derivative with respect to its logarithm has no units
        A.expect("gradient", gp * np.array(p), wp * np.array(ticks), TOL * big, f"gradient by log-parameter at step {step}", TOL)
        s = np.sqrt(nz)  # in units of the noise
        top = 1 + np.max(np.abs(wy * s))
        A.expect("gradient", gy * s, wy * s, TOL * top, f"gradient by data at step {step}")
        A.expect("gradient", gn * nz, wn * nz, TOL * top**2, f"gradient by log-noise at step {step}")
        stats["gradient_evaluations"] += 1
        p = ascend(p, gp, trace["rate"], fixed)
        path.append(p)
    # the fit crashes after a step, comes back with an earlier checkpoint and must retrace its path
    back = trace["crash_after"] - trace["lost_steps"]
    p = json.loads(json.dumps(path[back]))
    for step in range(back, STEPS):
        p = ascend(p, evaluate(p)[1], trace["rate"], fixed)
        if p != path[step + 1]:
            raise A.Mismatch("restart", f"the restarted fit left its path at step {step}: {p} instead of {path[step + 1]}")
        stats["retraced_steps"] += 1
    stats["digest"] = repr(p)
    C.probes(trace, stats)


signature, describe, shrink, size = C.signature, C.describe, C.shrink, C.size
