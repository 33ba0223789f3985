"""C17: every route through the interface leads to the same, exact answer."""

import json
from functools import lru_cache

import numpy as np

from sim import analysis as A
from sim import model
from sim.oracle import Dense
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign handed to several analysis clients, each of which asks for the same answers "
    "by another route (ways to state the noise, the model, the solver and component names; ways to ask for the "
    "likelihood, the posterior, predictions and components); every answer is compared with the dense reference model; "
    "distinct by event order, ties, arrival order and model"
)
REAL, STUBS = C.REAL, C.STUBS + ["analysis clients, one per route"]
ASSUMPTIONS = [
    "component names given by the user are unique unless they are the default names",
    "exposures and gaps are multiples of 3-50% of the shortest time scale of the model (or exactly zero)",
    "agreement is judged to 1e-6 of the signal amplitude, variance and log-likelihood",
]
TOL = 1e-6
M = 6
S = lambda a, b: ["Sum", a, b]  # noqa: E731
P = lambda a, b: ["Product", a, b]  # noqa: E731

# id, structure, instruments, records, solver, component names, runs, cost
STRUCTS = [
    ("exp+sho-seq", S("Exp", "SHO"), None, 12, "seq", ["star", "star_activity"], 80, 10),
    ("m32-seq", "Matern32", None, 10, "seq", None, 60, 7),
    ("exp+exp+exp-seq", S(S("Exp", "Exp"), "Exp"), None, 9, "seq", ["Exp", "Exp_1", "Exp"], 60, 10),
    ("m52+c*m52+cos*exp-par", S(S("Matern52", ["Scale", "Matern52"]), P("Cosine", "Exp")), None, 9, "par", ["a", "ab", "b"], 60, 14),
    ("ess+sho-default", S(["ESS", 3], "SHO"), None, 9, "default", ["", "x"], 60, 12),
    ("exp+exp-2i-iseq", S("Exp", "Exp"), 2, 9, "iseq", ["planet b", "planet bc"], 50, 24),
    ("m32+exp-2i-ipar", S("Matern32", "Exp"), 2, 8, "ipar", ["one", "on"], 40, 40),
    ("sho-3i-default", "SHO", 3, 8, "default", None, 40, 26),
]


def groups(tier):
    k = 2 if tier == "quick" else 60
    return [
        dict(id=g, struct=s, insts=i, n=n, solver=so, names=nm, runs=r * k, cost=c, parts=1 if tier == "quick" else 2)
        for g, s, i, n, so, nm, r, c in STRUCTS
    ]


def gen(group, rng):
    points = group["insts"] is None
    t = C.observatory_trace(
        rng, group["struct"], group["insts"], group["n"], M, solver=group["solver"], points=points,
        rates=(0.03, 0.15, 0.5) if points else (0.045, 0.1, 0.3),
    )
    t["names"] = group["names"]
    return t


def terms(spec, n_inst, names):
    """the kernels of the additive terms, named by the user"""
    from smolgp.kernels.base import Product, Scale
    import dataclasses

    out = []
    for i, part in enumerate(model.leaves(spec)):
        k = model.build(part, n_inst)
        if names is not None:
            if part[0] == "Product":
                k = Product(k.kernel1, k.kernel2, name=names[i])
            elif part[0] == "Scale":
                k = Scale(k.kernel, k.scale, name=names[i])
            else:
                k = dataclasses.replace(k, name=names[i])
        out.append(k)
    return out


@lru_cache(maxsize=None)
def program(struct_json, n_inst, solver, names_json):
    import jax
    import jax.numpy as jnp
    from smolgp import GaussianProcess
    from tinygp.noise import Diagonal

    struct, names = json.loads(struct_json), json.loads(names_json)
    found = {}

    def run(p, X, y, nz, tt):
        spec = model.fill(struct, iter(p))
        parts = terms(spec, n_inst, names)
        cls = A.solver_class(solver)
        kw = {} if cls is None else {"solver": cls}
        n = len(parts)
        # the model: chained additions, sum(), grouped from the right, in reverse
        chain = parts[0]
        for k in parts[1:]:
            chain = chain + k
        right = parts[-1]
        for k in parts[-2::-1]:
            right = k + right
        back = sum(parts[::-1])
        gp = GaussianProcess(chain, X, diag=nz, **kw)
        gp_sum = GaussianProcess(sum(parts), X, noise=Diagonal(nz), **kw)
        gp_right = GaussianProcess(right, X, diag=nz, **kw)
        gp_back = GaussianProcess(back, X, diag=nz)
        gp_flat = GaussianProcess(chain, X, diag=nz[0], **kw)

        # instants, in the structure of the data
        xt = tt if n_inst is None else (tt, 0 * tt, jnp.zeros(tt.shape, int))
        res = gp.condition(y)
        c = res.gp
        cname = [k.name for k in _leaves(c.kernel)]
        found["names"] = cname
        at = gp.condition(y, xt)
        last = gp.condition(y, kernel=_leaves(c.kernel)[-1])
        first_at = gp.condition(y, xt, kernel=_leaves(c.kernel)[0])
        full = c.predict(tt, return_full_state=True)
        direct = gp_right.predict(tt, y, return_var=True)
        H = c.kernel.observation_model
        out = dict(
            ll={
                "log_probability": gp.log_probability(y),
                "condition": res.log_probability,
                "condition(X_test)": at.log_probability,
                "condition(kernel=)": last.log_probability,
                "condition(X_test, kernel=)": first_at.log_probability,
                "log_probability of the conditioned process": c.log_probability(y),
                "a sum() with a Diagonal noise": gp_sum.log_probability(y),
                "a sum grouped from the right": gp_right.log_probability(y),
                "a sum in reverse": gp_back.log_probability(y),
            },
            flat=gp_flat.log_probability(y),
            data={
                "loc": (c.loc, c.variance),
                "predict()": c.predict(return_var=True),
                "all components together": c.get_component_mean(cname, return_var=True),
                "the unconditioned process": gp_sum.predict(y=y, return_var=True),
            },
            test={
                "predict": c.predict(tt, return_var=True),
                "the unconditioned process": direct,
                "condition(X_test)": (at.gp.loc, at.gp.variance),
                "full state": (full.loc, full.variance),
                "projected full state": (full.project_mean(H), full.project_variance(H)),
                "all components of the full state": full.get_component(cname, return_var=True),
                "the process conditioned at queries": at.gp.predict(tt, return_var=True),
                "the process conditioned on a component": last.gp.predict(tt, return_var=True),
                "an observation model": c.predict(tt, return_var=True, observation_model=H),
            },
            mean_only=(c.predict(), c.predict(tt), full.get_component(cname[-1])),
            # component i by every route
            cdata={
                "get_component_mean": [c.get_component_mean(m, return_var=True) for m in cname],
                "get_component_mean([name])": [c.get_component_mean([m], return_var=True) for m in cname],
                "predict(kernel=name)": [c.predict(None, return_var=True, kernel=m) for m in cname],
                "predict(kernel=index)": [c.predict(None, return_var=True, kernel=i) for i in range(n)],
                "predict(kernel=kernel)": [c.predict(None, return_var=True, kernel=k) for k in _leaves(c.kernel)],
                "get_all_component_means": list(c.get_all_component_means(return_var=True).values()),
                "get_component_mean of the process conditioned at queries": [at.gp.get_component_mean(m, return_var=True) for m in cname],
            },
            call=(last.gp.loc, last.gp.variance),
            call_at=(first_at.gp.loc, first_at.gp.variance),
            calld=list(c.get_all_component_means().values()),
            ctest={
                "predict(kernel=name)": [c.predict(tt, return_var=True, kernel=m) for m in cname],
                "predict(kernel=kernel)": [c.predict(tt, return_var=True, kernel=k) for k in _leaves(c.kernel)],
                "predict(kernel=index)": [c.predict(tt, return_var=True, kernel=i) for i in range(n)],
                "get_component": [full.get_component(m, return_var=True) for m in cname],
                "get_all_components": list(full.get_all_components(return_var=True).values()),
            },
        )
        if names is not None and n == len(set(names)):
            # by the names the user gave, on the conditioned process and on another grouping
            out["user"] = [c.predict(tt, return_var=True, kernel=m) for m in names]
            cb = gp_back.condition(y).gp
            out["user_back"] = [cb.get_component_mean(m, return_var=True) for m in names]
        return out

    return jax.jit(run), found


def _leaves(k):
    from smolgp.kernels.base import extract_leaf_kernels

    return extract_leaf_kernels(k)


def check(trace, stats):
    import jax
    import jax.numpy as jnp

    rec, spec = trace["records"], trace["spec"]
    n = len(rec)
    X, y, nz = A.coords(rec, trace["unit"], trace["origin"])
    X = X if trace["insts"] else X[0]
    names = trace["names"]
    f, found = program(json.dumps(model.structure(spec)), trace["insts"], trace["solver"], json.dumps(names))
    p = [float(v) for v in model.params(C.spec_in_units(trace))]
    tt, h = C.query_times(trace)
    out = f(p, jax.tree_util.tree_map(jnp.asarray, X), jnp.asarray(y), jnp.asarray(nz), jnp.asarray(tt))
    out = jax.tree_util.tree_map(np.asarray, out)
    amp, prior = C.scale_of(trace)
    d = C.dense(trace)
    ll = d.log_probability()
    for route, v in out["ll"].items():
        A.expect("likelihood", v, ll, TOL * (1 + n), f"likelihood from {route}", TOL)
    flat = Dense(spec, d.s, d.e, np.full(n, nz[0]), d.y).log_probability()
    A.expect("likelihood", out["flat"], flat, TOL * (1 + n), "likelihood with one noise variance for all", TOL)

    def same(got, mu, var, what):
        A.expect("route", got[0], mu, TOL * amp, "mean from " + what)
        A.expect("route", got[1], var, TOL * prior, "variance from " + what)

    mu, var = d.predict(d.s, d.e)
    for route, v in out["data"].items():
        same(v, mu, var, route)
    A.expect("route", out["mean_only"][0], mu, TOL * amp, "predict() without the variance")
    mu, var = d.predict(h)
    for route, v in out["test"].items():
        same(v, mu, var, route + " at the queries")
    A.expect("route", out["mean_only"][1], mu, TOL * amp, "predict(X_test) without the variance")

    parts = model.leaves(spec)
    cname = found["names"]
    if len(cname) != len(parts) or len(set(cname)) != len(cname):
        raise A.Mismatch("names", f"component names {cname} of a model with {len(parts)} terms")
    given = names or [None] * len(parts)
    for got, want in zip(cname, given):
        if want is not None and got != want and (given.count(want) == 1 or not got.startswith(want + "_")):
            raise A.Mismatch("names", f"component named {want!r} is listed as {got!r}")
    truth_d = [d.predict(d.s, d.e, spec=q) for q in parts]
    truth_t = [d.predict(h, spec=q) for q in parts]
    for k in range(len(parts)):
        for route, v in out["cdata"].items():
            if len(v) != len(parts):
                raise A.Mismatch("names", f"{route} lists {len(v)} components of {len(parts)}")
            same(v[k], *truth_d[k], f"component {k} by {route}")
        A.expect("route", out["calld"][k], truth_d[k][0], TOL * amp, f"component {k} by get_all_component_means()")
        for route, v in out["ctest"].items():
            same(v[k], *truth_t[k], f"component {k} at the queries by {route}")
        if "user" in out:
            same(out["user"][k], *truth_t[k], f"component {k} at the queries by the user's name")
            same(out["user_back"][k], *truth_d[k], f"component {k} by the user's name in the reversed sum")
    same(out["call"], *truth_d[-1], "the last component by condition(kernel=)")
    same(out["call_at"], *truth_t[0], "the first component by condition(X_test, kernel=)")
    A.expect("route", out["mean_only"][2], truth_t[-1][0], TOL * amp, "last component of the full state without the variance")
    C.probes(trace, stats)
    stats["digest"] = out["test"]["predict"][0].tobytes().hex()[:64]


def shrink(trace):
    for t in C.shrink(trace):
        if model.structure(t["spec"]) == model.structure(trace["spec"]):
            yield t


signature, describe, size = C.signature, C.describe, C.size
