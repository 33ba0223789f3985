"""Analysis clients: the only place that calls the code under test.

Everything goes through the public interface of smolgp.  Programs are compiled
once per (model structure, solver, sizes) and reused by all runs of a group.
"""

from __future__ import annotations

import json
from functools import lru_cache

import numpy as np

from sim import model

SOLVERS = {
    "default": None,
    "seq": "StateSpaceSolver",
    "par": "ParallelStateSpaceSolver",
    "iseq": "IntegratedStateSpaceSolver",
    "ipar": "ParallelIntegratedStateSpaceSolver",
}


def solver_class(key):
    import smolgp.solvers as S
    import smolgp.solvers.integrated as I

    name = SOLVERS[key]
    if name is None:
        return None
    return getattr(S, name, None) or getattr(I, name)


def is_parallel(key):
    return key in ("par", "ipar")


def make_gp(spec, X, noise, solver, n_inst, **kw):
    from smolgp import GaussianProcess

    kernel = model.build(spec, n_inst)
    cls = solver_class(solver)
    if cls is not None:
        kw["solver"] = cls
    return GaussianProcess(kernel, X, diag=noise, **kw)


@lru_cache(maxsize=None)
def _program(struct_json, n_inst, solver, want, mode):
    import jax
    import jax.numpy as jnp

    struct = json.loads(struct_json)
    want = set(want)

    def run(p, X, y, noise, tt):
        spec = model.fill(struct, iter(p))
        gp = make_gp(spec, X, noise, solver, n_inst)
        out = {}
        if "logp" in want:
            out["logp"] = gp.log_probability(y)
        if want - {"logp"}:
            res = gp.condition(y)
            out["loglik"] = res.log_probability
            c = res.gp
            if "data" in want:
                out["loc"], out["var"] = c.loc, c.variance
            if "test" in want:
                out["mu"], out["mv"] = c.predict(tt, return_var=True)
            if "states" in want:
                s = c.states
                out["states"] = dict(
                    t=s.t_states,
                    obsid=s.obsid,
                    stateid=s.stateid,
                    pm=s.predicted_mean,
                    pP=s.predicted_cov,
                    fm=s.filtered_mean,
                    fP=s.filtered_cov,
                    sm=s.smoothed_mean,
                    sP=s.smoothed_cov,
                )
                H = c.kernel.observation_model(jnp.zeros(()))
                out["H"] = H
                if isinstance(X, tuple):
                    out["HX"] = jax.vmap(c.kernel.observation_model)(X)
            if "components" in want:
                alld = c.get_all_component_means(return_var=True)
                names = list(alld)  # in the order of the components
                out["cd"] = [alld[n] for n in names]
                full = c.predict(tt, return_full_state=True)
                out["ct_total"] = (full.loc, full.variance)
                allt = full.get_all_components(return_var=True)
                out["ct"] = [allt[n] for n in names]
                if len(names) > 1:
                    first2 = [names[0], names[-1]]
                    out["cd_pair"] = c.get_component_mean(first2, return_var=True)
                    out["ct_pair"] = full.get_component(first2, return_var=True)
                    out["ct_last"] = c.predict(tt, return_var=True, kernel=names[-1])
                    out["cd_last"] = c.predict(None, return_var=True, kernel=names[-1])
        return out

    return jax.jit(run) if mode == "jit" else run


def run(spec, X, y, noise, tt=None, *, solver="default", n_inst=None, want=("logp", "data", "test"), mode="jit"):
    """returns numpy outputs"""
    import jax
    import jax.numpy as jnp

    f = _program(json.dumps(model.structure(spec)), n_inst, solver, tuple(sorted(want)), mode)
    p = [float(v) for v in model.params(spec)]
    if tt is None:
        tt = np.zeros(1)
    X = tuple(jnp.asarray(x) for x in X) if isinstance(X, tuple) else jnp.asarray(X)
    out = f(p, X, jnp.asarray(y), jnp.asarray(noise), jnp.asarray(tt))
    return jax.tree_util.tree_map(np.asarray, out)


def coords(records, unit=1.0, origin=0.0):
    """(midpoints, exposure times, instruments), values and noise of the records"""
    s = np.array([r[0] for r in records], float)
    e = np.array([r[1] for r in records], float)
    X = (origin + unit * (s + e) / 2, unit * (e - s), np.array([r[2] for r in records]))
    return X, np.array([r[3] for r in records], float), np.array([r[4] for r in records], float)


class Mismatch(Exception):
    """a property violation: `kind` is its class, the text says what was seen"""

    def __init__(self, kind, text):
        super().__init__(text)
        self.kind = kind
        self.text = text


LARGEST = {}  # largest error so far, as a fraction of the tolerance, by kind of answer


def expect(kind, got, want, tol, what="", rtol=None):
    """element-wise |got - want| <= tol (+ rtol*|want|)"""
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        raise Mismatch(kind, f"{what}: shape {got.shape}, expected {want.shape}")
    lim = np.asarray(tol) + (0 if rtol is None else rtol * np.abs(want))
    with np.errstate(invalid="ignore", divide="ignore"):
        ratio = np.nan_to_num(np.abs(got - want) / lim, nan=0.0, posinf=0.0)
        LARGEST[kind] = max(LARGEST.get(kind, 0.0), float(ratio.max(initial=0.0)))
        bad = ~(np.abs(got - want) <= lim)
        bad &= ~((got == want))  # same infinities
    if bad.any():
        j = np.unravel_index(np.argmax(bad), bad.shape)
        raise Mismatch(
            kind,
            f"{what}{list(map(int, j)) if j else ''}: got {got[j]:.9g}, expected {want[j]:.9g} "
            f"({int(bad.sum())} of {bad.size} differ)",
        )
