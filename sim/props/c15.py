"""C15: between events the state evolves by one linear SDE, however many events split the interval."""

import json
import math
from functools import lru_cache

import numpy as np

from sim import analysis as A
from sim import model
from sim.oracle import cov
from sim.oracle import rate as oracle_rate
from sim.props import common as C

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated campaign; the transition and process-noise matrices of a model are chained through its "
    "shutter and query instants, through random subsets of them (events that were lost) and in one step, and compared "
    "with an independent solution of the stochastic differential equation the model declares, whose covariance must be "
    "the documented one; distinct by event order, ties, subsets and model"
)
REAL, STUBS = C.REAL, C.STUBS + ["oracle: Taylor series and doubling in numpy"]
ASSUMPTIONS = [
    "agreement is judged to 1e-8 (generic matrices of user-defined kernels and Van Loan's method: 1e-6) of the size of each "
    "state (its standard deviation; for integral states, accumulated)",
    "the Van Loan helpers are judged where they are documented to work: steps up to a few time scales",
]
TOL = 1e-8
SPECTRUM = 1e-6  # of the power
GENERIC = 1e-6  # the numerical defaults that user-defined kernels inherit

S = lambda a, b: ["Sum", a, b]  # noqa: E731
P = lambda a, b: ["Product", a, b]  # noqa: E731
# id, structure, instruments, kind of kernel
STRUCTS = [
    ("exp", "Exp", None, "built-in"), ("sho", "SHO", None, "built-in"), ("m32", "Matern32", None, "built-in"),
    ("m52", "Matern52", None, "built-in"), ("cos", "Cosine", None, "built-in"), ("const", "Constant", None, "built-in"),
    ("ess4", ["ESS", 4], None, "built-in"), ("c*sho", ["Scale", "SHO"], None, "built-in"),
    ("sho+m52+const", S(S("SHO", "Matern52"), "Constant"), None, "built-in"),
    ("m32*cos", P("Matern32", "Cosine"), None, "built-in"), ("exp*m32+c*exp", S(P("Exp", "Matern32"), ["Scale", "Exp"]), None, "built-in"),
    ("m52*exp", P("Matern52", "Exp"), None, "built-in"), ("sho*m52", P("SHO", "Matern52"), None, "built-in"),
    ("(exp+sho)*cos", P(S("Exp", "SHO"), "Cosine"), None, "built-in"),
    ("c*(sho+ess3)", ["Scale", S("SHO", ["ESS", 3])], None, "built-in"),
    ("custom-sho", "SHO", None, "custom"), ("custom-m52", "Matern52", None, "custom"),
    ("exp-2i", "Exp", 2, "built-in"), ("sho-1i", "SHO", 1, "built-in"), ("sho-3i", "SHO", 3, "built-in"), ("m32-2i", "Matern32", 2, "built-in"),
    ("m52-2i", "Matern52", 2, "built-in"), ("cos-2i", "Cosine", 2, "built-in"), ("sho+c*exp-2i", S("SHO", ["Scale", "Exp"]), 2, "built-in"),
    ("custom-m32-2i", "Matern32", 2, "custom"),
]
SLOTS = 24
NFREQ = 6


def groups(tier):
    k = 1 if tier == "quick" else 25
    return [
        dict(id=g, struct=s, insts=i, what=w, runs=k * 200, cost=8 if i else 4, parts=1 if tier == "quick" else 2)
        for g, s, i, w in STRUCTS
    ]


def gen(group, rng):
    t = C.observatory_trace(
        rng, group["struct"], group["insts"] or rng.choice([1, 2]), 9, 5,
        rates=(0.045, 0.15, 0.5) if group["insts"] else (0.002, 0.03, 0.2, 0.6),
    )
    t["what"], t["insts"] = group["what"], group["insts"]
    ev = sorted({2 * x for r in t["records"] for x in r[:2]} | set(t["queries"]))
    t["events"] = ev if len(ev) <= SLOTS else sorted(rng.sample(ev, SLOTS))
    # events that were lost on the way to another client
    t["kept"] = sorted(rng.sample(range(len(t["events"])), rng.randrange(2, len(t["events"]) + 1))) if len(t["events"]) > 1 else [0]
    t["basis"] = 2.0 ** rng.choice([-2, 0, 3])
    # frequencies, in terms of the fastest rate of the model
    t["freq"] = [round(10 ** rng.uniform(-3, 1), 6) for _ in range(NFREQ)]
    t["faults"]["lost_event"] = len(t["events"]) - len(t["kept"])
    return t


@lru_cache(maxsize=None)
def program(struct_json, n_inst, what):
    import jax
    import jax.numpy as jnp
    from sim import userkernels as U
    from smolgp import helpers

    struct = json.loads(struct_json)

    def run(p, t, basis, freq):
        spec = model.fill(struct, iter(p))
        if what == "custom":
            k = U.Custom(spec[0], spec[1:], basis)
            k = k if n_inst is None else U.IntegratedCustom(k, n_inst)
        else:
            k = model.build(spec, n_inst)
        F, L, Qc = k.design_matrix(), k.noise_effect_matrix(), k.noise()
        a, b = t[:-1], t[1:]
        out = dict(
            F=F, L=L, Qc=Qc, Pinf=k.stationary_covariance(), H=k.observation_model(t[0]),
            A=jax.vmap(k.transition_matrix)(a, b), Q=jax.vmap(k.process_noise)(a, b),
            reset=[k.reset_matrix(i) for i in range(n_inst or 1)],
        )
        if n_inst is not None:  # coordinates with an exposure and an instrument
            z = jnp.zeros(len(a))
            X1, X2 = (a, z + 1.0, jnp.zeros(len(a), int)), (b, z + 2.0, jnp.ones(len(a), int))
            out["A_tuple"] = jax.vmap(k.transition_matrix)(X1, X2)
            out["Q_tuple"] = jax.vmap(k.process_noise)(X1, X2)
            if struct == "SHO":
                out["Q_numerical"] = jax.vmap(lambda x, y: k.process_noise(x, y, force_numerical=True))(a, b)
        else:
            out["psd"] = k.psd(freq)
            dt = b - a
            # in units of each state: the helpers are only accurate to the largest element
            s = jnp.sqrt(jnp.diag(k.stationary_covariance())) if what == "built-in" else jnp.ones(len(F))
            F_, L_ = F * s[None, :] / s[:, None], L / s[:, None]
            out["Q_vanloan"] = jax.vmap(lambda h: helpers.Q_from_VanLoan(F_, L_, Qc, h) * s[:, None] * s[None, :])(dt)
            out["Phibar"] = jax.vmap(lambda h: helpers.Phibar_from_VanLoan(F_, h) * s[:, None] / s[None, :])(dt)
            if what == "custom":
                out["Q_option"] = jax.vmap(lambda x, y: k.process_noise(x, y, use_van_loan=True))(a, b)
        return out

    return jax.jit(run)


def solve(F, QL, dt, size):
    """exp(F dt), its integral and the process noise: Taylor series of a small step, then doublings"""
    # in units of each state, where no element is large
    D = size[:, None] / size[None, :]
    A, I, Q = _solve(F / D, QL / (size[:, None] * size[None, :]), dt)
    return A * D, I * D, Q * (size[:, None] * size[None, :])


def _solve(F, QL, dt):
    d = len(F)

    norm = np.abs(F).sum(1).max() * dt
    m = max(0, int(math.ceil(math.log2(max(norm, 1e-300)))) + 4)
    h = dt / 2**m
    # A' = F A and Q' = F Q + Q F^T + QL
    A, Q, I = np.eye(d), QL * h, np.eye(d) * h
    dA, dQ = np.eye(d), QL * h
    for k in range(1, 16):
        dA = F @ dA * (h / k)
        A = A + dA
        I = I + dA * (h / (k + 1))
        dQ = (F @ dQ + dQ @ F.T) * (h / (k + 1))
        Q = Q + dQ
    for _ in range(m):
        I, Q, A = I + A @ I, Q + A @ Q @ A.T, A @ A
    return A, I, Q


def check(trace, stats):
    import jax
    import jax.numpy as jnp

    u = trace["unit"]
    spec, ni = trace["spec"], trace["insts"]
    ev = np.array(trace["events"], float) / 2
    ev = ev - ev[0]
    kept = np.array(trace["kept"])
    p = [float(v) for v in model.params(C.spec_in_units(trace))]
    f = program(json.dumps(model.structure(spec)), ni, trace["what"])
    freq = (oracle_rate(C.spec_in_units(trace)) or 1 / u) * np.array(trace["freq"])

    def ask(t):
        # idle steps at the end keep the shape
        x = np.full(SLOTS + 1, t[-1])
        x[: len(t)] = t
        return jax.tree_util.tree_map(np.asarray, f(p, jnp.asarray(trace["origin"] + u * x), trace["basis"], freq))

    limit = GENERIC if trace["what"] == "custom" else TOL
    full, part, one = ask(ev), ask(ev[kept]), ask(ev[kept][[0, -1]])
    F, L, Qc, Pinf = (np.array(full[v], float) for v in ("F", "L", "Qc", "Pinf"))
    d = len(F)
    base = d if ni is None else d - _integrals(spec, ni)
    QL = L @ Qc @ L.T
    T = u * (ev[-1] - ev[0])
    size = np.sqrt(np.maximum(np.diag(Pinf), 1e-300))
    amp = math.sqrt(float(cov(spec, np.zeros(()))))
    if ni is not None:
        z = _is_integral(spec, ni)
        size = np.where(z, amp * np.maximum(T, u), size)

    def expect(got, want, what, tol=limit):
        # the size of each element in its own units
        A.expect("evolution", got, want, tol * size[:, None] * size[None, :], what)

    def expect_map(got, want, what, tol=limit):
        # A maps sizes: element (i, j) acts on a state of size j
        A.expect("evolution", got, want, tol * size[:, None] / size[None, :] + 1e-13, what)

    # the model's own equation has the documented covariance
    z = np.zeros(d, bool) if ni is None else _is_integral(spec, ni)
    b = ~z
    Fb, QLb, Pb, Hb = F[np.ix_(b, b)], QL[np.ix_(b, b)], Pinf[np.ix_(b, b)], full["H"][:, b]
    sb = size[b]
    rate = np.abs(Fb * sb[None, :] / sb[:, None]).sum(1).max()
    A.expect("equation", Fb @ Pb + Pb @ Fb.T + QLb, np.zeros_like(Pb), 1e-10 * max(rate, 1e-300) * sb[:, None] * sb[None, :],
             "the declared stationary covariance is not stationary under the declared equation")
    for i in range(1, len(ev), 3):
        tau = ev[i] - ev[0]
        E = solve(Fb, QLb, u * tau, sb)[0]
        A.expect("equation", (Hb @ E @ Pb @ Hb.T)[0, 0], float(cov(spec, np.array(tau))), TOL * amp**2, f"covariance of the declared equation at lag {tau:g} ticks")

    if ni is None:
        spectrum(full["psd"], freq, Fb / sb[:, None] * sb[None, :], QLb / (sb[:, None] * sb[None, :]), Hb[0] * sb, stats)

    # every step solves it
    def chain(out, steps):
        At, Qt = np.eye(d), np.zeros((d, d))
        for i in range(steps):
            At, Qt = out["A"][i] @ At, out["A"][i] @ Qt @ out["A"][i].T + out["Q"][i]
        return At, Qt

    worst = 0.0
    for i in range(len(ev) - 1):
        h = u * (ev[i + 1] - ev[i])
        E, I, Q = solve(F, QL, h, size)
        expect_map(full["A"][i], E, f"transition matrix over {ev[i + 1] - ev[i]:g} ticks")
        expect(full["Q"][i], Q, f"process noise over {ev[i + 1] - ev[i]:g} ticks")
        if ni is not None:
            expect_map(full["A_tuple"][i], E, "transition matrix between exposures")
            expect(full["Q_tuple"][i], Q, "process noise between exposures")
            if "Q_numerical" in full and rate * h < 4:
                expect(full["Q_numerical"][i], Q, "numerical process noise", GENERIC)
        elif rate * h < 2:
            expect(full["Q_vanloan"][i], Q, "process noise by Van Loan's method", GENERIC)
            A.expect("evolution", full["Phibar"][i], I, GENERIC * max(h, 1e-300) * (size[:, None] / size[None, :] + 1e-6), "integral of the transition matrix")
            if "Q_option" in full:
                expect(full["Q_option"][i], Q, "process noise with use_van_loan", GENERIC)
        worst = max(worst, rate * h)
    # idle steps do nothing
    for i in range(len(ev) - 1, SLOTS):
        expect_map(full["A"][i], np.eye(d), "transition matrix over no time")
        expect(full["Q"][i], np.zeros((d, d)), "process noise over no time")

    # lost events change nothing
    if len(kept) > 1:
        A1, Q1 = one["A"][0], one["Q"][0]
        Ap, Qp = chain(part, SLOTS)
        expect_map(Ap, A1, "transition through the events that were left")
        expect(Qp, Q1, "process noise through the events that were left")
        lo, hi = kept[0], kept[-1]
        sub = dict(A=full["A"][lo:hi], Q=full["Q"][lo:hi])
        Af, Qf = chain(sub, hi - lo)
        expect_map(Af, A1, "transition through all events")
        expect(Qf, Q1, "process noise through all events")

    # a reset clears one instrument's integral and nothing else
    for i, R in enumerate(full["reset"]):
        want = np.ones(d)
        if ni is not None:
            want[_is_integral(spec, ni, i)] = 0.0
        A.expect("reset", R, np.diag(want), 0.0, f"reset of instrument {i}")
    stats["probe:chained_steps"] += len(ev)
    stats["probe:lost_event"] += len(ev) - len(kept)
    if worst > 50:
        stats["probe:long_outage"] += 1
    stats["digest"] = full["Q"].tobytes().hex()[-64:]


def spectrum(got, freq, F, QL, H, stats):
    """the spectrum of the declared equation, in units of each state: that of its covariance"""
    d = len(F)
    poles = np.linalg.eigvals(F)
    for w, g in zip(freq, got):
        if np.abs(poles - 1j * w).min() < 1e-5 * w:
            continue  # on a spectral line
        r = np.linalg.solve(F - 1j * w * np.eye(d), np.eye(d))
        v = H @ r
        want = float((v @ QL @ v.conj()).real) / (2 * np.pi)
        A.expect("spectrum", g, want, SPECTRUM * max(want, 1e-9 * float((v @ v.conj()).real) * np.abs(QL).max()), f"power at frequency {w:.6g} ")
        stats["probe:frequency"] += 1


DIM = {"SHO": 2, "Exp": 1, "Matern32": 2, "Matern52": 3, "Cosine": 2}


def _is_integral(spec, ni, which=None):
    """mask of the states that are integrals (of one instrument)"""
    if spec[0] == "Sum":
        return np.concatenate([_is_integral(s, ni, which) for s in spec[1:]])
    if spec[0] == "Scale":
        return _is_integral(spec[2], ni, which)
    d = DIM[spec[0]]
    m = np.zeros(d + ni, bool)
    m[d if which is None else d + which : None if which is None else d + which + 1] = True
    return m


def _integrals(spec, ni):
    return int(_is_integral(spec, ni).sum())


def signature(trace):
    return C.signature(trace) + str(trace["kept"])


def shrink(trace):
    n = len(trace["events"])
    for k in range(n):
        if n > 2:
            ev = trace["events"][:k] + trace["events"][k + 1 :]
            kept = sorted({j - (j > k) for j in trace["kept"] if j != k})
            if len(kept) > 1 or n == 3:
                yield {**trace, "events": ev, "kept": kept or [0]}
    if trace["origin"] != 0.0:
        yield {**trace, "origin": 0.0}
    if trace["unit"] != 1.0:
        yield {**trace, "unit": 1.0, "origin": 0.0}


describe, size = C.describe, C.size
